"""P08 placement: results live on the backend, dtype and device of the inputs.

The array interpreter (arrays.py) gives every array a kind: B (made from the documented array arguments of the entry), N (certainly
a NumPy array), D (made by a constructor of the backend without type_as: default dtype, default device) with the place it was made.
A violation is a D array combined with a B array or returned, or a NumPy array returned, by an entry that takes arrays of a backend."""

import ast

from .. import arrays
from . import p25

TITLE = "results stay on the backend, dtype and device of the input"

EXCEPTIONS = {
    # (kind, function): reason
    ("retdefault", "ot.bsp.bsp_ot::compute_bspot_bijection"): "a permutation of integers, as returned by the native solver",
    ("retdefault", "ot.bsp.bsp_ot::merge_bijections"): "a permutation of integers, as returned by the native solver",
    ("numpy", "ot.utils::unif"): "without type_as",
}
INDICES = {"arange", "randperm"}        # integers


def made_by(f, line):
    """names of the constructors called on the line of f"""
    return {n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "") for n in ast.walk(f.node)
            if isinstance(n, ast.Call) and n.lineno <= line <= (n.end_lineno or n.lineno)}


def run(ctx, rep):
    rep.rule("an array that the backend makes without type_as is neither combined with an array of the input nor returned")
    rep.rule("an entry that works with a backend does not return an array that is certainly a NumPy array, nor puts one in its log")
    rep.assume("arrays whose kind the interpreter does not know live in the right place")
    rep.assume("integer index arrays (arange, randperm) have no dtype to keep")
    rep.assume("a function with an argument type_as leaves the choice to its caller")
    r = p25.analyse(ctx)
    for (what, fid, line, msg), names in sorted(r.facts.items()):
        if what not in ("default", "retdefault", "numpy", "mixnumpy") or what == "mixnumpy" and "is combined with" not in msg:
            continue        # NumPy arrays given to operations of a backend: the backend may be NumPy
        f = ctx.p.funcs[fid]
        module, func = fid.split("::")
        if what in ("default", "retdefault") and made_by(f, line) & INDICES:
            continue
        if what == "retdefault" and "type_as" in arrays.params_of(f):
            continue
        if ctx.held(f, lambda h: (what, h.fid) in EXCEPTIONS):
            continue
        for name, variant in sorted(names):
            key = ctx.key(rep, f, lambda h: "%s:%s" % (what, h.fid.replace("::", ":")))
            if what == "numpy":
                text = "%s returns a NumPy array %s" % (func, msg)
            elif what == "mixnumpy":
                text = "%s: %s" % (func, msg)
            else:
                text = "%s makes an array with the default dtype and device of the backend, %s" % (func, msg)
            rep.violation(key, "%s (called through %s)" % (text, name), "%s:%d" % (module, line))
    rep.count("public entry points", r.entries)
    rep.count("array operations interpreted", r.nops)
    rep.count("array constructors of the backend interpreted", len(r.made))
    rep.need(r.nops >= 50000 and len(r.made) >= 150, "only %d operations and %d constructors" % (r.nops, len(r.made)))
    for k, why in EXCEPTIONS.items():
        rep.assume("%s -- %s" % (" ".join(k), why))

"""P03: log, verbose and warn only observe.

(a) The function is specialised for the option on and off (branches decided by abstract interpretation),
the log is removed from the result, and both versions are sliced backwards from the returned value: the
slices must be the same program.  (b) With log=True the log dictionary is the last item returned, with
log=False there is none."""

import ast

from .. import terms
from ..values import V, TRUE, FALSE

QUIET = frozenset(["log", "verbose", "warn"])

# options that by their documentation add to what is returned, set to this value for both runs
FIXED = {"return_matrix": FALSE}

# only says how a returned matrix is stored
STORAGE = frozenset(["dense"])

EXCEPTIONS = {
    ("partial_cg", "warn"): "with warn a failure of the exact solver is reported by an exception",
}

# return something else than (value, log), by their documentation
SHAPE_EXCEPTIONS = {
    "ot.lp.barycenter": "the log is the result object of scipy.optimize.linprog (a dict subclass) or of cvxopt",
}


def kinds(v, heap):
    """shapes of a returned value: (number of items, is the last one a dictionary) or None for no sequence"""
    r = set()
    for a in v.atoms:
        els = None
        if a[0] == "t":
            els = a[2]
        elif a[0] == "h" and a[1] in heap and heap[a[1]].kind == "list":
            o = heap[a[1]]
            if o.exact is not None:
                els = o.exact
            elif o.elem is not None:
                inner = kinds(o.elem, heap)
                if inner - {None}:
                    r |= inner  # one result per problem
                    continue
        if els:
            d = set()
            for b in els[-1].atoms:
                o = heap.get(b[1]) if b[0] == "h" else None
                d.add("dict" if b[0] == "cdict" or (o is not None and o.kind == "dict") else "?" if b[0] in ("o", "o+") else "no")
            r |= {(len(els), x) for x in d}
        else:
            r.add(None)
    return r


def run(ctx, rep):
    rep.rule("the statements the returned value depends on are the same with log (verbose, warn) on and off; a call with log=True "
             "counts as the same call without log (the callee is held to the same rule), warnings and messages are not values")
    rep.rule("log=True: every return is a sequence ending in a dictionary; log=False: no return ends in the log; the number of other "
             "values is the same")
    rep.assume("callables given by the caller behave the same whether a log is kept; x[:, None] only changes the layout")
    p = ctx.p
    I = ctx.interp()
    pure = {}

    def harmless(mod):
        def f(call):
            r = p.resolve_expr(mod, call.func)
            if not r or r[0] != "func":
                return False
            g = r[1]
            if g.fid not in pure:
                fold, I.fold = I.fold, None
                sm = I.run_entry(g)
                I.fold = fold
                pure[g.fid] = not any(x[0] == "mut" for x in sm.facts)
            return pure[g.fid]
        return f

    def resolver(mod):
        def f(e):
            r = p.resolve_expr(mod, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
            return r[1] if r and r[0] == "func" else None
        return f

    nlog = nterms = 0
    for f in ctx.functions(private=True):
        name = ctx.api_name(f)
        for opt in f.params:
            if not (opt == "log" or opt.startswith(("verbose", "warn"))) or ctx.held(f, lambda h: (h.name, opt) in EXCEPTIONS) or not isinstance(f.defaults.get(opt), ast.Constant):
                continue
            res = {}
            shape = {}
            tab = terms.Table()
            for val in (TRUE, FALSE):
                I.fold = {}
                ov = {n: V(frozenset([v])) for n, v in FIXED.items() if n in f.params}
                ov[opt] = V(frozenset([val]), frozenset([opt]))
                sm = I.run_entry(f, override=ov)
                fold, I.fold = I.fold, None
                E = terms.Eval(tab, (QUIET | STORAGE) - {"warn"} | {opt}, resolver(f.module), fold, harmless(f.module), ctx.internal)
                env = {x: tab.mk("sym", x) for x in f.params}
                env.update({n: E.c(v == TRUE) for n, v in FIXED.items() if n in f.params})
                env[opt] = E.option(opt, val == TRUE)
                v, _ = E.function(f.node, env, fold)
                res[val] = terms.strip(E, v) if opt == "log" and val == TRUE else v, E.defs
                shape[val] = set().union(*[kinds(o[0], o[1]) for o in sm.outs]) if sm.outs else set()
            rep.cover("functions with the option " + opt, [name])
            bad = terms.differ(tab, res[TRUE][0], res[FALSE][0], res[TRUE][1], res[FALSE][1])
            nterms += len(tab.terms)
            if bad is not None:
                rep.violation("%s:%s" % (name, opt), "%s(): the result depends on %s: %s with %s, %s without" % (
                    name, opt, tab.show(bad[0])[:160], opt, tab.show(bad[1])[:160]), "%s:%s" % (f.module.path, tab.line[bad[0]] or tab.line[bad[1]] or f.node.lineno))
            if opt == "log" and not f.name.startswith("_") and name not in SHAPE_EXCEPTIONS:
                nlog += 1
                on, off = shape[TRUE], shape[FALSE]
                if None in on or any(x[1] == "no" for x in on if x):
                    rep.violation(name + ":nolog", "%s(log=True) can return without the log" % name, f.where())
                if any(x and x[1] == "dict" for x in off):
                    rep.violation(name + ":logalways", "%s(log=False) can return the log" % name, f.where())
                n = {x[0] for x in on if x}
                if any(x and x[0] + 1 not in n for x in off) and 2 not in n:
                    rep.violation(name + ":arity", "%s() returns %s values with log and %s without" % (
                        name, sorted(n), sorted(x[0] for x in off if x)), f.where())
    rep.count("terms built", nterms)
    rep.need(nlog >= 100, "only %d functions with a log option" % nlog)
    for k, why in EXCEPTIONS.items():
        rep.assume("%s, %s: %s" % (k[0], k[1], why))
    for k, why in SHAPE_EXCEPTIONS.items():
        rep.assume("%s: %s" % (k, why))

"""P04: a string that names no documented choice is refused.

Every public function is evaluated abstractly with one option bound to a string equal to no
literal of the program; a path that has compared the option with its choices must not return."""

from ..values import V, UNK, ANYSTR
from ..absint import State
from ..project import doc_params

# (public function, option): why a path that returns on an unknown string is not a violation
EXCEPTIONS = {
    ("ot.dist", "backend"): "a hint, not a choice: every value but 'scipy' means the backend of the arrays",
    ("ot.gromov.semirelaxed_gromov_barycenters", "G0"): "consulted only in the two complementary subsets of spaces "
    "(one is never empty), each refusing an unknown name; the path skipping both does not exist",
    ("ot.gromov.gromov_wasserstein_dictionary_learning", "projection"): "documented as a set of tags: a string naming neither "
    "'symmetric' nor 'nonnegative' leaves the atoms unconstrained",
    ("ot.gromov.fused_gromov_wasserstein_dictionary_learning", "projection"): "as for gromov_wasserstein_dictionary_learning",
    ("ot.gromov.semirelaxed_fgw_barycenters", "G0"): "as for semirelaxed_gromov_barycenters",
}


def string_options(ctx, I, f, types=None):
    types = doc_params(f.doc) if types is None else types
    r = []
    for n in f.params:
        if n in (f.vararg, f.kwarg) or n == "self":
            continue
        v = I.entry_value(f, n, State(), types)
        if any(a[0] == "s" for a in v.atoms):
            r.append(n)
    return r


def run(ctx, rep):
    rep.rule("with one string option of a public function bound to a string equal to no literal, no path that consulted the "
             "option (compared it with choices, or used it as a key) reaches a normal return")
    rep.assume("scipy.spatial.distance.cdist and scipy.optimize.minimize refuse unknown metric/method names")
    I = ctx.base()
    for f in ctx.functions():
        name = ctx.api_name(f)
        for n in string_options(ctx, I, f):
            sm = I.run_entry(f, override={n: V(frozenset([UNK]), frozenset([n]))})
            rep.cover("options", ["%s:%s" % (name, n)])
            if (name, n) in EXCEPTIONS:
                rep.assume("%s:%s not decided (%s)" % (name, n, EXCEPTIONS[(name, n)]))
                continue
            bad = [o for o in sm.outs if "+consulted" in o[2]]
            if bad:
                rep.violation("%s:%s" % (name, n), "%s() accepts an unknown %s and returns normally" % (name, n),
                              f.where())
    rep.count("call evaluations", I.ncalls)

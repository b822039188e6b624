"""P06: a solver that runs out of iterations says so, and warn=False silences it.

First every solver with a `warn` option is evaluated with warn=True and a tolerance no error can
meet: each normal return must lie behind a warnings.warn call. Then with warn=False: no
non-convergence warning may be reached."""

from ..values import V, NEVER, TRUE, FALSE

TOLS = ("stopThr", "tol", "stop_thr", "tol_rel", "tol_abs", "stopThr2", "stopInnerThr", "tol_outer", "tol_inner")
WORDS = ("converge", "convergence")

# functions whose warn option is documented to report the status of an inner exact solver instead
EXCEPTIONS = {
    "ot.gromov.partial_gromov_wasserstein": "warn: 'whether to raise a warning when EMD did not converge' (it raises an error)",
    "ot.gromov.partial_gromov_wasserstein2": "as partial_gromov_wasserstein",
    "ot.gromov.partial_fused_gromov_wasserstein": "as partial_gromov_wasserstein",
    "ot.gromov.partial_fused_gromov_wasserstein2": "as partial_gromov_wasserstein",
    "ot.optim.partial_cg": "as partial_gromov_wasserstein",
}


def warns(n):
    return n == "warn" or n.startswith("warn_")


def run(ctx, rep):
    rep.rule("with warn=True and a tolerance that no error meets, every normal return of a solver with a warn option lies behind "
             "a warnings.warn call")
    rep.rule("with warn=False no warning about convergence is reachable")
    tr, fa, nv = (lambda n, a=a: V(frozenset([a]), frozenset([n])) for a in (TRUE, FALSE, NEVER))
    I = ctx.interp()
    I.hooks["open_kw"] = lambda n, v: tr(n) if warns(n) else (nv(n) if n in TOLS else v)
    J = ctx.interp()
    J.hooks["open_kw"] = lambda n, v: fa(n) if warns(n) else v
    n = 0
    for f in ctx.functions():
        if "warn" not in f.params:
            continue
        name = ctx.api_name(f)
        tols = [p for p in f.params if p in TOLS]
        if tols and name not in EXCEPTIONS:
            n += 1
            rep.cover("solvers", [name])
            sm = I.run_entry(f, override={**{p: nv(p) for p in tols}, **{p: tr(p) for p in f.params if warns(p)}})
            rep.count("return paths", len(sm.outs))
            if not sm.outs:
                rep.need(False, "%s has no return path when its tolerance cannot be met" % name)
            if any("warned" not in o[2] for o in sm.outs):
                rep.violation(name + ":silent", "%s() can return without warning although its tolerance was never met" % name, f.where())
        rep.cover("functions with a warn option", [name])
        sm = J.run_entry(f, override={p: fa(p) for p in f.params if warns(p)})
        for x in sm.facts:
            if x[0] == "warn" and any(w in x[3].lower() for w in WORDS):
                g = ctx.p.funcs[x[1]]
                rep.violation(name + ":noisy", "%s(warn=False) can warn about convergence in %s" % (name, g.name),
                              "%s:%d" % (g.module.path, x[2]))
    rep.need(n >= 15, "only %d solvers with a warn option and a tolerance" % n)
    for k, why in EXCEPTIONS.items():
        rep.assume("%s not decided: %s" % (k, why))

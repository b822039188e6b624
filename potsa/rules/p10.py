"""P10: a call leaves nothing behind: no module, class, function or default-argument state is written."""

import ast

EXCEPTIONS = {
    "tic": "the timer: tic() stores the start time that toc() reads",
    "get_params": "BaseEstimator.get_params pushes and pops a warnings filter",
}
CACHES = ("functools.lru_cache", "functools.cache", "functools.cached_property", "joblib.Memory")


def run(ctx, rep):
    rep.rule("no public function or estimator method reaches a store into a module, class, function, mutable default argument, "
             "module-level container or global setting of another package")
    rep.rule("no function of the package is memoised (functools.lru_cache/cache)")
    I = ctx.base()
    for f, c in ctx.entries():
        name = ctx.entry_name(f, c)
        sm = I.run_entry(f, selfcls=c)
        rep.cover("entry points", [name])
        for x in sm.facts:
            if x[0] != "gstate":
                continue
            g = ctx.p.funcs[x[2]]
            if ctx.held(g, lambda h: h.name in EXCEPTIONS and h.module.name == "ot.utils"):
                continue
            rep.violation(name, "%s() changes state that outlives the call: %s in %s" % (name, x[1], g.name),
                          "%s:%d" % (g.module.path, x[3]))
    for f in ctx.p.funcs.values():
        for d in getattr(f.node, "decorator_list", ()):
            t = d.func if isinstance(d, ast.Call) else d
            r = ctx.p.resolve_expr(f.module, t)
            dotted = r[1] if r is not None and r[0] == "ext" else None
            rep.count("decorators", 1)
            if dotted in CACHES:
                rep.violation("cache:%s" % f.name, "%s keeps the results of earlier calls (%s)" % (f.name, dotted), f.where())
    rep.cover("functions reached", I.nfuncs)
    for k, why in EXCEPTIONS.items():
        rep.assume("ot.utils %s: %s" % (k, why))

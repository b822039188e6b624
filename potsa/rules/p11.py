"""P11: nothing is printed unless asked for.

Every public function and estimator method is evaluated with its verbosity switches off; no call
of print, sys.stdout.write... may be reached on any path."""

from ..values import V, FALSE, EMPTY

SWITCHES = ("verbose", "verbose2")


def quiet_value(name):
    return V(frozenset([FALSE]), frozenset([name]))


EXCEPTIONS = {
    "ot.utils.toc": "the timer of the command line idiom: printing the elapsed time is its documented purpose",
    "ot.utils.check_params": "documented to print the names of the missing parameters",
}


def run(ctx, rep):
    rep.rule("with verbose=False and verbose2=False (the defaults everywhere) no print()/stdout write is reachable from a public function or "
             "estimator method")
    I = ctx.interp()
    I.hooks["self_attr"] = lambda o, attr, v: V(frozenset([FALSE]), v.deps) if attr in SWITCHES else v
    I.hooks["open_kw"] = lambda n, v: V(frozenset([FALSE]), v.deps) if n in SWITCHES else v
    skip = {k.rsplit(".", 1)[1] for k in EXCEPTIONS}
    nsw = 0
    for f, c in ctx.entries():
        name = ctx.entry_name(f, c)
        ov = {n: quiet_value(n) for n in f.params if n in SWITCHES}
        nsw += len(ov)
        sm = I.run_entry(f, override=ov, selfcls=c)
        rep.cover("entry points", [name])
        for x in sm.facts:
            if x[0] == "print":
                g = ctx.p.funcs[x[1]]
                if ctx.held(g, lambda h: ctx.api_name(h) in EXCEPTIONS or h.name in skip):
                    continue
                rep.violation(name, "%s() prints with verbose off: in %s" % (name, g.name), "%s:%d" % (g.module.path, x[2]))
    rep.count("verbosity switches", nsw)
    rep.cover("functions reached", I.nfuncs)
    for k, why in EXCEPTIONS.items():
        rep.assume("%s may print: %s" % (k, why))

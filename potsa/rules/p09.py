"""P09: random numbers come from the seed the caller gave, and no global generator is reseeded.

Taint of the seed parameter into every generator that numbers are drawn from."""

from ..values import V, num

SEEDS = ("random_state", "seed", "seed_init")

# (entry point, drawing function): why its draws need not depend on the entry point's seed
EXCEPTIONS = {
    ("ot.solve_sample", "_init_lr_sinkhorn"): "random_state is documented for method='nystroem'; the low rank solver draws from "
    "its fixed default seed",
}


def is_reseed(dotted):
    return dotted.rsplit(".", 1)[1] in ("seed", "manual_seed", "set_state", "manual_seed_all")


def run(ctx, rep):
    rep.rule("no public function or estimator method reseeds the process-wide generator of numpy, random or torch")
    rep.rule("with an integer seed argument, every draw comes from a generator built from that argument: no draw from a "
             "process-wide generator, and none from a generator the seed does not flow into")
    rep.rule("a function without a seed argument draws nothing (same arguments, same result)")
    rep.assume("a backend's seed/rand/randn/randperm use the backend object's own generator")
    I = ctx.interp()
    I.hooks["open_kw"] = lambda n, v: num(v.deps) if n in SEEDS else v
    I.hooks["self_attr"] = lambda o, attr, v: num(v.deps) if attr in SEEDS else v
    nsite = set()
    for f, c in ctx.entries():
        name = ctx.entry_name(f, c)
        ov = {n: num(frozenset([n])) for n in f.params if n in SEEDS}
        sm = I.run_entry(f, override=ov, selfcls=c)
        seeds = set(ov)
        if f.kwarg:
            seeds.add(f.kwarg)
        rep.cover("entry points", [name])
        if ov:
            rep.cover("seeded entry points", [name])
        for x in sm.facts:
            if x[0] not in ("rng", "rngdraw"):
                continue
            g = ctx.p.funcs[x[2]]
            where = "%s:%d" % (g.module.path, x[3])
            nsite.add((x[2], x[3]))
            if x[0] == "rng" and is_reseed(x[1]):
                rep.violation("%s:reseed" % name, "%s() reseeds a process-wide generator: %s in %s" % (name, x[1], g.name), where)
            elif x[0] == "rng":
                if ov:
                    rep.violation("%s:global" % name, "%s() draws from a process-wide generator although a seed is given: %s in %s"
                                  % (name, x[1], g.name), where)
                else:
                    rep.violation("%s:unseedable" % name, "%s() has no seed argument and draws random numbers: %s in %s"
                                  % (name, x[1], g.name), where)
            else:
                deps = x[4]
                if c is not None:
                    ok = "#const" in deps or any(d == "self" or d.startswith("self.") or d in seeds for d in deps)
                else:
                    ok = bool(deps & (seeds or {"#const"})) or ctx.held(g, lambda h: (name, h.name) in EXCEPTIONS)
                if not ok and (ov or c is not None):
                    rep.violation("%s:unseeded" % name, "%s() draws from a generator its seed does not reach: %s in %s"
                                  % (name, x[1], g.name), where)
                elif not ok:
                    rep.violation("%s:unseedable" % name, "%s() has no seed argument and draws random numbers: %s in %s"
                                  % (name, x[1], g.name), where)
    rep.cover("drawing sites", ["%s:%d" % s for s in nsite])
    rep.need(len(rep.covered.get("seeded entry points", ())) >= 30, "fewer than 30 seeded entry points")
    rep.cover("functions reached", I.nfuncs)

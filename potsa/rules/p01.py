"""P01: arguments are never modified in place.

Alias and effect analysis: every value carries the parameters whose memory it may share
(views, from_numpy/to_numpy, reshape, slices, identity); a store through it is a write to them."""


def run(ctx, rep):
    rep.rule("no in-place write (item or augmented assignment, out=, mutating method, fill_diagonal...) reaches memory "
             "that a parameter of a public function or estimator method may share, through any chain of calls")
    rep.assume("arrays are views exactly where NumPy/PyTorch document them to be; integer indexing that yields a scalar "
               "is treated as a view (PyTorch semantics)")
    I = ctx.base()
    for f, c in ctx.entries():
        sm = I.run_entry(f, selfcls=c)
        name = ctx.entry_name(f, c)
        rep.cover("entry points", [name])
        for x in sm.facts:
            if x[0] == "mut" and x[1] in f.params and x[1] != "self" and x[1] not in (f.vararg, f.kwarg):
                g = ctx.p.funcs[x[2]]
                rep.violation("%s:%s" % (name, x[1]), "%s() writes into its argument %s: %s in %s" % (name, x[1], x[4], g.name),
                              "%s:%d" % (g.module.path, x[3]))
    rep.count("call evaluations", I.ncalls)
    rep.cover("functions reached", I.nfuncs)

"""P12: estimators keep their constructor parameters and can be fitted again."""

import ast

from ..values import opq

# (class, parameter or attribute) -> why
EXCEPTIONS = {}
# estimators without a coupling do not support these methods of the base class
NO_COUPLING = {"LinearTransport": ("transform_labels", "inverse_transform_labels"),
               "LinearGWTransport": ("transform_labels", "inverse_transform_labels"),
               "NearestBrenierPotential": ("transform_labels", "inverse_transform_labels", "inverse_transform")}


def run(ctx, rep):
    rep.rule("after the constructor every parameter is an attribute of its own name that holds the argument itself")
    rep.rule("fit returns the estimator on every path and stores no constructor parameter")
    rep.rule("fit reads only constructor parameters, class attributes and what it stored itself before; "
             "the other methods read only what the constructor or fit stores")
    I = ctx.base()
    n = na = 0
    for c in ctx.estimators() + [c for c in ctx.other_classes() if ctx.p.method(c, "fit") is not None]:
        fit, init = ctx.p.method(c, "fit"), ctx.p.method(c, "__init__")
        if fit is None or init is None:      # the abstract base has no parameters: its methods are judged in each subclass
            continue
        n += 1
        cname = c.module.name + "." + c.name
        params = [p for p in init.params[1:] if p not in (init.vararg, init.kwarg)]
        known, exact = set(), set()
        where = init.where()
        if True:
            # a helper that gets the object merges what it holds
            shared = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not init.node or isinstance(n, ast.Name) and n.id == "self" and id(n) not in attr
                         for attr in [{id(x.value) for x in ast.walk(init.node) if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load)}]
                         for n in ast.walk(init.node))
            sm = I.run_entry(init, override={p: opq(frozenset([p]), frozenset([p])) for p in params}, selfcls=c)
            rep.cover("constructors", [cname])
            exact = set(params)
            for v, heap, ev in sm.outs:
                o = heap.get(("self",))
                keys = {k for k, _ in o.items} - set(o.may) if o is not None else set()
                known |= {k for k, _ in o.items} if o is not None else set()
                for p in params:
                    na += 1
                    got = o.get(p) if o is not None else None
                    if (c.name, p) in EXCEPTIONS:
                        continue
                    if got is None or p not in keys:
                        rep.violation("%s:%s:%s" % (c.module.name, c.name, p), "%s does not keep its parameter %s under that name" % (c.name, p), where)
                    elif got.atoms != opq().atoms or (p not in got.alias if shared else got.alias != frozenset([p])):
                        rep.violation("%s:%s:%s" % (c.module.name, c.name, p), "%s does not keep its parameter %s as it is given" % (c.name, p), where)
        cattr, methods = set(), set()
        for k in ctx.p.mro(c):
            cattr |= set(k.attrs)
            methods |= set(k.methods)
        sm = I.run_entry(fit, selfcls=c)
        rep.cover("fit methods", [ctx.entry_name(fit, c)])
        if not sm.outs:
            rep.violation("%s:%s:fit" % (c.module.name, c.name), "%s.fit never returns" % c.name, fit.where())
        set_by_fit = {x[2] for x in sm.facts if x[0] == "setattr" and x[1] == c.cid}
        for v, heap, ev in sm.outs:
            if v.atoms != frozenset([("h", ("self",))]):
                rep.violation("%s:%s:fit" % (c.module.name, c.name), "%s.fit does not return the estimator on every path" % c.name, fit.where())
        for p in sorted(set_by_fit & set(params)):
            if (c.name, p) not in EXCEPTIONS:
                rep.violation("%s:%s:%s:fit" % (c.module.name, c.name, p), "%s.fit changes the constructor parameter %s" % (c.name, p),
                              "; ".join(sorted({"%s:%d" % (ctx.p.funcs[x[3]].module.path, x[4]) for x in sm.facts if x[0] == "setattr" and x[2] == p})))
        reads(ctx, rep, sm, c, fit, (known | methods | cattr) - (set_by_fit - set(params)), "fitted before")
        for k in ctx.p.mro(c):
            for name, m in k.methods.items():
                if name in NO_COUPLING.get(c.name, ()):
                    continue
                if name in ("__init__", "fit") or ctx.p.method(c, name) is not m or m.kind in ("staticmethod", "classmethod"):
                    continue
                s2 = I.run_entry(m, selfcls=c)
                rep.cover("methods", [ctx.entry_name(m, c)])
                reads(ctx, rep, s2, c, m, known | cattr | methods | set_by_fit, None)
    rep.count("estimator classes", n)
    rep.count("constructor parameters on the ways through the constructor", na)
    rep.need(n >= 10 and na >= 60, "only %d estimators" % n)
    for k, ms in NO_COUPLING.items():
        rep.assume("%s has no coupling and does not support %s of the base class" % (k, ", ".join(ms)))
    for k, why in EXCEPTIONS.items():
        rep.assume("%s: %s -- %s" % (k[0], k[1], why))


def reads(ctx, rep, sm, c, m, allowed, how):
    for x in sorted({x for x in sm.facts if x[0] == "attrunset" and x[4] == ("self",)}, key=str):
        attr = x[1]
        if attr in allowed or attr.startswith("__") or (c.name, attr) in EXCEPTIONS:
            continue
        g = ctx.p.funcs[x[2]]
        if how:
            msg = "%s.fit reads %s before it stores it: the result depends on an earlier fit" % (c.name, attr)
        else:
            msg = "%s.%s reads %s, which neither the constructor nor fit stores" % (c.name, m.name, attr)
        rep.violation("%s:%s:%s:%s" % (c.module.name, c.name, m.name, attr), msg, "%s:%d" % (g.module.path, x[3]))

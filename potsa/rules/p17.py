"""P17: no call dies of an error in the package's own wiring.

Names, parameters and results fit together on every path: path-sensitive definite assignment and
None tracking inside each function, agreement of calls with the signatures of their callees."""

import ast
import builtins

from .. import defassign

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__"}

# (function, message): why the path is outside the property
EXCEPTIONS = {
    ("quantized_fused_gromov_wasserstein_samples", "unpacks a sequence of 3 values into 4 names"):
        "features must be given for both spaces or for none (documented); giving one of F1, F2 is refused only by this error",
    ("quantized_fused_gromov_wasserstein", "attribute shape of None"): "as above",
    ("euclidean_distances", "attribute shape of None"): "as above (reached from the quantized solvers only)",
}


def constants(mod):
    out = {}
    for s in mod.tree.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            try:
                out[s.targets[0].id] = ast.literal_eval(s.value)
            except (ValueError, SyntaxError, TypeError):
                pass
    return out


def module_names(mod):
    """names bound anywhere at module level (also inside if/try at top level)"""
    loc = defassign.Locals()
    for s in mod.tree.body:
        loc.visit(s)
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Global):
            loc.bound.update(n.names)
    return loc.bound, any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(mod.tree))


def undefined(fnode, outer):
    """names a function reads that nothing binds"""
    a = fnode.args
    bound = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    body = fnode.body if isinstance(fnode.body, list) else [fnode.body]
    for n in body:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                bound.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                bound.add(x.name)
                if isinstance(x, ast.FunctionDef):
                    bound |= {p.arg for p in x.args.posonlyargs + x.args.args + x.args.kwonlyargs}
                    bound |= {p.arg for p in (x.args.vararg, x.args.kwarg) if p}
            elif isinstance(x, ast.Lambda):
                bound |= {p.arg for p in x.args.posonlyargs + x.args.args + x.args.kwonlyargs}
                bound |= {p.arg for p in (x.args.vararg, x.args.kwarg) if p}
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                bound |= {(al.asname or al.name).split(".")[0] for al in x.names}
            elif isinstance(x, ast.ExceptHandler) and x.name:
                bound.add(x.name)
    bound |= outer
    return [(x.id, x.lineno) for n in body for x in ast.walk(n)
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in bound and x.id not in BUILTINS]


def run(ctx, rep):
    rep.rule("no path reads a local variable that is not assigned on it (conditions on the path are compared, and the value "
             "must also be unassigned in the interprocedural evaluation)")
    rep.rule("no path uses an argument that was left at its default None as an array, number or object")
    rep.rule("every name a function reads is bound in an enclosing scope, the module or builtins")
    rep.rule("every call of a package function or class fits its signature, and the result is taken apart into as many parts as it has")
    rep.assume("loops run at least once; a string option has one of the names the function compares it with (P04 covers the others); "
               "initial errors exceed the tolerance")
    I = ctx.base()
    undef = {}
    for f, c in ctx.entries():
        name = ctx.entry_name(f, c)
        rep.cover("entry points", [name])
        sm = I.run_entry(f, selfcls=c)
        for x in sm.facts:
            if x[0] == "undef":
                undef.setdefault((x[1], x[2]), set()).add(name)
            elif x[0] in ("badcall", "crash"):
                g = ctx.p.funcs[x[2]]
                if ctx.held(g, lambda h: (h.name, x[1]) in EXCEPTIONS):
                    continue
                rep.violation("%s:%s:%s" % (g.module.name, g.name, x[1].replace(" ", "_")),
                              "%s in %s, called by %s()" % (x[1], g.name, name), "%s:%d" % (g.module.path, x[3]))
    rep.cover("functions evaluated", I.nfuncs)
    rep.count("calls evaluated", I.ncalls)
    reads = uses = nf = 0
    for m in ctx.p.mods.values():
        consts = constants(m)
        mnames, starred = module_names(m)

        def walk(node, outer, inclass):
            nonlocal reads, uses, nf
            for n in ast.iter_child_nodes(node):
                if isinstance(n, ast.FunctionDef):
                    one(n, outer)
                elif isinstance(n, ast.ClassDef):
                    walk(n, outer | {n.name}, True)
                else:
                    walk(n, outer, inclass)

        def one(fn, outer):
            nonlocal reads, uses, nf
            nf += 1
            g = ctx.p.node_fid.get(fn)
            where = "%s:%%d" % m.path
            if not starred:
                for v, line in undefined(fn, outer):
                    rep.violation("%s:%s:%s" % (m.name, fn.name, v), "%s reads %s, which is defined nowhere" % (fn.name, v), where % line)
            found, n = defassign.check(fn, consts)
            reads += n
            for (v, line), facts in sorted(found.items(), key=lambda kv: kv[0]):
                if g is not None and (v, g.fid) not in undef:
                    continue
                rep.violation("%s:%s:%s" % (m.name, fn.name, v), "%s reads %s unassigned when %s" % (fn.name, v, show(facts)), where % line)
            found, n = defassign.check_none(fn, consts)
            uses += n
            for (v, line), facts in sorted(found.items(), key=lambda kv: kv[0]):
                rep.violation("%s:%s:%s:none" % (m.name, fn.name, v), "%s uses its argument %s although it is None when %s"
                              % (fn.name, v, show(facts)), where % line)
            a = fn.args
            inner = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
            loc = defassign.Locals()
            for s in fn.body:
                loc.visit(s)
            for s in fn.body:
                walk(ast.Module([s], []), outer | inner | loc.bound, False)

        walk(m.tree, mnames, False)
    rep.count("functions checked for assignment", nf)
    rep.count("reads of local variables", reads)
    rep.count("uses of optional arguments", uses)
    rep.need(nf >= 400 and reads >= 5000, "only %d functions with %d reads" % (nf, reads))
    for k, why in EXCEPTIONS.items():
        rep.assume("%s: %s -- %s" % (k[0], k[1], why))


def show(facts):
    return " and ".join(q if t else "not (%s)" % q for q, t in sorted(facts) if not (q.endswith(" is None") and not t))[:300] or "reached"

"""P05: iteration budgets are honoured and every loop ends."""

import ast

from .. import loops
from ..loops import BUDGET

# function -> why its loops end although no counter shows it
EXCEPTIONS = {
    ("ot.lp.dmmot", "dmmot_monge_1dgrid_loss"): "every pass advances one of finitely many grid indices and stops when one leaves its grid",
    ("ot.lp._barycenter_solvers", "NorthWestMMGluing"): "every pass empties an entry of one of the finitely many plans and moves its index on",
    ("ot.lp.solver_circle", "binary_search_circle"): "the intervals are halved down to the precision eps / L, where every problem is marked done",
}
# (module:function, budget) -> why it may be exceeded
BUDGET_EXCEPTIONS = {
    ("ot.bregman._sinkhorn:sinkhorn_epsilon_scaling", "numItermax"): "at least 35 rounds, the number after which epsilon equals reg, are always made",
}


def functions(tree):
    """(function node, enclosing names)"""
    def walk(n, path):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield c, path + (c.name,)
                yield from walk(c, path + (c.name,))
            elif isinstance(c, ast.ClassDef):
                yield from walk(c, path + (c.name,))
            else:
                yield from walk(c, path)
    yield from walk(tree, ())


def own(fn):
    """(statement, statements before it in the function, in textual order) of fn without nested functions"""
    seen = []

    def walk(body):
        for s in body:
            yield s, list(seen)
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            if not any(getattr(s, f, None) for f in ("body", "orelse", "finalbody", "handlers")):
                seen.append(s)
                continue
            for f in ("body", "orelse", "finalbody"):
                yield from walk(getattr(s, f, None) or [])
            for h in getattr(s, "handlers", None) or []:
                yield from walk(h.body)
    yield from walk(fn.body)


ENDLESS = ("count", "cycle", "repeat")


def run(ctx, rep):
    rep.rule("every while loop has a counter that grows on every path back to its head and is compared there with a bound the loop leaves alone")
    rep.rule("a loop bounded by an iteration budget of its function runs at most that many times; a budget that is changed is not raised")
    rep.rule("a for loop does not extend what it iterates over; endless iterators are bounded like while loops; no function calls itself with its own arguments")
    nl = nw = nf = 0
    used = {}
    infos = {f.node: f for f in ctx.p.funcs.values()}
    for m in ctx.p.mods.values():
        for fn, path in functions(m.tree):
            nf += 1
            a = fn.args
            params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            info = infos.get(fn)
            names = ctx.names(info) if info is not None else params
            budgets = [x for x in params if BUDGET.search(x) and x in names]
            defs = loops.copies(fn)
            where = "%s:%%d" % m.path
            key = "%s:%s" % (m.name, fn.name)

            def exc(table, b=None, info=info, key=key):
                if info is None:
                    return False
                return ctx.held(info, lambda h: ((h.module.name, h.name) if b is None else ("%s:%s" % (h.module.name, h.name), b)) in table)
            outer = {}
            for s, before in own(fn):
                if isinstance(s, ast.For):
                    nl += 1
                    it = s.iter
                    if isinstance(it, ast.Call):
                        fname = it.func.id if isinstance(it.func, ast.Name) else getattr(it.func, "attr", "")
                        if fname == "iter" and len(it.args) == 2 or fname in ENDLESS and not (fname == "repeat" and len(it.args) > 1) and (
                                isinstance(it.func, ast.Name) or ast.unparse(it.func).startswith("itertools")):
                            while_like(rep, s, fn, before, defs, budgets, key, where, exc)
                        if fname == "range":
                            lo = loops.linear(it.args[0], defs) if len(it.args) > 1 else {None: 0}
                            hi = loops.linear(it.args[-1] if len(it.args) < 3 else it.args[1], defs)
                            step = loops.number(it.args[2]) if len(it.args) == 3 else 1
                            if lo is not None and hi is not None and step == 1:
                                d = dict(hi)
                                for n, v in lo.items():
                                    d[n] = d.get(n, 0) - v
                                over(rep, d, budgets, key, where % s.lineno, exc)
                            elif hi is None:
                                raised(rep, it.args[-1 if len(it.args) < 3 else 1], budgets, key, where % s.lineno, exc, defs)
                    it0 = it.args[0] if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "iter") and it.args else it
                    if isinstance(it0, ast.Name):
                        for n in ast.walk(ast.Module(s.body, [])):
                            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert") and isinstance(
                                    n.func.value, ast.Name) and n.func.value.id == it0.id:
                                rep.violation(key + ":" + it0.id, "%s extends %s while iterating over it" % (fn.name, it0.id), where % n.lineno)
                elif isinstance(s, ast.While):
                    nw += 1
                    while_like(rep, s, fn, before, defs, budgets, key, where, exc)
                elif isinstance(s, (ast.Assign, ast.AugAssign)):
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in ts:
                        if isinstance(t, ast.Name) and t.id in budgets:
                            v = s.value if isinstance(s, ast.Assign) else ast.BinOp(ast.Name(t.id, ast.Load()), s.op, s.value)
                            lin = loops.linear(v, {})
                            if lin is not None:
                                over(rep, lin, budgets, key, where % s.lineno, exc)
                            else:
                                raised(rep, v, budgets, key, where % s.lineno, exc, {})
            for b in budgets:
                used[(m.name, fn.name, b)] = True
                if fn.body and not applied(fn, b):
                    rep.violation(key + ":" + b + ":unused", "%s bounds no loop with its budget %s and passes it to no solver" % (fn.name, b), where % fn.lineno)
    recursion(ctx, rep)
    rep.count("functions examined", nf)
    rep.count("for loops", nl)
    rep.count("while loops", nw)
    rep.count("iteration budgets", len(used))
    rep.need(nw >= 15 and len(used) >= 60, "only %d while loops and %d budgets" % (nw, len(used)))
    for (m, f), why in EXCEPTIONS.items():
        rep.assume("%s.%s: %s" % (m, f, why))
    for k, why in BUDGET_EXCEPTIONS.items():
        rep.assume("%s: %s" % (k, why))


def applied(fn, b):
    """the budget (or a value computed from it) bounds a loop, is handed to a call or kept on the object"""
    names = {b}
    for _ in range(4):
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and names & {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}:
                names |= {x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) or isinstance(n, ast.For):
            e = n if isinstance(n, ast.Compare) else n.iter
        elif isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ("print", "str", "isinstance", "format")) and not (
                isinstance(n.func, ast.Attribute) and n.func.attr in ("format", "warn")):
            e = ast.Tuple([a for a in n.args] + [k.value for k in n.keywords], ast.Load())
        elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) for t in n.targets):
            e = n.value
        elif isinstance(n, ast.Dict):
            e = n
        else:
            continue
        if names & {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}:
            return True
    return False


def while_like(rep, s, fn, before, defs, budgets, key, where, exc):
    L = loops.Loop(s, fn, before, defs)
    bs = L.bounds()
    rep.cover("loops bounded by a counter", ["%s:%d" % (key, s.lineno)] if bs else [])
    if not bs:
        if not exc(EXCEPTIONS):
            rep.violation(key + ":while", "nothing bounds the loop 'while %s' of %s" % (ast.unparse(L.test), fn.name), where % s.lineno)
        return
    for c, gs in bs:
        c0 = L.initial(c) if c else None
        worst = []
        for o, strict, bound in gs:
            lin = loops.linear(bound, defs)
            if lin is None:
                raised(rep, bound, budgets, key, where % s.lineno, exc, defs)
                continue
            lin = dict(lin)
            if strict == 2 and lin.get(None, 0) < (c0 or 0) + o and not exc(EXCEPTIONS) and not positive(fn, s, bound):
                rep.violation(key + ":while:eq", "the loop 'while %s' of %s ends only when %s equals %s, which a budget of 0 never does" % (
                    ast.unparse(L.test), fn.name, c, ast.unparse(bound)), where % s.lineno)
            # head test: runs = bound - c0;  test after o steps: runs = bound - c0 - o + 1
            lin[None] = lin.get(None, 0) + (0 if strict else 1) - (c0 or 0) - o + (1 if o else 0)
            worst.append(lin)
        if len(bs) == 1 or any(b in l for l in worst for b in budgets):
            for lin in worst:
                over(rep, lin, budgets, key, where % s.lineno, exc)


def positive(fn, s, bound):
    """a branch before the loop looks at the sign of the bound"""
    names = {n.id for n in ast.walk(bound) if isinstance(n, ast.Name)}
    for b in ast.walk(fn):
        if isinstance(b, (ast.If, ast.IfExp)) and b.lineno < s.lineno:
            for n in ast.walk(b.test):
                if isinstance(n, ast.Compare) and names & {m.id for m in ast.walk(n) if isinstance(m, ast.Name)} and any(
                        loops.number(x) in (0, 1) for x in [n.left] + n.comparators):
                    return True
                if isinstance(n, ast.Name) and n is b.test and n.id in names:
                    return True
    return False


def over(rep, lin, budgets, key, where, exc):
    for b in budgets:
        x = loops.excess(lin, b)
        if x is False:
            continue
        if x is None or x > 0:
            if not exc(BUDGET_EXCEPTIONS, b):
                rep.violation(key + ":" + b, "%s may run %s iterations more than %s" % (key.split(":")[1], "any number of" if x is None else x, b), where)


def raised(rep, e, budgets, key, where, exc, defs):
    """max(...) of a budget or a product with it exceeds it"""
    names = {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
    for b in budgets:
        if b in names and isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "max":
            if not exc(BUDGET_EXCEPTIONS, b):
                rep.violation(key + ":" + b, "%s raises its iteration budget %s" % (key.split(":")[1], b), where)


def recursion(ctx, rep):
    """a function that calls itself with every argument handed on unchanged never ends"""
    n = 0
    for m in ctx.p.mods.values():
        for fn, path in functions(m.tree):
            a = fn.args
            params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            meth = params[:1] == ["self"]
            for x in ast.walk(fn):
                if not isinstance(x, ast.Call):
                    continue
                n += 1
                if not meth and not (isinstance(x.func, ast.Name) and x.func.id == fn.name and len(path) == 1):
                    continue
                if meth and not (isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)
                                 and x.func.value.id == "self" and x.func.attr == fn.name and len(path) == 2):
                    continue
                rep.cover("recursive calls", ["%s:%s" % (m.name, fn.name)])
                got = dict(zip(params[1:] if meth else params, x.args))
                got.update({k.arg: k.value for k in x.keywords if k.arg})
                rest = params[1:] if meth else params
                stored = loops.stores(fn)
                if all(isinstance(got.get(p), ast.Name) and got[p].id == p and p not in stored for p in rest):
                    rep.violation("%s:%s:recursion" % (m.name, fn.name), "%s calls itself with its own arguments" % fn.name, "%s:%d" % (m.path, x.lineno))
    rep.count("calls examined for recursion", n)

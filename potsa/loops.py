"""Termination of loops and iteration budgets, from the control flow of the loop bodies.

A while loop is bounded when some counter grows by a positive constant on every path back to the
loop head and a comparison of that counter with a value the loop does not change is passed on it."""

import ast
import re

BUDGET = re.compile(r"(?i)(max_?iter|itmax|num_?iter|^n_?iters?$|^niter|^iterations$|^its$|iter_?max|^epochs$)")
MAXPATHS = 4000


def stores(node):
    """names (and roots of attribute/item stores) a statement may rebind"""
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
            b = n
            while isinstance(b, (ast.Attribute, ast.Subscript)):
                b = b.value
            if isinstance(b, ast.Name):
                out.add(b.id)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in (
                "append", "extend", "pop", "insert", "remove", "clear", "update", "add"):
            out.add(n.func.value.id)
    return out


def increment(s):
    """(name, constant) of c += k, c = c + k, c = k + c"""
    if isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.Add, ast.Sub)) and isinstance(s.target, ast.Name):
        k = number(s.value)
        if k is not None:
            return s.target.id, k if isinstance(s.op, ast.Add) else -k
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp):
        c, v = s.targets[0].id, s.value
        if isinstance(v.op, (ast.Add, ast.Sub)) and isinstance(v.left, ast.Name) and v.left.id == c and number(v.right) is not None:
            return c, number(v.right) if isinstance(v.op, ast.Add) else -number(v.right)
        if isinstance(v.op, ast.Add) and isinstance(v.right, ast.Name) and v.right.id == c and number(v.left) is not None:
            return c, number(v.left)
    return None


def number(e):
    try:
        v = ast.literal_eval(e)
    except Exception:
        return None
    return v if isinstance(v, (int, float)) and not isinstance(v, bool) else None


def linear(e, defs=None, depth=0):
    """{name: coefficient, None: constant} or None"""
    k = number(e)
    if k is not None:
        return {None: k}
    if isinstance(e, ast.Name):
        if defs and e.id in defs and depth < 6:
            return linear(defs[e.id], defs, depth + 1) or {e.id: 1}
        return {e.id: 1}
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "int" and len(e.args) == 1:
        return linear(e.args[0], defs, depth)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        r = linear(e.operand, defs, depth)
        return {n: -v for n, v in r.items()} if r else None
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        l, r = linear(e.left, defs, depth), linear(e.right, defs, depth)
        if l is None or r is None:
            return None
        s = 1 if isinstance(e.op, ast.Add) else -1
        out = dict(l)
        for n, v in r.items():
            out[n] = out.get(n, 0) + s * v
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        for a, b in ((e.left, e.right), (e.right, e.left)):
            if number(a) is not None:
                r = linear(b, defs, depth)
                return {n: v * number(a) for n, v in r.items()} if r else None
    if isinstance(e, (ast.Attribute, ast.Subscript)):
        return {ast.unparse(e): 1}
    return None


def excess(lin, budget):
    """by how much lin exceeds the budget at most; None: it may exceed it by any amount; False: not comparable"""
    c = lin.get(budget, 0)
    if c == 0:
        return False
    if any(v for n, v in lin.items() if n not in (budget, None)):
        return False
    if c > 1:
        return None
    return lin.get(None, 0) if c == 1 else False


class Loop:
    """one while loop (or for loop over an endless iterator) of function fn"""

    def __init__(self, node, fn, before, defs):
        self.node, self.fn, self.before, self.defs = node, fn, before, defs
        self.body = node.body
        self.test = node.test if isinstance(node, ast.While) else ast.Constant(True)
        self.stored = set()
        for s in self.body:
            self.stored |= stores(s)
        self.auto = node.target.id if isinstance(node, ast.For) and isinstance(node.target, ast.Name) else None  # itertools.count

    # guards: (strict, bound) such that passing means counter < bound (<= if not strict)
    def guards(self, e, truth, c):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.guards(e.operand, not truth, c)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
            return self.guards(e.args[0], truth, c)
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And) == truth:
                return [g for v in e.values for g in self.guards(v, truth, c)]
            # every alternative must bound it
            gs = [self.guards(v, truth, c) for v in e.values]
            return gs[0] if all(gs) and len({repr([ast.dump(b) for _, b in g]) for g in gs}) == 1 else []
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            if not truth:
                return []
            xs = [e.left] + e.comparators
            return [g for l, o, r in zip(xs, e.ops, xs[1:]) for g in self.guards(ast.Compare(l, [o], [r]), True, c)]
        if not isinstance(e, ast.Compare):
            return []
        op, l, r = e.ops[0], e.left, e.comparators[0]
        op = type(op)
        if not truth:
            op = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}.get(op)
        if op in (ast.Gt, ast.GtE):
            op, l, r = {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op], r, l
        elif op is ast.NotEq and c in {n.id for n in ast.walk(r) if isinstance(n, ast.Name)}:
            l, r = r, l
        if op not in (ast.Lt, ast.LtE, ast.NotEq):
            return []
        ll = linear(l)
        if ll is None or ll.get(c) != 1 or any(v for n, v in ll.items() if n not in (c, None)):
            return []
        names = {n.id for n in ast.walk(r) if isinstance(n, ast.Name)}
        if names & self.stored:
            return []
        k = ll.get(None, 0)
        bound = r if not k else ast.BinOp(r, ast.Sub(), ast.Constant(k))
        return [(2 if op is ast.NotEq else op is ast.Lt, bound)]  # 2: only equality ends it

    def candidates(self):
        inc, bad = {}, set()
        for s in self.body:
            for n in ast.walk(s):
                if isinstance(n, ast.stmt):
                    i = increment(n)
                    if i and i[1] > 0:
                        inc.setdefault(i[0], []).append(i[1])
        for c in inc:
            n = sum(1 for s in self.body for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == c and isinstance(x.ctx, ast.Store))
            jumps = sum(1 for s in self.body for x in ast.walk(s) if self.jump(x, c))
            if n != len(inc[c]) + jumps:
                bad.add(c)
        auto = [self.auto] if self.auto and self.auto not in self.stored else []
        return auto + [c for c in inc if c not in bad]

    def jump(self, s, c):
        """c = bound: the counter is set to the bound of the loop test"""
        return (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == c
                and any(ast.dump(s.value) == ast.dump(b) for _, b in self.guards(self.test, True, c)))

    def bounds(self):
        """[(counter, guards met on every way back to the head)] or [] when none bounds the loop"""
        out = []
        for c in self.candidates():
            ends = self.paths(c)
            if ends is None:
                continue
            if not ends:
                return [(c, [])]  # no way back: the body runs once
            # a test for equality may be jumped over unless every step is one
            gs1 = [[g for g in gs if g[1] != 2 or self.exact(c, ends)] for i, gs in ends]
            if all(i > 0 and gs for (i, _), gs in zip(ends, gs1)):
                ends = [(i, gs) for (i, _), gs in zip(ends, gs1)]
                out.append((c, [g for _, gs in ends for g in gs]))
        if not self.candidates():
            ends = self.paths(None)
            if ends is not None and not ends:
                return [(None, [])]
        return out

    def exact(self, c, ends):
        return all(i == 1 for i, _ in ends) and (c == self.auto or isinstance(self.initial(c), int))

    def paths(self, c):
        """for each way from the head back to the head: (increments, guards as (offset, strict, bound)); None if too many"""
        head = [(0, tuple((0,) + g for g in self.guards(self.test, True, c)), ())] if c else [(0, (), ())]
        self.ends, self.over = set(), False
        if c and c == self.auto:
            head = [(1, (), ())]
        rest = self.seq(self.body, set(head), c)
        self.ends |= rest
        if self.over:
            return None
        out = []
        for i, gs, flags in self.ends:
            if self.falsified(self.test, dict(flags)):
                continue
            out.append((i, gs))
        return out

    def falsified(self, e, flags):
        return self.truth(e, flags) is False

    def truth(self, e, flags):
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.Name):
            return flags.get(e.id)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r = self.truth(e.operand, flags)
            return None if r is None else not r
        if isinstance(e, ast.BoolOp):
            rs = [self.truth(v, flags) for v in e.values]
            if isinstance(e.op, ast.And):
                return False if False in rs else (True if all(r is True for r in rs) else None)
            return True if True in rs else (False if all(r is False for r in rs) else None)
        return None

    def seq(self, body, states, c):
        for s in body:
            if not states:
                break
            states = self.stmt(s, states, c)
            if len(states) > MAXPATHS:
                self.over = True
                return set()
        return states

    def stmt(self, s, states, c):
        if isinstance(s, (ast.Return, ast.Raise, ast.Break)):
            return set()
        if isinstance(s, ast.Continue):
            self.ends |= states
            return set()
        if isinstance(s, ast.If):
            out = set()
            for body, truth in ((s.body, True), (s.orelse, False)):
                st = set()
                for i, gs, fl in states:
                    if self.truth(s.test, dict(fl)) is (not truth):
                        continue
                    new = tuple((i,) + g for g in self.guards(s.test, truth, c)) if c else ()
                    st.add((i, gs + tuple(g for g in new if g not in gs), fl))
                out |= self.seq(body, st, c)
            return out
        if isinstance(s, ast.With):
            return self.seq(s.body, states, c)
        if isinstance(s, ast.Try):
            out = self.seq(s.body, states, c)
            mid = {(i, gs, ()) for i, gs, fl in states}
            for h in s.handlers:
                out |= self.seq(h.body, mid, c)
            return self.seq(s.finalbody, self.seq(s.orelse, out, c) if s.orelse else out, c)
        if isinstance(s, (ast.For, ast.While)):
            st = stores(s)
            if c in st:
                # the inner loop may run zero times
                return {(i, gs, tuple(f for f in fl if f[0] not in st)) for i, gs, fl in states}
            return {(i, gs, tuple(f for f in fl if f[0] not in st)) for i, gs, fl in states}
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return states
        if c and self.jump(s, c):
            return {(i + 1, gs, fl) for i, gs, fl in states}
        k = increment(s)
        if k and k[0] == c:
            return {(i + k[1], gs, fl) for i, gs, fl in states}
        st = stores(s)
        flag = None
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant):
            flag = (s.targets[0].id, bool(s.value.value))
        if st:
            states = {(i, gs, tuple(sorted([f for f in fl if f[0] not in st] + ([flag] if flag else [])))) for i, gs, fl in states}
        # a condition kept in a variable:  go = it < n
        if c and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            v = s.targets[0].id
            out = set()
            gt, gf = self.guards(s.value, True, c), self.guards(s.value, False, c)
            if gt or gf:
                for i, gs, fl in states:
                    base = [f for f in fl if f[0] != v]
                    out.add((i, gs + tuple((i,) + g for g in gt), tuple(sorted(base + [(v, True)]))))
                    out.add((i, gs + tuple((i,) + g for g in gf), tuple(sorted(base + [(v, False)]))))
                return out
        return states

    def initial(self, c):
        """constant the counter holds when the loop is entered, if evident"""
        for s in reversed(self.before):
            if c in stores(s):
                if isinstance(s, ast.Assign) and len(s.targets) == 1:
                    t, v = s.targets[0], s.value
                    if isinstance(t, ast.Name):
                        return number(v)
                    if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts):
                        for a, b in zip(t.elts, v.elts):
                            if isinstance(a, ast.Name) and a.id == c:
                                return number(b)
                return None
        return None


def copies(fn):
    """{name: expression} of the names of a function that are assigned exactly once, from an expression"""
    cnt, val = {}, {}
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            cnt[n.id] = cnt.get(n.id, 0) + 1
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            val[n.targets[0].id] = n.value
    return {n: v for n, v in val.items() if cnt.get(n) == 1 and n not in params and linear(v) and None is not linear(v)}

"""Definite assignment of local variables, path sensitive in the branch conditions.

A state is (names assigned, known truth of conditions).  Conditions are compared as normalised
expressions; what is known about a condition is forgotten when one of its names is stored.  Loops
run at least once (assumption stated by the rule)."""

import ast
import functools
import operator

MAXSTATES = 400
PURE_CALLS = ("isinstance", "len", "callable", "hasattr", "any", "all", "bool", "str", "type", "abs", "min", "max")


def key(e):
    return ast.unparse(e)


def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


@functools.lru_cache(None)
def names_of(src):
    return frozenset(names(ast.parse(src, mode="eval")))


def literal(e):
    try:
        return ("lit", repr(ast.literal_eval(e)))
    except Exception:
        return None


@functools.lru_cache(None)
def parsed(src):
    return ast.parse(src, mode="eval").body


OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Mod: operator.mod, ast.FloorDiv: operator.floordiv,
       ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}


def evaluate(e, env):
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        return [evaluate(x, env) for x in e.elts]
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("lower", "upper", "strip") and not e.args:
        return getattr(evaluate(e.func.value, env), e.func.attr)()
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("startswith", "endswith") and len(e.args) == 1:
        return getattr(evaluate(e.func.value, env), e.func.attr)(evaluate(e.args[0], env))
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
        l, r = evaluate(e.left, env), evaluate(e.comparators[0], env)
        if isinstance(e.ops[0], (ast.Is, ast.IsNot)):
            if r is not None:
                raise ValueError
            return (l is None) == isinstance(e.ops[0], ast.Is)
        return (l in r) == isinstance(e.ops[0], ast.In)
    if isinstance(e, ast.Name):
        return env[e.id]
    if isinstance(e, ast.BinOp):
        return OPS[type(e.op)](evaluate(e.left, env), evaluate(e.right, env))
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        return OPS[type(e.ops[0])](evaluate(e.left, env), evaluate(e.comparators[0], env))
    raise ValueError


def split_choice(q):
    """(subject, literals) of a comparison with strings, else None"""
    for sep in (" == ", " in "):
        l, s, r = q.partition(sep)
        if s and r[:1] in "'\"[(":
            try:
                v = ast.literal_eval(r)
            except Exception:
                return None
            vs = [v] if isinstance(v, str) else list(v)
            if vs and all(x is None or isinstance(x, str) for x in vs) and not l.startswith("nx"):
                return l, frozenset(x for x in vs if x)
    return None


def is_inf(v):
    return (isinstance(v, ast.Attribute) and v.attr == "inf") or (
        isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "float" and len(v.args) == 1
        and isinstance(v.args[0], ast.Constant) and v.args[0].value == "inf")


@functools.lru_cache(None)
def rename(src, old, new):
    """src with the expression old replaced by the name new, if no other use of that name is left"""
    class R(ast.NodeTransformer):
        def visit(self, n):
            if isinstance(n, ast.expr) and ast.unparse(n) == old:
                return ast.Name("\0", ast.Load())
            return super().generic_visit(n)
    e = R().visit(ast.parse(src, mode="eval").body)
    if new in names(e) or "\0" not in names(e):
        return None
    return ast.unparse(e).replace("\0", new)


class Locals(ast.NodeVisitor):
    """names a function body binds in its own scope"""

    def __init__(self):
        self.bound, self.outer = set(), set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.bound.add(n.id)

    def visit_FunctionDef(self, n):
        self.bound.add(n.name)
        for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.bound.add(n.name)

    def visit_Lambda(self, n):
        pass

    def comp(self, n):
        self.visit(n.generators[0].iter)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_Import(self, n):
        for a in n.names:
            self.bound.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_Global(self, n):
        self.outer.update(n.names)

    visit_Nonlocal = visit_Global

    def visit_ExceptHandler(self, n):
        if n.name:
            self.bound.add(n.name)
        self.generic_visit(n)


class Analysis:
    def __init__(self, node, only=None, facts=True, consts=None, null=None):
        self.consts = consts or {}
        self.null = null
        self.derefs = {}
        self.choices = None
        self.node = node
        self.noreturn = ()
        self.track = facts
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        loc = Locals()
        for s in node.body:
            loc.visit(s)
        self.locals = loc.bound - loc.outer - set(self.params)
        self.bound = set(self.params) | loc.bound
        self.relevant = None
        if only is not None:
            self.locals &= only
            self.relevant = self.related(only)
        self.found = {}
        self.nuses = 0
        self.loops = []
        self.capped = False

    def run(self):
        st = {(frozenset(), frozenset())}
        if self.null:
            k = self.null + " is None"
            st = {(frozenset(), frozenset([(k, True)])), (frozenset(), frozenset([(k, False)]))}
        self.block(self.node.body, st)
        return self.found

    def related(self, vs):
        """names in the tests of the branches that assign or read vs or leave the block"""
        r = set()
        for n in ast.walk(self.node):
            if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)):
                sub = ast.walk(n)
                if any((isinstance(x, ast.Name) and x.id in vs) or isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue, ast.Assert))
                       for x in sub):
                    r |= names(n.test)
        for _ in range(3):  # names assigned from conditions
            for n in ast.walk(self.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in r and self.boolean(n.value):
                    r |= names(n.value)
        return r

    def unknown_choice(self, facts):
        """a string is none of the (two or more) names the function compares it with"""
        if self.choices is None:
            self.choices = {}
            for n in ast.walk(self.node):
                if isinstance(n, ast.Compare) and len(n.ops) == 1:
                    c = split_choice(self.norm(n)[0])
                    if c:
                        self.choices.setdefault(c[0], set()).update(c[1])
        no, yes = {}, set()
        for q, t in facts:
            c = split_choice(q)
            if c and t:
                yes.add(c[0])
            elif c:
                no.setdefault(c[0], set()).update(c[1])
        return any(l not in yes and len(v) > 1 and v >= self.choices.get(l, v) for l, v in no.items())

    # conditions -------------------------------------------------------------------------------
    def known(self, facts, e):
        """True / False / None: what facts say about e"""
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r = self.known(facts, e.operand)
            return None if r is None else not r
        if isinstance(e, ast.BoolOp):
            rs = [self.known(facts, v) for v in e.values]
            if isinstance(e.op, ast.And):
                return False if False in rs else (True if all(r is True for r in rs) else None)
            return True if True in rs else (False if all(r is False for r in rs) else None)
        k, pos = self.norm(e)
        d = dict(facts)
        if k in d:
            return d[k] if pos else not d[k]
        env = self.env(facts)
        if isinstance(e, (ast.Compare, ast.BinOp, ast.Name, ast.Call)) and env:
            r = self.value(e, env)
            if r is not None:
                return r
        # an error that still has its initial constant exceeds every tolerance
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Gt, ast.GtE, ast.Lt, ast.LtE)):
            l, r = e.left, e.comparators[0]
            gt = isinstance(e.ops[0], (ast.Gt, ast.GtE))
            for x, y, w in ((l, r, gt), (r, l, not gt)):
                if isinstance(x, ast.Name) and x.id in env and isinstance(env[x.id], (int, float)) and env[x.id] > 0:
                    if env[x.id] == float("inf") or (isinstance(y, ast.Name) and ("tol" in y.id.lower() or "stop" in y.id.lower())):
                        return w
        # x == 'a' known true decides x == 'b' and x in (...)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.Is, ast.IsNot)):
            left = key(e.left)
            eqs = [q for (q, t) in facts if t and q.startswith(left + " == ")]
            if eqs:
                try:
                    val = ast.literal_eval(eqs[0][len(left) + 4:])
                    other = ast.literal_eval(e.comparators[0])
                except Exception:
                    return None
                if isinstance(e.ops[0], (ast.In, ast.NotIn)):
                    r = val in other
                elif isinstance(e.ops[0], (ast.Is, ast.IsNot)):
                    if other is not None:
                        return None
                    r = val is None
                else:
                    r = val == other
                return r if isinstance(e.ops[0], (ast.Eq, ast.In, ast.Is)) else not r
            if isinstance(e.ops[0], (ast.In, ast.NotIn)):
                try:
                    opts = list(ast.literal_eval(e.comparators[0]))
                except Exception:
                    return None
                ks = [d.get("%s == %r" % (left, o)) for o in opts]
                if opts and all(x is False for x in ks):
                    return isinstance(e.ops[0], ast.NotIn)
            if isinstance(e.ops[0], (ast.Eq, ast.NotEq)) and literal(e.comparators[0]):
                for (q, t) in facts:  # known not in a collection that holds the value, or None
                    if not t and q.startswith(left + " in "):
                        try:
                            if ast.literal_eval(e.comparators[0]) in ast.literal_eval(q[len(left) + 4:]):
                                return isinstance(e.ops[0], ast.NotEq)
                        except Exception:
                            pass
                    if t and q == left + " is None":
                        return isinstance(e.ops[0], ast.NotEq)
        return None

    def env(self, facts):
        env = {}
        for (q, t) in facts:
            if t and " == " in q:
                l, _, r = q.partition(" == ")
                if l.isidentifier():
                    try:
                        env[l] = float("inf") if r == "inf" else ast.literal_eval(r)
                    except Exception:
                        pass
        return env

    def value(self, e, env):
        ns = names(e)
        if ns and ns & set(env) and all(n in env or (n in self.consts and n not in self.bound) for n in ns):
            try:
                return bool(evaluate(e, {**{n: self.consts[n] for n in ns if n not in env}, **env}))
            except Exception:
                pass
        return None

    def norm(self, e):
        """(canonical key, polarity)"""
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op, l, r = e.ops[0], e.left, e.comparators[0]
            flip = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.LtE: ast.Gt, ast.GtE: ast.Lt}
            pos = True
            if isinstance(r, ast.Name) and r.id in self.consts and r.id not in self.bound:
                r = ast.parse(repr(self.consts[r.id]), mode="eval").body
            if type(op) in flip:
                op, pos = flip[type(op)](), False
            if isinstance(op, ast.Gt):
                op, l, r = ast.Lt(), r, l
            if isinstance(op, ast.Eq) and isinstance(l, ast.Constant) and not isinstance(r, ast.Constant):
                l, r = r, l
            return key(ast.Compare(left=l, ops=[op], comparators=[r])), pos
        return key(e), True

    def assume(self, states, e, truth):
        out = set()
        for (asg, facts) in states:
            out |= self.assume1(asg, facts, e, truth)
        return self.cap(out)

    def assume1(self, asg, facts, e, truth):
        k = self.known(facts, e)
        if k is not None and k != truth:
            return set()
        if isinstance(e, ast.Constant):
            return {(asg, facts)}
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.assume1(asg, facts, e.operand, not truth)
        if isinstance(e, ast.BoolOp):
            conj = isinstance(e.op, ast.And) == truth
            cur = {(asg, facts)}
            if conj:
                for v in e.values:
                    cur = {s for c in cur for s in self.assume1(c[0], c[1], v, truth)}
                return cur
            out = set()
            for v in e.values:  # first one that decides
                for c in cur:
                    out |= self.assume1(c[0], c[1], v, truth)
                cur = {s for c in cur for s in self.assume1(c[0], c[1], v, not truth)}
            return out
        if isinstance(e, ast.NamedExpr):
            return self.assume1(asg | {e.target.id}, facts, e.target, truth)
        if not self.track or (self.relevant is not None and not (names(e) & self.relevant)):
            return {(asg, facts)}
        kk, pos = self.norm(e)
        if self.null and truth and isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            args = [x for x in e.args[:1] if e.func.id == "isinstance"]
            if e.func.id == "check_params":
                args = [k.value for k in e.keywords]
            if any(isinstance(x, ast.Name) and x.id == self.null for x in args):
                k = self.null + " is None"
                if (k, True) in facts:
                    return set()
                facts = facts | {(k, False)}
        new = facts | {(kk, truth == pos)}
        if isinstance(e, ast.Name) and truth and ((e.id + " is None", True) in facts or (e.id + " is False", True) in facts):
            return set()
        if kk.endswith((" is None", " is False")) and truth == pos and (kk.rsplit(" is ", 1)[0], True) in facts:
            return set()
        c = split_choice(kk)
        if c:
            no = set()
            for q, t in new:
                d = split_choice(q)
                if d and d[0] == c[0] and not t:
                    no |= d[1]
            for q, t in new:
                d = split_choice(q)
                if d and t and d[0] == c[0] and d[1] <= no and "None" not in q:
                    return set()
        if " == " in kk and truth == pos:  # what was learnt before must agree with the value
            env = self.env(new)
            for q, t in facts:
                r = self.value(parsed(q), env)
                if r is not None and r != t:
                    return set()
        return {(asg, new)}

    def kill(self, facts, ns):
        if not ns or not facts:
            return facts
        return frozenset(f for f in facts if not (names_of(f[0]) & ns))

    def cap(self, states):
        if len(states) > MAXSTATES:  # forget the conditions that are known everywhere with both values least often
            self.capped = True
            per = {}
            for (asg, facts) in states:
                per[asg] = facts if asg not in per else per[asg] & facts
            states = {(a, f) for a, f in per.items()}
        return states

    # expressions ------------------------------------------------------------------------------
    def uses(self, e, states):
        """reports reads of unassigned locals; returns the states (walrus targets assigned)"""
        if e is None or not states:
            return states
        if isinstance(e, ast.IfExp):
            states = self.uses(e.test, states)
            a = self.uses(e.body, self.assume(states, e.test, True))
            b = self.uses(e.orelse, self.assume(states, e.test, False))
            return self.cap(a | b)
        if isinstance(e, ast.BoolOp):
            done = set()
            cur = states
            for v in e.values:
                cur = self.uses(v, cur)
                conj = isinstance(e.op, ast.And)
                done |= self.assume(cur, v, not conj)
                cur = self.assume(cur, v, conj)
            return self.cap(done | cur)
        if isinstance(e, ast.Lambda):
            return states
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            bound = set()
            for g in e.generators:
                bound |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            inner = {(a | bound, self.kill(f, frozenset(bound))) for a, f in states}
            for n, g in enumerate(e.generators):
                if n == 0:
                    self.uses(g.iter, states)
                else:
                    self.uses(g.iter, inner)
                for c in g.ifs:
                    self.uses(c, inner)
                    inner = self.assume(inner, c, True)
            for part in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.uses(part, inner)
            return states
        if isinstance(e, ast.NamedExpr):
            states = self.uses(e.value, states)
            return self.store(states, {e.target.id})
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals:
                self.nuses += 1
                bad = [s for s in states if e.id not in s[0] and not (self.track and self.unknown_choice(s[1]))]
                if bad:
                    self.found.setdefault((e.id, e.lineno), min(bad, key=lambda s: len(s[1]))[1])
                    return {(a | {e.id}, f) for a, f in states}
            return states
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and self.track and (self.relevant is None or e.value.id in self.relevant):
            states = self.uses(e.value, states)
            if e.value.id == self.null:
                self.deref(e, states)
            return self.assume(states, ast.Compare(left=e.value, ops=[ast.Is()], comparators=[ast.Constant(None)]), False)
        if self.null:
            if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id == self.null:
                self.deref(e, states)
            if isinstance(e, (ast.BinOp, ast.UnaryOp)):
                for x in ((e.left, e.right) if isinstance(e, ast.BinOp) else (e.operand,)):
                    if isinstance(x, ast.Name) and x.id == self.null and not isinstance(getattr(e, "op", None), ast.Not):
                        self.deref(e, states)
            for x in self.fails_on_none(e):
                if isinstance(x, ast.Name) and x.id == self.null:
                    self.deref(e, states)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                states = self.uses(c, states)
            elif isinstance(c, ast.keyword):
                states = self.uses(c.value, states)
        return states

    def fails_on_none(self, e):
        """operands of a call or ordering for which None is an error"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id not in self.bound:
            if e.func.id in ("min", "max") and len(e.args) > 1 and not e.keywords:
                return e.args
            if e.func.id in ("len", "abs", "range", "int", "float", "round", "sum", "sorted", "enumerate", "zip", "iter", "list", "tuple", "set", "any", "all"):
                return e.args
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            return [e.func]
        if isinstance(e, ast.Compare):
            r, xs = [], [e.left] + e.comparators
            for l, op, x in zip(xs, e.ops, xs[1:]):
                if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    r += [l, x]
                elif isinstance(op, (ast.In, ast.NotIn)):
                    r.append(x)
            return r
        if isinstance(e, ast.Starred):
            return [e.value]
        return []

    def deref(self, e, states):
        self.nuses += 1
        bad = [s for s in states if (self.null + " is None", True) in s[1] and not self.unknown_choice(s[1])]
        if bad:
            self.derefs.setdefault((self.null, e.lineno), min(bad, key=lambda s: len(s[1]))[1])

    def store(self, states, ns):
        ns = frozenset(ns)
        return {(a | (ns & self.locals), self.kill(f, ns)) for a, f in states}

    def target(self, t, states):
        for n in ast.walk(t):
            if isinstance(n, (ast.Subscript, ast.Attribute)):
                states = self.uses(n.value, states)
                if isinstance(n, ast.Subscript):
                    states = self.uses(n.slice, states)
        roots = set()
        for n in ast.walk(t):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                k = key(n)
                states = {(a, frozenset(f for f in fs if k not in f[0])) for a, fs in states}
        ns = {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        # an item store changes what is known about the container
        for n in ast.walk(t):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                b = n.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    roots.add(b.id)
        if roots:
            rs = frozenset(roots)
            states = {(a, self.kill(f, rs)) for a, f in states}
        return self.store(states, ns)

    # statements -------------------------------------------------------------------------------
    def block(self, body, states):
        for s in body:
            if not states:
                break
            states = self.cap(self.stmt(s, states))
        return states

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            return m(s, st)
        return st

    def s_Expr(self, s, st):
        st = self.uses(s.value, st)
        if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in self.noreturn:
            return set()
        return st

    def boolean(self, v):
        if isinstance(v, ast.BoolOp):
            return all(self.boolean(x) for x in v.values)
        return isinstance(v, ast.Compare) or (isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not)) or (
            isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("isinstance", "bool", "callable", "hasattr"))

    def s_Assign(self, s, st):
        st = self.uses(s.value, st)
        t = s.targets[0]
        v = s.value
        if len(s.targets) == 1 and isinstance(t, ast.Name):
            if self.boolean(v) and t.id not in names(v):
                yes = self.target(t, self.assume(st, v, True))
                no = self.target(t, self.assume(st, v, False))
                return self.assume(yes, ast.Name(t.id, ast.Load()), True) | self.assume(no, ast.Name(t.id, ast.Load()), False)
            if isinstance(v, ast.IfExp):
                return self.assign(t, v.body, self.assume(st, v.test, True)) | self.assign(t, v.orelse, self.assume(st, v.test, False))
            return self.assign(t, v, st)
        for t in s.targets:
            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts):
                st = self.target(t, st)
                for x, y in zip(t.elts, v.elts):
                    if isinstance(x, ast.Name) and isinstance(y, ast.Constant):
                        st = self.const(st, x.id, y.value)
            else:
                st = self.target(t, st)
        return st

    def assign(self, t, v, st):
        """t = v for a name t: what was known about the expression v is now known about t"""
        moved = None
        if self.track and isinstance(v, (ast.Call, ast.Attribute, ast.Subscript, ast.Name, ast.BinOp)):
            k = key(v)
            moved = set()
            for a, f in st:
                new = set()
                for q, tr in f:
                    if k in q:
                        r = rename(q, k, t.id)
                        if r is not None:
                            new.add((r, tr))
                moved.add(((a | ({t.id} & self.locals)), self.kill(f, frozenset([t.id])) | new))
        st = self.target(t, st) if moved is None else moved
        if isinstance(v, ast.Constant):
            return self.const(st, t.id, v.value)
        if is_inf(v):
            return self.const(st, t.id, float("inf"))
        if isinstance(v, (ast.List, ast.Tuple, ast.Dict, ast.ListComp, ast.JoinedStr, ast.Lambda)):
            if self.track and (self.relevant is None or t.id in self.relevant):
                return {(a, f | {(t.id + " is None", False)}) for a, f in st}
        return st

    def const(self, st, n, val):
        f = {(n + " is None", val is None)}
        if isinstance(val, (bool, type(None))):
            f.add((n, bool(val)))
        if isinstance(val, (str, int, float)) and not isinstance(val, bool):
            f.add(("%s == %r" % (n, val), True))
        if not self.track or (self.relevant is not None and n not in self.relevant):
            return st
        return {(a, fs | f) for a, fs in st}

    def s_AugAssign(self, s, st):
        st = self.uses(s.value, st)
        if isinstance(s.target, ast.Name):
            st = self.uses(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
        if isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
            n = s.target.id
            out = set()
            for a, f in st:
                new = self.kill(f, frozenset([n]))
                for q, t in f:
                    if t and q.startswith(n + " == "):
                        try:
                            new |= {("%s == %r" % (n, ast.literal_eval(q[len(n) + 4:]) + s.value.value), True)}
                        except Exception:
                            pass
                out.add((a | (frozenset([n]) & self.locals), new))
            return out
        return self.target(s.target, st)

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return st
        return self.target(s.target, self.uses(s.value, st))

    def s_Return(self, s, st):
        self.uses(s.value, st)
        return set()

    def s_Raise(self, s, st):
        self.uses(s.exc, st)
        return set()

    def s_Assert(self, s, st):
        st = self.uses(s.test, st)
        return self.assume(st, s.test, True)

    def s_Delete(self, s, st):
        ns = frozenset(n.id for t in s.targets for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Del))
        return {(a - ns, self.kill(f, ns)) for a, f in st}

    def s_If(self, s, st):
        st = self.uses(s.test, st)
        yes = self.block(s.body, self.assume(st, s.test, True))
        no = self.block(s.orelse, self.assume(st, s.test, False))
        return yes | no

    def loop(self, s, st, bind, cond):
        brk, cont, out = set(), set(), set()
        self.loops.append((brk, cont))
        cur = st
        seen = set()
        for _ in range(4):
            cur = cur - seen
            if not cur:
                break
            seen |= cur
            start = bind(cur, len(seen) == len(cur))
            end = self.block(s.body, start) | cont
            cont.clear()
            end = self.cap(end)
            out |= end
            cur = self.cap(set(end))
        self.loops.pop()
        if cond is not None:
            out = self.assume(out, cond, False)
        out = self.block(s.orelse, out)
        return self.cap(out | brk)

    def s_For(self, s, st):
        st = self.uses(s.iter, st)
        idx = None
        if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name):
            if s.iter.func.id == "range" and len(s.iter.args) == 1 and isinstance(s.target, ast.Name):
                idx = s.target.id
            if s.iter.func.id == "enumerate" and len(s.iter.args) == 1 and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
                idx = s.target.elts[0].id

        def bind(x, first):
            x = self.target(s.target, x)
            if idx is None or not self.track or (self.relevant is not None and idx not in self.relevant):
                return x
            return {(a, f | {(idx + " == 0", first)}) for a, f in x}
        return self.loop(s, st, bind, None)

    def s_While(self, s, st):
        st = self.uses(s.test, st)
        return self.loop(s, st, lambda x, first: self.assume(self.uses(s.test, x), s.test, True), s.test)

    def s_Break(self, s, st):
        self.loops[-1][0].update(st)
        return set()

    def s_Continue(self, s, st):
        self.loops[-1][1].update(st)
        return set()

    def s_With(self, s, st):
        for i in s.items:
            st = self.uses(i.context_expr, st)
            if i.optional_vars is not None:
                st = self.target(i.optional_vars, st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        mids = set(st)
        cur = st
        for x in s.body:
            if not cur:
                break
            cur = self.cap(self.stmt(x, cur))
            mids |= cur
        mids = self.cap(mids)
        out = self.block(s.orelse, cur)
        for h in s.handlers:
            b = self.store(mids, {h.name} if h.name else ())
            out |= self.block(h.body, b)
        if s.finalbody:
            self.block(s.finalbody, mids)
            out = self.block(s.finalbody, out)
        return out

    def s_FunctionDef(self, s, st):
        for d in s.decorator_list + s.args.defaults:
            st = self.uses(d, st)
        return self.store(st, {s.name})

    def s_ClassDef(self, s, st):
        return self.store(st, {s.name})

    def s_Import(self, s, st):
        return self.store(st, {(a.asname or a.name).split(".")[0] for a in s.names})

    s_ImportFrom = s_Import



def check(node, consts=None):
    """({(name, line): facts}, reads examined) of a function body"""
    a = Analysis(node, facts=False)
    cand = {v for v, _ in a.run()}
    found = {}
    for v in sorted(cand):
        found.update(Analysis(node, only={v}, consts=consts).run())
    return found, a.nuses


def check_none(node, consts=None):
    """({(parameter, line): facts}, uses examined): uses of a parameter that has its default None"""
    a = node.args
    pos = a.posonlyargs + a.args
    ps = [p.arg for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults) if isinstance(d, ast.Constant) and d.value is None]
    ps += [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if isinstance(d, ast.Constant) and d.value is None]
    found, n = {}, 0
    for p in ps:
        an = Analysis(node, only={p}, consts=consts, null=p)
        an.relevant = {p}  # first with the tests of p alone
        an.run()
        n += an.nuses
        if not an.derefs:
            continue
        an = Analysis(node, only={p}, consts=consts, null=p)
        an.run()
        found.update(an.derefs)
    return found, n

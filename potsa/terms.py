"""The value of a function as a term: value numbering over its syntax tree.

Statements are read once; branches become conditional terms, loops become recursive definitions, stores become functional updates,
local functions and internal helpers are expanded. Names, temporaries, the order of independent statements and the way control
flow is written leave no trace, so two readings of one function (an option on and off) compute the same value when their terms are
equal. Terms are interned: equal terms are the same number; loop variables are compared by what they start with and become."""

import ast

MUTATORS = {"append", "extend", "insert", "update", "pop", "setdefault", "remove", "clear", "sort", "reverse", "fill", "add"}
DRAWS = ("rng", "random_state", "generator", "rs")
SAFE = ("nx", "np", "warnings", "plt", "time", "math", "scipy", "sp")


def base(t):
    while isinstance(t, (ast.Subscript, ast.Attribute, ast.Starred)):
        t = t.value
    return t.id if isinstance(t, ast.Name) else None


class Closure:
    def __init__(self, node, env):
        self.node = node
        self.env = env      # names of the function it is written in, as they are when it is called


class Table:
    """interned terms, shared by the readings that are compared"""

    def __init__(self):
        self.ids = {}
        self.terms = []
        self.line = []

    def mk(self, *t, line=0):
        i = self.ids.get(t)
        if i is None:
            i = self.ids[t] = len(self.terms)
            self.terms.append(t)
            self.line.append(line)
        return i

    def show(self, i, depth=3):
        t = self.terms[i]
        if t[0] == "c":
            return repr(t[1])
        if t[0] in ("sym", "g"):
            return str(t[1])
        if t[0] in ("lv", "exit"):
            return str(t[2])
        if t[0] == "attr":
            return "%s.%s" % (self.show(t[1], depth), t[2])
        if depth <= 0:
            return "..."
        if t[0] == "call":
            return "%s(%s)" % (t[1] if isinstance(t[1], str) else self.show(t[1], depth - 1),
                               ", ".join(self.show(x[1] if isinstance(x, tuple) else x, depth - 1) for x in t[2]))
        return "%s(%s)" % (t[0], ", ".join(self.show(x, depth - 1) if isinstance(x, int) else str(x) for x in t[1:] if not isinstance(x, tuple)))


class Frame:
    def __init__(self, fold, path, depth):
        self.fold = fold
        self.path = path
        self.depth = depth
        self.rets = []      # (condition, value)
        self.loops = []     # stack of lists of (kind, condition, env)


class Eval:
    def __init__(self, tab, quiet, resolve, fold, harmless, internal):
        self.T = tab
        self.quiet = quiet
        self.resolve = resolve      # expr -> FuncInfo of a package function, or None
        self.fold = fold
        self.harmless = harmless
        self.internal = internal
        self.defs = {}              # loop id -> (control terms, {name: (start, next, values at the breaks)})
        self.truths = {}
        self.n = 0
        mk = tab.mk
        self.TRUE, self.FALSE, self.NONE = mk("c", True), mk("c", False), mk("c", None)
        self.RAISE = mk("raise")

    # -- terms
    def option(self, name, val):
        """the option that is compared on and off: passing it on is no difference, computing with it is one"""
        i = self.T.mk("opt", name)
        self.truths[i] = val
        return i

    def num(self, i):
        return self.c(self.truths[i]) if self.T.terms[i][0] == "opt" else i

    def c(self, v):
        try:
            hash(v)
        except TypeError:
            v = repr(v)
        return self.T.mk("c", v) if not isinstance(v, (int, float)) or isinstance(v, bool) else self.T.mk("c", v, type(v).__name__)

    def truth(self, i):
        t = self.T.terms[i]
        if t[0] == "c":
            return bool(t[1])
        if t[0] in ("dict", "list", "tuple"):
            return True if len(t[1]) else None
        if t[0] in ("store", "mut"):
            return True if self.T.terms[t[1]][0] in ("dict", "store", "mut", "logof") else self.truths.get(t[1])
        if t[0] in ("ret", "logof", "fun"):
            return True
        if t[0] == "ite":
            a, b = self.truth(t[2]), self.truth(t[3])
            return a if a == b else None
        return self.truths.get(i)

    def neg(self, c):
        t = self.T.terms[c]
        if t[0] == "not":
            return t[1]
        v = self.truth(c)
        if v is not None:
            return self.FALSE if v else self.TRUE
        return self.T.mk("not", c)

    def conj(self, a, b):
        if a == self.TRUE:
            return b
        if b == self.TRUE or a == b:
            return a
        if self.FALSE in (a, b):
            return self.FALSE
        return self.T.mk("and", a, b)

    def ite(self, c, a, b):
        if a == b:
            return a
        v = self.truth(c)
        if v is not None:
            return a if v else b
        if self.T.terms[c][0] == "not":
            c, a, b = self.T.terms[c][1], b, a
        if a == self.TRUE and b == self.FALSE:
            return c
        return self.T.mk("ite", c, a, b)

    def sub(self, b, k, line=0):
        t = self.T.terms[b]
        kk = self.T.terms[k]
        if kk[0] == "c":
            if t[0] in ("tuple", "list") and isinstance(kk[1], int) and not isinstance(kk[1], bool) and -len(t[1]) <= kk[1] < len(t[1]):
                if not any(self.T.terms[x][0] == "star" for x in t[1]):
                    return t[1][kk[1]]
            if t[0] == "ret" and isinstance(kk[1], int):
                xs = self.items(b, None)
                if kk[1] in (0, -1) or t[2] and kk[1] < len(xs):
                    return xs[kk[1]]
                return self.T.mk("sub", t[1], k, line=line)
            if t[0] == "ite" and (self.tupled(t[2]) or self.tupled(t[3])):
                return self.ite(t[1], self.sub(t[2], k), self.sub(t[3], k))
            if t[0] == "store" and self.T.terms[t[2]][0] == "c":
                if t[2] == k:
                    return t[3]
                if isinstance(kk[1], str):
                    return self.sub(t[1], k, line)
            if t[0] == "mut" and t[2] and self.T.terms[t[2][0]][0] == "c" and t[2][0] != k and isinstance(kk[1], str):
                return self.sub(t[1], k, line)
            if t[0] == "dict":
                for x, y in t[1]:
                    if x == k:
                        return y
        return self.T.mk("sub", b, k, line=line)

    def tupled(self, i):
        t = self.T.terms[i]
        return t[0] in ("tuple", "ret", "list", "dict", "store") or t[0] == "ite" and (self.tupled(t[2]) or self.tupled(t[3]))

    def items(self, i, n):
        """the parts of a result that comes with a log, n of them in all (None: as many as are known)"""
        t = self.T.terms[i]
        k = n - 1 if n else t[2] or 1
        log = self.T.mk("logof", t[1])
        return ([t[1]] if k == 1 else [self.T.mk("sub", t[1], self.c(j)) for j in range(k)]) + [log]

    def tuple(self, xs):
        ts = [self.T.terms[x] for x in xs]
        if len(xs) > 1 and all(t[0] == "sub" and t[1] == ts[0][1] and t[2] == self.c(j) for j, t in enumerate(ts)):
            return ts[0][1]
        return self.T.mk("tuple", tuple(xs))

    # -- functions
    def function(self, node, env, fold, path="", depth=0):
        """the value a call of the function returns"""
        fr = Frame(fold, path, depth)
        env = dict(env)
        env["$live"] = self.TRUE
        self.block(node.body, env, fr)
        if env["$live"] != self.FALSE:
            fr.rets.append((env["$live"], self.NONE))
        rets = [r for r in fr.rets if r[0] != self.FALSE]
        if not rets:
            return self.RAISE, env
        v = rets[-1][1]
        for c, x in reversed(rets[:-1]):
            v = self.ite(c, x, v)
        return v, env

    def closure(self, f, env, fr):
        """a local function as a value"""
        if fr.depth > 6:
            return self.T.mk("fun?", f.node.lineno)
        e = dict(env)
        ps = params(f.node)
        for j, x in enumerate(ps):
            e[x] = self.T.mk("arg", fr.depth, j)
        if isinstance(f.node, ast.Lambda):
            g = Frame(fr.fold, fr.path, fr.depth + 1)
            v = self.ex(f.node.body, e, g)
        else:
            v, _ = self.function(f.node, e, {}, fr.path, fr.depth + 1)
        d = tuple(self.ex(x, env, fr) for x in f.node.args.defaults + [y for y in f.node.args.kw_defaults if y is not None])
        return self.T.mk("fun", len(ps), v, d)

    def val(self, x, env, fr):
        return self.closure(x, env, fr) if isinstance(x, Closure) else x

    # -- statements
    def block(self, body, env, fr):
        for s in body:
            if env["$live"] == self.FALSE:
                return
            self.st(s, env, fr)

    def st(self, s, env, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            m(s, env, fr)

    def s_Return(self, s, env, fr):
        v = self.ex(s.value, env, fr) if s.value is not None else self.NONE
        self.leave("return", v, env, fr)

    def s_Raise(self, s, env, fr):
        self.leave("return", self.RAISE, env, fr)

    def leave(self, kind, v, env, fr):
        if fr.loops:
            e = dict(env)
            if kind == "return":
                e["$ret"], e["$flag"] = v, self.TRUE
            fr.loops[-1].append((kind, env["$live"], e))
        else:
            fr.rets.append((env["$live"], v))
        env["$live"] = self.FALSE

    def s_Break(self, s, env, fr):
        self.leave("break", None, env, fr)

    def s_Continue(self, s, env, fr):
        self.leave("continue", None, env, fr)

    def decide(self, test, node, env, fr):
        c = self.ex(test, env, fr)
        v = self.truth(c)
        if v is None:
            t = fr.fold.get(node, None)
            if t is not None and len(t) == 1:
                v = next(iter(t))
        return c, v

    def s_If(self, s, env, fr):
        c, v = self.decide(s.test, s, env, fr)
        if v is not None:
            self.block(s.body if v else s.orelse, env, fr)
            return
        self.branch(c, [(s.body, {}), (s.orelse, {})], env, fr)

    def branch(self, c, arms, env, fr):
        live = env["$live"]
        a, b = dict(env), dict(env)
        a["$live"], b["$live"] = self.conj(live, c), self.conj(live, self.neg(c))
        la, lb = a["$live"], b["$live"]
        self.block(arms[0][0], a, fr)
        self.block(arms[1][0], b, fr)
        if a["$live"] == self.FALSE:
            env.clear()
            env.update(b)
            return
        if b["$live"] == self.FALSE:
            env.clear()
            env.update(a)
            return
        full = a["$live"] == la and b["$live"] == lb
        la, lb = a["$live"], b["$live"]
        for n in set(a) | set(b):
            x, y = a.get(n), b.get(n)
            if x is y or x == y:
                env[n] = x
                continue
            if isinstance(x, Closure) or isinstance(y, Closure):
                x = self.val(x, a, fr) if x is not None else self.T.mk("undef")
                y = self.val(y, b, fr) if y is not None else self.T.mk("undef")
            if x is None or y is None:
                env[n] = x if y is None else y      # assigned on one side only
                continue
            env[n] = self.ite(c, x, y)
        env["$live"] = live if full else self.ite(c, la, lb)

    def s_Try(self, s, env, fr):
        first = dict(env)
        self.block(s.body, env, fr)
        if s.handlers:
            body = dict(env)
            for h in s.handlers:
                e = dict(first)
                for n in stored(ast.Module(s.body, [])):
                    if n in body and n not in e:
                        e[n] = body[n]
                if h.name:
                    e[h.name] = self.T.mk("exc", s.lineno)
                c = self.T.mk("exc", fr.path, s.lineno, s.col_offset, len(s.handlers))
                e["$live"] = self.conj(first["$live"], c)
                self.block(h.body, e, fr)
                if e["$live"] == self.FALSE:
                    continue
                if env["$live"] == self.FALSE:
                    env.clear()
                    env.update(e)
                    continue
                for n in set(e) | set(env):
                    x, y = e.get(n), env.get(n)
                    if x == y or n == "$live":
                        continue
                    if x is None or y is None:
                        env[n] = x if y is None else y
                    else:
                        env[n] = self.ite(c, self.val(x, e, fr), self.val(y, env, fr))
        if env["$live"] != self.FALSE:
            self.block(s.orelse, env, fr)
        self.block(s.finalbody, env, fr)

    def s_With(self, s, env, fr):
        for i in s.items:
            v = self.ex(i.context_expr, env, fr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, self.T.mk("with", v), env, fr)
        self.block(s.body, env, fr)

    def s_For(self, s, env, fr):
        it = self.ex(s.iter, env, fr)
        self.loop(s, env, fr, it)

    def s_While(self, s, env, fr):
        self.loop(s, env, fr, None)

    def loop(self, s, env, fr, it, unknown=frozenset()):
        L = (fr.path, s.lineno, s.col_offset)
        saved = dict(env)
        guess = {}      # flags the loop is assumed to keep true (false), checked below
        names = stored(s) | touched(s)
        plain = stored(s)
        start = {}
        for n in sorted(names):
            x = env.get(n)
            if x is None:
                start[n] = self.T.mk("undef")
            elif isinstance(x, Closure):
                continue
            else:
                start[n] = x
            env[n] = self.T.mk("lv", L, n)
            self.truths.pop(env[n], None)
            v = self.truth(start[n])
            if v is not None and n not in plain:
                self.truths[env[n]] = v
            elif v is not None and n not in unknown and (self.T.terms[start[n]][0] != "c" or isinstance(self.T.terms[start[n]][1], bool)):
                self.truths[env[n]] = guess[n] = v
        start["$ret"], start["$flag"] = self.NONE, self.FALSE
        outer = env["$live"]
        env["$live"] = self.TRUE
        control = []
        if it is not None:
            control.append(it)
            self.assign(s.target, self.T.mk("it", L), env, fr)
            test = None
        else:
            test, v = self.decide(s.test, s, env, fr)
            if v is True and self.truth(test) is not None:
                test = self.TRUE
            control.append(test)
        head = dict(env)
        fr.loops.append([])
        self.block(s.body, env, fr)
        jumps = fr.loops.pop()
        conts = [(c, e) for k, c, e in jumps if k == "continue"]
        brks = [(c, e) for k, c, e in jumps if k != "continue"]
        control += [c for c, _ in brks]
        nxt = {}
        for n in start:
            if n in ("$ret", "$flag"):
                nxt[n] = start[n]
                continue
            x = self.val(env.get(n), env, fr) if env.get(n) is not None else start[n]
            if env["$live"] == self.FALSE and conts:
                x = self.val(conts[-1][1].get(n, start[n]), conts[-1][1], fr)
            for c, e in reversed(conts):
                x = self.ite(c, self.val(e[n], e, fr) if e.get(n) is not None else x, x)
            nxt[n] = x
        wrong = {n for n, v in guess.items() if self.truth(nxt[n]) != v
                 or any(not isinstance(e.get(n), int) or self.truth(e[n]) != v for _, e in brks)}
        if wrong:
            env.clear()
            env.update(saved)
            return self.loop(s, env, fr, it, unknown | wrong)
        self.defs[L] = (tuple(control), {n: (start[n], nxt[n], tuple(
            self.val(e[n], e, fr) if e.get(n) is not None else start[n] for _, e in brks)) for n in start})
        fixed = {n for n in start if nxt[n] == self.T.mk("lv", L, n) and all(e.get(n) == nxt[n] for _, e in brks)}
        out = {}
        for n in start:
            if n in fixed:
                out[n] = start[n]
            else:
                out[n] = self.T.mk("exit", L, n, line=s.lineno)
                if self.truths.get(self.T.mk("lv", L, n)) is not None:
                    self.truths[out[n]] = self.truths[self.T.mk("lv", L, n)]
        rets = any(k == "return" for k, _, _ in jumps)
        for n in list(env):
            if n not in start and n not in head:
                pass
        env.update({n: v for n, v in out.items() if n not in ("$ret", "$flag")})
        env["$live"] = outer
        if rets:
            flag = self.T.mk("exit", L, "$flag", line=s.lineno)
            e = dict(env)
            e["$live"] = self.conj(outer, flag)
            v = self.T.mk("exit", L, "$ret", line=s.lineno)
            self.leave("return", v, e, fr)
            env["$live"] = self.conj(outer, self.neg(flag))
        if s.orelse:
            if brks:
                self.branch(self.T.mk("nobreak", L), [(s.orelse, {}), ([], {})], env, fr)
            else:
                self.block(s.orelse, env, fr)
        if it is None and test == self.TRUE and not any(k == "break" for k, _, _ in jumps):
            env["$live"] = self.FALSE

    def s_FunctionDef(self, s, env, fr):
        env[s.name] = Closure(s, None)

    def s_Import(self, s, env, fr):
        for a in s.names:
            n = (a.asname or a.name).split(".")[0]
            env[n] = self.T.mk("import", a.name if a.asname else n)

    def s_ImportFrom(self, s, env, fr):
        for a in s.names:
            env[a.asname or a.name] = self.T.mk("import", "%s.%s" % (s.module, a.name))

    def s_Assign(self, s, env, fr):
        if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) \
                and len(s.targets[0].elts) == len(s.value.elts) and not any(isinstance(x, ast.Starred) for x in s.targets[0].elts + s.value.elts):
            vs = [self.raw(x, env, fr) for x in s.value.elts]
            for t, v in zip(s.targets[0].elts, vs):
                self.assign(t, v, env, fr)
            return
        v = self.raw(s.value, env, fr)
        for t in s.targets:
            self.assign(t, v, env, fr)

    def raw(self, e, env, fr):
        """a value, functions kept as they are"""
        if isinstance(e, ast.Lambda):
            return Closure(e, None)
        if isinstance(e, ast.Name) and isinstance(env.get(e.id), Closure):
            return env[e.id]
        return self.ex(e, env, fr)

    def s_AnnAssign(self, s, env, fr):
        if s.value is not None:
            self.assign(s.target, self.raw(s.value, env, fr), env, fr)

    def s_AugAssign(self, s, env, fr):
        old = self.ex(loadable(s.target), env, fr)
        self.assign(s.target, self.T.mk("bin", type(s.op).__name__, old, self.num(self.ex(s.value, env, fr)), line=s.lineno), env, fr)

    def s_Expr(self, s, env, fr):
        e = s.value
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            return
        if not isinstance(e, ast.Call):
            return
        f = e.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        if name in ("print", "warn", "write", "flush"):
            return
        v = self.ex(e, env, fr)
        if isinstance(f, ast.Name) and isinstance(env.get(f.id), Closure) or self.harmless(e):
            return
        if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
            return      # done by the call itself
        hit = set()
        if isinstance(f, ast.Attribute):
            b = base(f)
            if b and b not in SAFE:
                hit.add(b)
        for a in e.args:
            b = base(a)
            if b:
                hit.add(b)
        for b in hit:
            if b in env and not isinstance(env[b], Closure):
                env[b] = self.T.mk("mut", env[b], (), v, line=s.lineno)

    def assign(self, t, v, env, fr):
        if isinstance(t, ast.Name):
            env[t.id] = v
            return
        if isinstance(v, Closure):
            v = self.val(v, env, fr)
        if isinstance(t, (ast.Tuple, ast.List)):
            vt = self.T.terms[v]
            if vt[0] == "ret":
                xs = self.items(v, len(t.elts))
            elif vt[0] == "ret?" and len(t.elts) == 2:
                xs = [vt[1], self.T.mk("logof", vt[1])]
            elif any(isinstance(x, ast.Starred) for x in t.elts):
                xs = [self.T.mk("unpack", v, i, len(t.elts)) for i in range(len(t.elts))]
            else:
                xs = [self.sub(v, self.c(i)) for i in range(len(t.elts))]
            for x, y in zip(t.elts, xs):
                self.assign(x, y, env, fr)
            return
        if isinstance(t, ast.Starred):
            self.assign(t.value, v, env, fr)
            return
        if isinstance(t, ast.Subscript):
            old = self.ex(loadable(t.value), env, fr)
            new = self.T.mk("store", old, self.ex(t.slice, env, fr), v, line=t.lineno)
            self.assign(t.value, new, env, fr) if isinstance(t.value, (ast.Name, ast.Subscript, ast.Attribute)) else None
            return
        if isinstance(t, ast.Attribute):
            old = self.ex(loadable(t.value), env, fr)
            new = self.T.mk("storeattr", old, t.attr, v, line=t.lineno)
            if isinstance(t.value, (ast.Name, ast.Subscript, ast.Attribute)):
                self.assign(t.value, new, env, fr)

    # -- expressions
    def ex(self, e, env, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e, env, fr)
        return self.T.mk("expr", type(e).__name__, *[self.ex(x, env, fr) for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)])

    def e_Constant(self, e, env, fr):
        return self.c(e.value) if e.value is not Ellipsis else self.T.mk("ellipsis")

    def e_Name(self, e, env, fr):
        v = env.get(e.id)
        if v is None:
            return self.T.mk("g", e.id)
        if isinstance(v, Closure):
            return self.closure(v, {k: x for k, x in env.items() if k != e.id}, fr)
        return v

    def e_Attribute(self, e, env, fr):
        b = self.ex(e.value, env, fr)
        t = self.T.terms[b]
        if t[0] == "storeattr":
            if t[2] == e.attr:
                return t[3]
        return self.T.mk("attr", b, e.attr, line=e.lineno)

    def e_Subscript(self, e, env, fr):
        b = self.ex(e.value, env, fr)
        if isinstance(e.slice, ast.Tuple) and len(e.slice.elts) == 2 and isinstance(e.slice.elts[0], ast.Slice) and isinstance(e.slice.elts[1], ast.Constant) \
                and e.slice.elts[1].value is None and ast.unparse(e.slice.elts[0]) == ":":
            return b        # only the layout changes
        return self.sub(b, self.num(self.ex(e.slice, env, fr)), e.lineno)

    def e_Slice(self, e, env, fr):
        return self.T.mk("slice", *[self.ex(x, env, fr) if x is not None else self.NONE for x in (e.lower, e.upper, e.step)])

    def e_Tuple(self, e, env, fr):
        return self.tuple([self.ex(x, env, fr) for x in e.elts])

    def e_List(self, e, env, fr):
        return self.T.mk("list", tuple(self.ex(x, env, fr) for x in e.elts))

    def e_Starred(self, e, env, fr):
        return self.T.mk("star", self.ex(e.value, env, fr))

    def e_Dict(self, e, env, fr):
        return self.T.mk("dict", tuple((self.ex(k, env, fr) if k is not None else self.T.mk("star"), self.ex(v, env, fr)) for k, v in zip(e.keys, e.values)))

    def e_BinOp(self, e, env, fr):
        return self.T.mk("bin", type(e.op).__name__, self.num(self.ex(e.left, env, fr)), self.num(self.ex(e.right, env, fr)), line=e.lineno)

    def e_UnaryOp(self, e, env, fr):
        x = self.ex(e.operand, env, fr)
        return self.neg(x) if isinstance(e.op, ast.Not) else self.T.mk("un", type(e.op).__name__, x)

    def e_BoolOp(self, e, env, fr):
        conj = isinstance(e.op, ast.And)
        xs = []
        for x in e.values:
            v = self.ex(x, env, fr)
            t = self.truth(v)
            if t is not None and t != conj:
                if not xs:
                    return v
                xs.append(v)
                break
            if t is None or x is e.values[-1]:
                xs.append(v)
        if len(xs) > 1 and self.T.terms[xs[-1]] in (("c", conj),):
            xs.pop()
        return xs[0] if len(xs) == 1 else self.T.mk("bool", type(e.op).__name__, tuple(xs))

    def e_Compare(self, e, env, fr):
        l, rs = self.num(self.ex(e.left, env, fr)), [self.num(self.ex(x, env, fr)) for x in e.comparators]
        if len(rs) == 1:
            a, b = self.T.terms[l], self.T.terms[rs[0]]
            op = e.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot)) and rs[0] == self.NONE and (a[0] in ("c", "dict", "list", "tuple", "store", "ret", "fun", "bin") or l == self.NONE):
                return self.c((l == self.NONE) == isinstance(op, ast.Is))
            if a[0] == b[0] == "c" and isinstance(op, (ast.Eq, ast.NotEq)):
                return self.c((a[1] == b[1]) == isinstance(op, ast.Eq))
        return self.T.mk("cmp", tuple(type(o).__name__ for o in e.ops), l, tuple(rs))

    def e_IfExp(self, e, env, fr):
        c, v = self.decide(e.test, e, env, fr)
        if v is not None:
            return self.ex(e.body if v else e.orelse, env, fr)
        return self.ite(c, self.ex(e.body, env, fr), self.ex(e.orelse, env, fr))

    def e_Lambda(self, e, env, fr):
        return self.closure(Closure(e, None), env, fr)

    def e_JoinedStr(self, e, env, fr):
        return self.T.mk("fstr", tuple(self.ex(x.value, env, fr) if isinstance(x, ast.FormattedValue) else self.c(x.value) for x in e.values))

    def comp(self, e, env, fr):
        inner = dict(env)
        gens = []
        for j, g in enumerate(e.generators):
            it = self.ex(g.iter, inner, fr)
            cv = self.T.mk("cv", fr.depth, getattr(fr, "cdepth", 0), j)
            self.assign(g.target, cv, inner, fr)
            fr.cdepth = getattr(fr, "cdepth", 0) + 1
            gens.append((it, tuple(self.ex(x, inner, fr) for x in g.ifs)))
            fr.cdepth -= 1
        fr.cdepth = getattr(fr, "cdepth", 0) + 1
        elts = [self.ex(x, inner, fr) for x in ((e.key, e.value) if isinstance(e, ast.DictComp) else (e.elt,))]
        fr.cdepth -= 1
        return self.T.mk("comp", type(e).__name__, tuple(gens), tuple(elts), line=e.lineno)

    e_ListComp = e_GeneratorExp = e_SetComp = e_DictComp = comp

    def e_NamedExpr(self, e, env, fr):
        v = self.ex(e.value, env, fr)
        self.assign(e.target, v, env, fr)
        return v

    def e_Call(self, e, env, fr):
        f = e.func
        if isinstance(f, ast.Name) and isinstance(env.get(f.id), Closure) and fr.depth < 4:
            r = self.expand(env[f.id].node, e, env, fr, env, {})
            if r is not None:
                return r
        g = self.resolve(f) if not (isinstance(f, ast.Name) and f.id in env) else None
        args = [self.ex(a, env, fr) for a in e.args]
        kws = [(k.arg, self.ex(k.value, env, fr)) for k in e.keywords]
        if g is not None:
            return self.pkgcall(g, e, args, kws, env, fr)
        kws = tuple(sorted(((n or "**", v) for n, v in kws if n not in self.quiet), key=lambda x: (x[0], x[1])))
        fn = self.ex(f, env, fr)
        t = self.T.mk("call", fn, tuple(args), kws, line=e.lineno)
        if isinstance(f, ast.Attribute):
            b = base(f)
            if b in env and not isinstance(env[b], Closure) and (f.attr in MUTATORS or b in DRAWS):
                path = []
                x = f.value
                while isinstance(x, (ast.Subscript, ast.Attribute)):
                    path.append(self.ex(x.slice, env, fr) if isinstance(x, ast.Subscript) else self.c("." + x.attr))
                    x = x.value
                env[b] = self.T.mk("mut", env[b], tuple(reversed(path)), self.T.mk("do", f.attr, tuple(args), kws), line=e.lineno)
        return t

    def pkgcall(self, g, e, args, kws, env, fr):
        ps = g.params
        logv = None
        named, rest = {}, []
        pos = g.pos_params
        if any(isinstance(a, ast.Starred) for a in e.args) or len(args) > len(pos):
            rest = list(args)
        else:
            named = dict(zip(pos, args))
        for n, v in kws:
            named[n or "**"] = v
        named = {n: v if n in self.quiet else self.num(v) for n, v in named.items()}
        logv = named.get("log")
        haslog = "log" in ps
        lt = None
        if haslog:
            lt = False if logv is None and "**" not in named else self.truth(logv) if logv is not None else False
        if self.internal(g) and fr.depth < 3 and not rest and "**" not in named and not g.vararg and not g.kwarg:
            r = self.expand(g.node, e, env, fr, {}, named)
            if r is not None:
                return r
        d = {n: v for n, v in g.defaults.items()} if hasattr(g, "defaults") else {}
        t = self.T.mk("call", g.fid, tuple(rest), tuple(sorted((n, v) for n, v in named.items() if n not in self.quiet and not self.isdefault(d.get(n), v))),
                      line=e.lineno)
        if lt:
            return self.T.mk("ret", t, self.arity(g))
        if lt is None and haslog:
            return self.T.mk("ret?", t)
        return t

    def isdefault(self, d, v):
        return isinstance(d, ast.Constant) and self.c(d.value) == v if d is not None and d.__class__ is ast.Constant and d.value is not Ellipsis else False

    def arity(self, g):
        """number of results without the log, where the return statements show it"""
        ns = set()
        for s in ast.walk(g.node):
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Tuple):
                e = s.value.elts
                if isinstance(e[-1], (ast.Name, ast.Dict)) and ("log" in ast.unparse(e[-1]).lower() or isinstance(e[-1], ast.Dict)):
                    ns.add(len(e) - 1)
        return ns.pop() if len(ns) == 1 else 0

    def expand(self, node, e, env, fr, outer, named):
        """the value of a call of a local function or an internal helper, read in place"""
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        ps = pos + [x.arg for x in a.kwonlyargs]
        if a.vararg or a.kwarg or any(isinstance(x, ast.Starred) for x in e.args) or any(k.arg is None for k in e.keywords) or len(e.args) > len(pos):
            return None
        if not named:
            named = dict(zip(pos, [self.raw(x, env, fr) for x in e.args]))
            for k in e.keywords:
                named[k.arg] = self.raw(k.value, env, fr)
        defaults = dict(zip(reversed(pos), reversed(a.defaults)))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        inner = dict(outer)
        for p in ps:
            if p in named:
                inner[p] = named[p]
            elif p in defaults:
                inner[p] = self.ex(defaults[p], {}, fr)
            else:
                return None
        path = "%s>%s:%s" % (fr.path, e.lineno, e.col_offset)
        if path.count(">") > 4:
            return None
        if isinstance(node, ast.Lambda):
            return self.ex(node.body, inner, Frame(fr.fold, path, fr.depth + 1))
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
            return None
        v, after = self.function(node, inner, {}, path, fr.depth + 1)
        if outer:
            own = set(ps) | stored(node)
            free = {n for x in ast.walk(node) if isinstance(x, ast.Nonlocal) for n in x.names}
            for n in touched(node) | free:
                if (n not in own or n in free) and n in env and n in after and not isinstance(after[n], Closure):
                    env[n] = after[n]
        else:
            # what the helper writes into its arguments
            for p in ps:
                if p in after and not isinstance(after[p], Closure) and p not in stored(node) and after[p] != inner[p]:
                    x = dict(zip(pos, e.args)).get(p)
                    for k in e.keywords:
                        if k.arg == p:
                            x = k.value
                    if isinstance(x, ast.Name) and x.id in env:
                        env[x.id] = after[p]
        return v


def params(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def loadable(t):
    return t


def stored(node):
    """names a statement assigns, nested functions apart"""
    r = set()

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                r.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                r.add(c.id)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                r.update((a.asname or a.name).split(".")[0] for a in c.names)
            walk(c)
    walk(node)
    return r


def touched(node):
    """names whose contents a statement may change"""
    r = set()
    for n in ast.walk(node):
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            b = base(n)
            if b:
                r.add(b)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            b = base(n.func)
            if b and (n.func.attr in MUTATORS or b in DRAWS):
                r.add(b)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            for a in n.value.args:
                b = base(a)
                if b:
                    r.add(b)
            if isinstance(n.value.func, ast.Attribute):
                b = base(n.value.func)
                if b and b not in SAFE:
                    r.add(b)
    return r


def strip(E, v):
    """a result without its log"""
    t = E.T.terms[v]
    if t[0] == "ret":
        return t[1]
    if t[0] == "ite":
        return E.ite(t[1], strip(E, t[2]), strip(E, t[3]))
    if t[0] in ("tuple", "list") and len(t[1]) > 1:
        return t[1][0] if len(t[1]) == 2 else E.tuple(list(t[1][:-1]))
    # one result per problem
    if t[0] == "call" and isinstance(t[1], int) and t[2] and not t[3]:
        f = E.T.terms[t[1]]
        if f == ("g", "list"):
            return E.T.mk("call", t[1], (strip(E, t[2][0]),) + t[2][1:], t[3])
        if f == ("g", "map") and E.T.terms[t[2][0]][0] == "fun":
            g = E.T.terms[t[2][0]]
            return E.T.mk("call", t[1], (E.T.mk("fun", g[1], strip(E, g[2]), g[3]),) + t[2][1:], t[3])
    if t[0] == "comp" and t[1] in ("ListComp", "GeneratorExp"):
        return E.T.mk("comp", t[1], t[2], (strip(E, t[3][0]),))
    return v


def differ(T, a, b, da, db):
    """the first place where two values (with the definitions of their loops) are not the same, or None"""
    seen = set()
    todo = [(a, b)]
    while todo:
        x, y = todo.pop()
        if (x, y) in seen:
            continue
        seen.add((x, y))
        s, t = T.terms[x], T.terms[y]
        if s[0] in ("lv", "exit", "nobreak", "it") and t[0] == s[0]:
            if s[1] != t[1]:
                return x, y
            L = s[1]
            ca, ea = da.get(L, ((), {}))
            cb, eb = db.get(L, ((), {}))
            if len(ca) != len(cb):
                return x, y
            todo += list(zip(ca, cb))
            if s[0] in ("lv", "exit"):
                p, q = ea.get(s[2]), eb.get(t[2])
                if p is None or q is None or len(p[2]) != len(q[2]):
                    if p is not q:
                        return x, y
                    continue
                todo += [(p[0], q[0]), (p[1], q[1])] + list(zip(p[2], q[2]))
            continue
        if x == y:
            todo += [(k, k) for k in kids(s)]
            continue
        if s[0] != t[0] or len(s) != len(t):
            return x, y
        ks, kt = kids(s), kids(t)
        if shape(s) != shape(t) or len(ks) != len(kt):
            return x, y
        todo += list(zip(ks, kt))
    return None


INTS = {"c": (), "opt": (), "sym": (), "g": (), "import": (), "arg": (), "cv": (), "exc": (), "undef": (), "raise": (), "ellipsis": (), "fun?": ()}


def kids(t):
    """the terms inside a term"""
    k = t[0]
    if k in INTS or k in ("lv", "exit", "nobreak", "it"):
        return []
    if k == "ret":
        return [t[1]]
    if k == "fun":
        return [t[2]] + list(t[3])
    if k == "unpack":
        return [t[1]]
    if k == "call":
        return ([t[1]] if isinstance(t[1], int) else []) + list(t[2]) + [v for _, v in t[3]]
    if k == "do":
        return list(t[2]) + [v for _, v in t[3]]
    if k == "dict":
        return [x for p in t[1] for x in p]
    if k == "comp":
        return [y for it, ifs in t[2] for y in (it,) + ifs] + list(t[3])
    if k == "attr":
        return [t[1]]
    if k == "storeattr":
        return [t[1], t[3]]
    if k == "mut":
        return [t[1]] + list(t[2]) + [t[3]]
    if k in ("bin", "un", "expr"):
        return list(t[2:])
    if k in ("bool",):
        return list(t[2])
    if k == "cmp":
        return [t[2]] + list(t[3])
    if k in ("tuple", "list", "fstr"):
        return list(t[1])
    return [x for x in t[1:] if isinstance(x, int)]


def shape(t):
    """what of a term is not a term"""
    k = t[0]
    if k in INTS:
        return t
    if k == "ret":
        return (k,)
    if k == "call":
        return (k, t[1] if isinstance(t[1], str) else None, len(t[2]), tuple(n for n, _ in t[3]))
    if k == "do":
        return (k, t[1], len(t[2]), tuple(n for n, _ in t[3]))
    if k in ("attr", "storeattr"):
        return (k, t[2])
    if k in ("bin", "un", "expr", "bool"):
        return (k, t[1], len(t))
    if k == "cmp":
        return (k, t[1])
    if k == "comp":
        return (k, t[1], tuple(len(x[1]) for x in t[2]))
    if k == "fun":
        return (k, t[1], len(t[3]))
    if k == "unpack":
        return (k,) + t[2:]
    if k in ("tuple", "list", "fstr", "dict"):
        return (k, len(t[1]))
    if k == "mut":
        return (k, len(t[2]))
    return (k, len(t))

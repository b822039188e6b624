"""Abstract interpreter over the syntax trees of the analysed package.

A forward dataflow analysis: values are joined at merge points, loops run to a fixpoint,
states are kept apart (trace partitioning) only by the value of flags. Calls inside the
package are evaluated through memoised parametric summaries. No code of the package runs."""

import ast

from .project import FuncInfo, ClassInfo, AnalysisBroken
from .values import *
from . import models

MAXSTATES = 16
MAXDEPTH = 14


class Infeasible(Exception):
    """evaluation cannot complete normally; exc = name of the exception raised, or None"""

    def __init__(self, exc=None):
        self.exc = exc


class BadCall(Infeasible):
    """arguments do not fit the parameters"""

    def __init__(self, msg):
        self.exc = "TypeError"
        self.msg = msg

    def __str__(self):
        return self.msg


class State:
    __slots__ = ("env", "heap", "ev", "conds")

    def __init__(self, env=None, heap=None, ev=EMPTY, conds=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.ev = ev
        self.conds = conds if conds is not None else {}

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.ev, dict(self.conds))

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()), self.ev, frozenset(self.conds.items()))

    def assign_name(self, n, v):
        self.env[n] = v
        if self.conds:
            for k in [k for k in self.conds if n in k[1]]:
                del self.conds[k]


def join_ev(a, b):
    """must-events are intersected; may-events (leading '+') are united"""
    if a == b:
        return a
    return (a & b) | frozenset(e for e in a | b if e[0] == "+")


def join_states(states):
    s = states[0].copy()
    for o in states[1:]:
        for n in set(s.env) | set(o.env):
            a, b = s.env.get(n), o.env.get(n)
            if a is None:
                a = V(frozenset([UNDEF]))
            if b is None:
                b = V(frozenset([UNDEF]))
            s.env[n] = join(a, b)
        for h in set(s.heap) | set(o.heap):
            a, b = s.heap.get(h), o.heap.get(h)
            s.heap[h] = a if b is None else (b if a is None else join_obj(a, b))
        s.ev = join_ev(s.ev, o.ev)
        s.conds = {k: v for k, v in s.conds.items() if o.conds.get(k) == v}
    return s


def _disc(v):
    """the part of a value that keeps states apart"""
    if UNDEF in v.atoms:
        return "U" if len(v.atoms) == 1 else "U?"
    if len(v.atoms) == 1:
        (a,) = v.atoms
        if a[0] == "c" and a[1] in ("bool", "NoneType", "str"):
            return a
        if a[0] in ("f", "o+", "o-", "nx"):
            return a[:2]
        if a[0] == "t":
            return ("t", len(a[2]))
    return None


def signature(s):
    return (
        s.ev,
        frozenset((n, d) for n, v in s.env.items() for d in (_disc(v),) if d is not None),
        frozenset((h, o.kind, tuple(k for k, _ in o.items), o.may) for h, o in s.heap.items() if o.kind == "dict"),
    )


def merge(states, cap=MAXSTATES):
    if len(states) <= 1:
        return states
    groups = {}
    for s in states:
        groups.setdefault(signature(s), []).append(s)
    out = [join_states(g) for g in groups.values()]
    if len(out) > cap:
        g2 = {}
        for s in out:
            k = (s.ev, frozenset((n, "U") for n, v in s.env.items() if UNDEF in v.atoms))
            g2.setdefault(k, []).append(s)
        out = [join_states(g) for g in g2.values()]
    if len(out) > cap:
        g2 = {}
        for s in out:
            g2.setdefault(s.ev, []).append(s)
        out = [join_states(g) for g in g2.values()]
    if len(out) > cap:
        out = [join_states(out)]
    return out


class Out:
    __slots__ = ("normal", "ret", "brk", "cont", "exc")

    def __init__(self, normal=None):
        self.normal = normal or []
        self.ret = []
        self.brk = []
        self.cont = []
        self.exc = []

    def absorb(self, o):
        self.ret += o.ret
        self.brk += o.brk
        self.cont += o.cont
        self.exc += o.exc


class Summary:
    __slots__ = ("outs", "exc", "facts", "done")

    def __init__(self):
        self.outs = []  # (V, {objid: Obj}, ev)
        self.exc = set()  # exception names
        self.facts = set()
        self.done = False


class Frame:
    __slots__ = ("fi", "facts", "catch", "escaped", "depth", "ctx", "loops")

    def __init__(self, fi, depth):
        self.fi = fi
        self.facts = set()
        self.catch = 0
        self.loops = 0
        self.escaped = set()
        self.depth = depth


class Interp:
    def __init__(self, project, opts=None):
        self.p = project
        self.o = dict(
            unk_raises=True,
            record_calls=False,
            positive_limits=True,
        )
        self.o.update(opts or {})
        self.memo = {}
        self.frames = []
        self.capdeps = {}  # (nested function, "^captured name") -> what it depends on where the function is called
        self.callsites = {}  # (caller fid, lineno, col, callee fid) -> {param: (deps, passed?)}
        self.opaque_calls = {}
        self.nfuncs = set()
        self.ncalls = 0
        self.modconst = {}
        self.backend_methods = {}
        b = project.lookup("ot.backend", "Backend")
        if not b or b[0] != "class":
            raise AnalysisBroken("class Backend not found in ot.backend")
        self.backend_base = b[1]
        self.hooks = {}
        self.fold = None  # If/IfExp node of the entry function -> truth values reached

    # ------------------------------------------------------------ entry points
    def entry_value(self, fi, name, st, types=None):
        """the most general value of a parameter, from its default and its documentation"""
        from .project import doc_params

        lab = frozenset([name])
        t = (types if types is not None else doc_params(fi.doc)).get(name, "")
        tl = t.lower()
        at = set()
        d = fi.defaults.get(name)
        if name == fi.vararg or name == fi.kwarg:
            oid = ("P", name)
            if name == fi.kwarg:
                st.heap[oid] = Obj("dict", (), EMPTY, True, opq(lab, lab), absent=frozenset(fi.params) - {name})
            else:
                st.heap[oid] = Obj("list", elem=opq(lab, lab))
            return V(frozenset([("h", oid)]), lab, lab)
        if name in models.NX_PARAMS or (name == "backend" and isinstance(d, ast.Constant) and d.value is None):
            return V(frozenset([NX, NONE]) if d is not None else frozenset([NX]), lab)
        dv = None
        if isinstance(d, ast.Constant):
            dv = d.value
        elif isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant):
            dv = 0.0
        scalar_doc = models.scalar_doc(t)
        if isinstance(dv, bool):
            return V(frozenset([TRUE, FALSE]), lab)
        if isinstance(dv, str):
            at.add(ANYSTR)
            if "callable" in tl or "tuple" in tl or "function" in tl or "array" in tl:
                at.add(OPQ)
        elif isinstance(dv, (int, float)) and d is not None:
            at.add(("n", self.num_sign(name)))
            if "array" in tl or "tuple" in tl or "list" in tl:
                at.add(OPQ)
            if "str" in tl or '"' in tl:
                at.add(ANYSTR)
        elif d is None or dv is None:
            if d is not None and isinstance(d, ast.Constant):
                at.add(NONE)
            if scalar_doc == "num":
                at.add(("n", self.num_sign(name)))
            elif scalar_doc == "str":
                at.add(ANYSTR)
                if "callable" in tl or "tuple" in tl or "array" in tl:
                    at.add(OPQ)
            elif scalar_doc == "bool":
                at |= {TRUE, FALSE}
            else:
                at.add(OPQ)
            if name in models.LIMIT_NAMES and "array" not in tl:
                at = {a for a in at if a != OPQ} | {("n", "pos")}
        else:
            at.add(OPQ)
        if OPQ not in at and "str" in fi.isinst.get(name, ()):
            at.add(ANYSTR)
        if OPQ not in at and fi.isinst.get(name, EMPTY) - {"str", "float", "int", "bool"}:
            at.add(OPQ)  # the body itself expects other kinds of values
        opqish = OPQ in at
        return V(norm_atoms(frozenset(at)), lab, lab if opqish else EMPTY)

    def num_sign(self, name):
        return "pos" if name in models.LIMIT_NAMES else "any"

    def run_entry(self, fi, override=None, selfcls=None):
        """Analyse a function for all arguments (override: {param: V})."""
        from .project import doc_params

        st = State()
        types = doc_params(fi.doc)
        if fi.cls is not None and not types:
            types = doc_params(__import__("ast").get_docstring(fi.cls.node))
        for i, n in enumerate(fi.params):
            if i == 0 and fi.cls is not None and fi.kind != "staticmethod":
                if fi.kind == "classmethod":
                    st.env[n] = V(frozenset([("cls", (selfcls or fi.cls).cid)]))
                else:
                    oid = ("self",)
                    st.heap[oid] = Obj("inst", (), EMPTY, True, None, None, (selfcls or fi.cls).cid)
                    st.env[n] = V(frozenset([("h", oid)]), frozenset(["self"]), frozenset(["self"]))
                continue
            if override and n in override:
                v = override[n]
                if callable(v):
                    v = v(st)
                st.env[n] = v
            else:
                st.env[n] = self.entry_value(fi, n, st, types)
        caps = {}
        for n in fi.free or ():
            v = self.capture_for_entry(fi, n)
            if v is not None:
                caps[n] = v
        return self.exec_function(fi, st, caps, 0)

    def capture_for_entry(self, fi, n):
        p = fi.parent
        while p is not None:
            if n in p.locals_:
                return opq(frozenset(["^" + n]), frozenset(["^" + n]))
            p = p.parent
        return None

    # ------------------------------------------------------------ functions
    def exec_function(self, fi, st, caps, depth):
        """returns Summary in the label space of fi; st holds the bound parameters"""
        self.nfuncs.add(fi.fid)
        fr = Frame(fi, depth)
        fr.ctx = caps
        self.frames.append(fr)
        try:
            if isinstance(fi.node, ast.Lambda):
                out = Out()
                try:
                    v = self.eval(fi.node.body, st)
                    out.ret.append((st, v))
                except Infeasible as e:
                    out.exc.append((st, e.exc))
            else:
                out = self.block(fi.node.body, [st])
                for s in out.normal:
                    out.ret.append((s, VNONE))
            # closures that escape through the return value or as arguments of unknown code
            if depth == 0:
                for s, v in out.ret:
                    self.escape_result(v, s, fr, set())
            self.run_escaped(fr, out)
        finally:
            self.frames.pop()
        sm = Summary()
        sm.facts = fr.facts
        sm.exc = {e for _, e in out.exc}
        if fi.is_gen:
            out.ret = [(s, opq(v.deps)) for s, v in out.ret]
        groups = {}
        for s, v in out.ret:
            heap = self.reachable(s, [v], extra=[h for h in s.heap if h[0] in ("P", "A", "self")])
            shape = (s.ev, self.shape(v, s.heap))
            if shape in groups:
                pv, ph = groups[shape]
                nh = dict(ph)
                for k, o in heap.items():
                    nh[k] = join_obj(nh[k], o) if k in nh else o
                groups[shape] = (join(pv, v), nh)
            else:
                groups[shape] = (v, heap)
        sm.outs = [(v, h, k[0]) for k, (v, h) in groups.items()]
        if len(sm.outs) > 6:
            v = join_all([x[0] for x in sm.outs])
            h = {}
            ev = None
            for _, hh, e in sm.outs:
                for k, o in hh.items():
                    h[k] = join_obj(h[k], o) if k in h else o
                ev = e if ev is None else join_ev(ev, e)
            sm.outs = [(v, h, ev)]
        sm.done = True
        return sm

    def escape_result(self, v, st, fr, seen):
        for a in v.atoms:
            if a[0] == "f" and self.p.funcs[a[1]].parent is not None:
                for b in self.freeze(V(frozenset([a])), st).atoms:
                    fr.escaped.add((b[1], b[2] or ()))
            elif a[0] == "t":
                for x in a[2]:
                    self.escape_result(x, st, fr, seen)
            elif a[0] == "h" and a[1] in st.heap and a[1] not in seen:
                seen.add(a[1])
                o = st.heap[a[1]]
                for x in [y for _, y in o.items] + list(o.exact or ()) + ([o.elem] if o.elem is not None else []):
                    self.escape_result(x, st, fr, seen)

    def run_escaped(self, fr, out):
        for fid, caps in list(fr.escaped):
            g = self.p.funcs[fid]
            st = State()
            for n in g.params:
                st.env[n] = self.entry_value(g, n, st)
            self.call_func_with(g, st, dict(caps), None)

    def shape(self, v, heap):
        r = []
        for a in v.atoms:
            if a[0] == "t":
                r.append(("t", len(a[2])))
            elif a[0] == "h":
                o = heap.get(a[1])
                r.append(("h", o.kind if o else None))
            elif a[0] == "c" and a[1] in ("NoneType", "bool"):
                r.append(a)
            elif a[0] == "f":
                r.append(("f", a[1]))
            else:
                r.append("x")
        return frozenset(r)

    def reachable(self, st, vs, extra=()):
        seen = {}
        todo = list(extra)

        def visit(v):
            for a in v.atoms:
                if a[0] == "h":
                    todo.append(a[1])
                elif a[0] == "t":
                    for x in a[2]:
                        visit(x)
                elif a[0] == "f":
                    for _, x in a[2]:
                        visit(x)
                elif a[0] in ("m", "am", "sm", "bdm", "partial", "super"):
                    for x in a[2:]:
                        if isinstance(x, V):
                            visit(x)

        for v in vs:
            visit(v)
        while todo:
            h = todo.pop()
            if h in seen or h not in st.heap:
                continue
            o = st.heap[h]
            seen[h] = o
            for v in o.values():
                visit(v)
        return seen

    # label / object renaming over values
    def map_v(self, v, lab, hid, memo):
        if v in memo:
            return memo[v]
        ats = []
        for a in v.atoms:
            ats.append(self.map_atom(a, lab, hid, memo))
        r = V(norm_atoms(frozenset(ats)), lab(v.deps), lab(v.alias, True), v.ann)
        memo[v] = r
        return r

    def map_atom(self, a, lab, hid, memo):
        t = a[0]
        if t == "h":
            return ("h", hid(a[1]))
        if t == "t":
            return ("t", a[1], tuple(self.map_v(x, lab, hid, memo) for x in a[2]))
        if t == "f":
            return ("f", a[1], tuple((n, self.map_v(x, lab, hid, memo)) for n, x in a[2]))
        if t in ("m", "am", "sm", "super"):
            return (t, a[1]) + tuple(self.map_v(x, lab, hid, memo) if isinstance(x, V) else x for x in a[2:])
        if t == "bdm":
            return (t, a[1], hid(a[2]))
        if t == "partial":
            return (t, self.map_v(a[1], lab, hid, memo),
                    tuple(self.map_v(x, lab, hid, memo) for x in a[2]),
                    tuple((n, self.map_v(x, lab, hid, memo)) for n, x in a[3]))
        return a

    def call_func_with(self, g, bound, caps, site):
        """g called with bound (State whose env holds params as caller values and whose heap is
        the caller's heap). Returns (V, heap updates, ev) in caller space; raises Infeasible."""
        fr = self.frames[-1] if self.frames else None
        depth = fr.depth + 1 if fr else 0
        if depth > MAXDEPTH:
            return opq(frozenset().union(*[v.deps for v in bound.env.values()]) if bound.env else EMPTY)
        # canonicalise
        subst = {}
        cenv = {}
        cheap = {}
        order = {}
        inv = {}

        def hid(h):
            if h not in order:
                c = ("A", len(order))
                order[h] = c
                inv[c] = h
            return order[h]

        reach = {}
        vals = dict(bound.env)
        reach = self.reachable(State({}, bound.heap), list(vals.values()) + list(caps.values()))
        lab_memo = {}
        owner = {}  # label in the callee -> caller V labels

        def canon(v, name):
            L = frozenset([name])
            subst[name] = (subst[name][0] | v.deps, subst[name][1] | v.alias) if name in subst else (v.deps, v.alias)
            memo = {}

            def lab(ls, al=False):
                return L if ls else EMPTY

            r = self.map_v(v, lab, hid, memo)
            return self.seed(r, L)

        for n, v in vals.items():
            cenv[n] = canon(v, n)
        ccaps = {}
        for n, v in caps.items():
            ccaps[n] = canon(v, "^" + n)
        # heap objects: their contents get the label of the object
        todo = list(order)
        done = set()
        while todo:
            h = todo.pop()
            if h in done or h not in bound.heap:
                continue
            done.add(h)
            c = order[h]
            o = bound.heap[h]
            hl = "@%d" % c[1]
            dd, aa = EMPTY, EMPTY
            for v in o.values():
                dd |= v.deps
                aa |= v.alias
            subst[hl] = (dd, aa)
            if g.parent is not None and self.o["record_calls"]:
                self.capdeps.setdefault((g.fid, hl), set()).update(dd)

            def lab2(ls, al=False, hl=hl):
                return frozenset([hl]) if ls else EMPTY

            memo = {}
            before = set(order)
            cheap[c] = o.map(lambda v: self.map_v(v, lab2, hid, memo))
            todo += [x for x in order if x not in before]
        key = (g.fid, frozenset(cenv.items()), frozenset(ccaps.items()), frozenset(cheap.items()))
        sm = self.memo.get(key)
        if sm is None:
            sm = Summary()
            self.memo[key] = sm
            for _ in range(3):
                st = State(dict(cenv), dict(cheap))
                new = self.exec_function(g, st, ccaps, depth)
                same = new.outs == sm.outs and new.facts == sm.facts
                rec = getattr(self, "_rec", None)
                self.memo[key] = new
                used = key in self._inprog_used if hasattr(self, "_inprog_used") else False
                sm = new
                if same or not used:
                    break
                self._inprog_used.discard(key)
        elif not sm.done:
            if not hasattr(self, "_inprog_used"):
                self._inprog_used = set()
            self._inprog_used.add(key)
        # back to the caller
        def labb(ls, al=False):
            r = set()
            for l in ls:
                if l in subst:
                    r |= subst[l][1 if al else 0]
                elif l.startswith("self.") and "self" in subst:
                    r |= subst["self"][1 if al else 0]
            return frozenset(r)

        def labr(ls):
            """labels of a seed: a parameter bound to a number is a constant seed"""
            r = set(x for x in ls if x[0] == "#")
            for x in ls:
                if x in vals and not vals[x].deps and vals[x].atoms and all(
                        a[0] == "n" or (a[0] == "c" and a[1] == "int") for a in vals[x].atoms):
                    r.add("#const")
                else:
                    r |= labb((x,))
            return frozenset(r)

        # facts
        if fr is not None:
            for f in sm.facts:
                if f[0] == "mut":
                    for l in subst.get(f[1], (EMPTY, EMPTY))[1]:
                        fr.facts.add(("mut", l) + f[2:])
                elif f[0] == "attrunset":
                    if f[4] in inv:
                        fr.facts.add(f[:4] + (inv[f[4]],))
                elif f[0] == "rngdraw":
                    fr.facts.add(f[:4] + (labr(f[4]),))
                else:
                    fr.facts.add(f)
        if not sm.outs:
            excs = sm.exc
            raise Infeasible(sorted(excs, key=str)[0] if excs else None)

        tag = (site, g.fid)

        def hidb(c):
            if c in inv:
                return inv[c]
            return shorten(("N", tag, c))

        res = []
        for v, h, ev in sm.outs:
            memo = {}
            nv = self.map_v(v, labb, hidb, memo)
            nh = {}
            for k, o in h.items():
                nh[hidb(k)] = o.map(lambda x: self.map_v(x, labb, hidb, memo))
            if any(type(x) is tuple for x in ev):
                ev = frozenset((x[0], labr(x[1])) if type(x) is tuple else x for x in ev)
            res.append((nv, nh, ev))
        return res

    def seed(self, v, L):
        """a parameter value carries its own label"""
        return V(v.atoms, v.deps | L, v.alias, v.ann)

    # ------------------------------------------------------------ statements
    def block(self, stmts, states):
        out = Out(states)
        for s in stmts:
            if not out.normal:
                break
            cur = merge(out.normal)
            out.normal = []
            for st in cur:
                o = self.stmt(s, st)
                out.normal += o.normal
                out.absorb(o)
        out.normal = merge(out.normal)
        return out

    def stmt(self, s, st):
        try:
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                raise AnalysisBroken("statement kind %s not supported at %s" % (type(s).__name__, self.frames[-1].fi.where(s)))
            return m(s, st)
        except Infeasible as e:
            o = Out()
            if e.exc is not None:
                o.exc.append((st, e.exc))
            return o

    def s_Pass(self, s, st):
        return Out([st])

    def s_Expr(self, s, st):
        self.eval(s.value, st)
        return Out([st])

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return Out([st])

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)
        return Out([st])

    def s_AugAssign(self, s, st):
        load = ast.copy_location(_as_load(s.target), s.target)
        old = self.eval(load, st)
        rhs = self.eval(s.value, st)
        hs = [a for a in old.atoms if a[0] == "h"]
        res = self.binop(s.op, old, rhs, st)
        arr = any(a[0] in ("o", "o+") for a in old.atoms)
        if isinstance(s.target, ast.Subscript):
            self.assign(s.target, res, st, aug=True)
            return Out([st])
        if arr and old.alias:
            # in place on arrays
            self.mutate(old, s, "augmented assignment to %s" % ast.unparse(s.target))
            res = res.with_(alias=old.alias)
        if hs:
            for a in hs:
                o = st.heap.get(a[1])
                if o is not None and o.kind == "list":
                    self.mut_obj(a[1], s, "+=", st)
                    e = self.elem_of(rhs, st)
                    st.heap[a[1]] = self.list_weak(o, e)
            res = old.with_(deps=old.deps | rhs.deps)
        self.assign(s.target, res, st)
        return Out([st])

    def assign(self, t, v, st, aug=False):
        if isinstance(t, ast.Name):
            fi = self.frames[-1].fi
            if t.id in fi.global_names:
                self.fact(("gstate", "global " + t.id, fi.fid, t.lineno))
                return
            st.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, opq(v.deps, v.alias), st)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            idx = self.eval(t.slice, st)
            self.store_sub(base, idx, v, t, st)
            if isinstance(t.value, ast.Name) and any(a[0] in ("o", "o+", "o-") for a in base.atoms):
                cur = st.env.get(t.value.id)
                if cur is not None:
                    st.assign_name(t.value.id, cur.with_(deps=cur.deps | v.deps | idx.deps))
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            self.store_attr(base, t.attr, v, t, st)
        else:
            raise AnalysisBroken("assignment target %s" % type(t).__name__)

    def unpack(self, t, v, st):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        cols = [[] for _ in range(n)]
        ok = False
        bad = []
        for a in v.atoms:
            items = None
            if a[0] == "t":
                items = a[2]
            elif a[0] == "h":
                o = st.heap.get(a[1])
                if o is not None and o.kind == "list" and o.exact is not None:
                    items = o.exact
                elif o is not None and o.kind == "list":
                    e = o.elem or opq()
                    for c in cols:
                        c.append(e)
                    ok = True
                    continue
            if items is not None:
                if star:
                    for c in cols:
                        c.append(join_all(items) if items else opq())
                    ok = True
                elif len(items) == n:
                    for c, x in zip(cols, items):
                        c.append(x)
                    ok = True
                else:
                    bad.append("a sequence of %d values" % len(items))
                continue
            if a == NONE:
                bad.append("None")
                continue
            if a[0] == "shape":
                ok = True
                for i, c in enumerate(cols):
                    c.append(num(v.deps, "pos").with_ann(self.shape_ann(v, i, n)))
                continue
            if a[0] in ("c", "len") and not (a[0] == "c" and a[1] == "str"):
                bad.append("a number")
                continue
            ok = True
            al = v.alias if a[0] in ("o", "o+", "o-") else EMPTY
            for c in cols:
                c.append(V(frozenset([OPQ]), v.deps, al, self.elem_ann(v)))
        if bad and not ok:
            self.crash("unpacks %s into %d names" % (" or ".join(sorted(set(bad))), n), t)
            raise Infeasible("ValueError")
        for e, c in zip(t.elts, cols):
            x = join_all(c) if c else opq(v.deps)
            if isinstance(e, ast.Starred):
                self.assign(e.value, opq(x.deps, x.alias), st)
            else:
                self.assign(e, x, st)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.assign_name(t.id, V(frozenset([UNDEF])))
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value, st)
                self.eval(t.slice, st)
                self.mutate(base, s, "del")
                for a in base.atoms:
                    if a[0] == "h" and a[1] in st.heap:
                        self.mut_obj(a[1], s, "del", st)
        return Out([st])

    def s_FunctionDef(self, s, st):
        fi = self.p.node_fid[s]
        st.assign_name(s.name, self.closure(fi, st))
        return Out([st])

    def s_ClassDef(self, s, st):
        ci = self.p.node_fid[s]
        st.assign_name(s.name, V(frozenset([("cls", ci.cid)])))
        return Out([st])

    def closure(self, fi, st):
        return V(frozenset([("f", fi.fid, None)]))

    def captures(self, fi, st):
        """values of the free variables of a nested function, as seen now"""
        caps = {}
        todo = [fi]
        for n in fi.free or ():
            v = self.lookup_local(n, st)
            if v is not None:
                caps[n] = v
        # functions that refer to each other
        return caps

    def lookup_local(self, n, st):
        fr = self.frames[-1]
        if n in st.env:
            return st.env[n]
        if n in fr.fi.locals_:
            return None
        if fr.ctx and n in fr.ctx:
            return fr.ctx[n]
        return None

    def freeze(self, v, st, seen=()):
        """give closures the values of their free variables (they leave this frame)"""
        if not any(a[0] in ("f", "t") for a in v.atoms):
            return v
        ats = []
        deps, alias = v.deps, v.alias
        for a in v.atoms:
            if a[0] == "f" and a[2] is None:
                g = self.p.funcs[a[1]]
                caps = {}
                if a[1] not in seen and g.parent is not None:
                    for n in g.free:
                        x = self.lookup_local(n, st)
                        if x is not None and UNDEF not in x.atoms:
                            caps[n] = self.freeze(x, st, tuple(seen) + (a[1],))
                            deps = deps | caps[n].deps
                            alias = alias | caps[n].alias
                ats.append(("f", a[1], tuple(sorted(caps.items()))))
            elif a[0] == "t":
                ats.append(("t", a[1], tuple(self.freeze(x, st, seen) for x in a[2])))
            else:
                ats.append(a)
        return V(frozenset(ats), deps, alias, v.ann)

    def s_Import(self, s, st):
        for al in s.names:
            name = al.asname or al.name.split(".")[0]
            dotted = al.name if al.asname else al.name.split(".")[0]
            at = ("mod", dotted) if dotted in self.p.mods else ("ext", dotted)
            st.assign_name(name, V(frozenset([at])))
        return Out([st])

    def s_ImportFrom(self, s, st):
        base = self.p.abs_module(self.frames[-1].fi.module, s)
        for al in s.names:
            r = self.p.lookup(base, al.name) if base in self.p.mods else None
            v = self.resolved(r) if r else V(frozenset([("ext", base + "." + al.name)]))
            st.assign_name(al.asname or al.name, v)
        return Out([st])

    def s_Global(self, s, st):
        return Out([st])

    s_Nonlocal = s_Global

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else VNONE
        v = self.freeze(v, st)
        for a in v.atoms:
            if a[0] == "f":
                self.frames[-1].escaped.add((a[1], a[2] if a[2] is not None else ()))
        o = Out()
        o.ret.append((st, v))
        return o

    def s_Raise(self, s, st):
        name = "Exception"
        if s.exc is not None:
            e = s.exc
            f = e.func if isinstance(e, ast.Call) else e
            name = ast.unparse(f).split(".")[-1]
            if isinstance(e, ast.Call):
                try:
                    for a in e.args:
                        self.eval(a, st)
                except Infeasible:
                    pass
        o = Out()
        o.exc.append((st, name))
        return o

    def s_Assert(self, s, st):
        o = Out()
        o.normal = self.assume(st.copy(), s.test, True)
        for x in self.assume(st, s.test, False):
            o.exc.append((x, "AssertionError"))
        return o

    def s_Break(self, s, st):
        o = Out()
        o.brk.append(st)
        return o

    def s_Continue(self, s, st):
        o = Out()
        o.cont.append(st)
        return o

    def s_If(self, s, st):
        o = Out()
        t = self.assume(st.copy(), s.test, True)
        f = self.assume(st, s.test, False)
        if self.fold is not None and (len(self.frames) == 1 or self.frames[-1].fi.parent is self.frames[0].fi):
            self.fold.setdefault(s, set()).update(([True] if t else []) + ([False] if f else []))
        if t:
            a = self.block(s.body, t)
            o.normal += a.normal
            o.absorb(a)
        if f:
            a = self.block(s.orelse, f)
            o.normal += a.normal
            o.absorb(a)
        return o

    def s_With(self, s, st):
        fr = self.frames[-1]
        n = 0
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if ("ctx", "warnings.catch_warnings") in v.atoms:
                n += 1
                fr.catch += 1
            if it.optional_vars is not None:
                self.assign(it.optional_vars, opq(v.deps), st)
        evs = st.ev
        o = self.block(s.body, [st])
        fr.catch -= n
        if n:
            # what is warned under catch_warnings does not reach the caller
            for x in o.normal:
                x.ev = frozenset(e for e in x.ev if e in evs or e != "warned")
        return o

    def s_Try(self, s, st):
        o = Out()
        entry = [st]
        mids = [st.copy()]
        cur = [st]
        body = Out()
        for b in s.body:
            if not cur:
                break
            nxt = []
            for x in merge(cur):
                r = self.stmt(b, x)
                nxt += r.normal
                body.ret += r.ret
                body.brk += r.brk
                body.cont += r.cont
                body.exc += r.exc
            cur = nxt
            mids += [x.copy() for x in nxt]
        o.ret += body.ret
        o.brk += body.brk
        o.cont += body.cont
        if s.handlers:
            for h in s.handlers:
                hs = [x.copy() for x in mids] + [x.copy() for x, _ in body.exc]
                hs = merge(hs)
                if h.name:
                    for x in hs:
                        x.assign_name(h.name, opq())
                r = self.block(h.body, hs)
                o.normal += r.normal
                o.absorb(r)
            for x, e in body.exc:
                if not any(_catches(h.type, e) for h in s.handlers):
                    o.exc.append((x, e))
        else:
            o.exc += body.exc
        if s.orelse:
            r = self.block(s.orelse, merge(cur)) if cur else Out()
            o.normal += r.normal
            o.absorb(r)
        else:
            o.normal += cur
        if s.finalbody:
            r = self.block(s.finalbody, merge(o.normal)) if o.normal else Out()
            if not o.normal and mids:
                self.block(s.finalbody, merge([x.copy() for x in mids]))
            rets = []
            for x, v in o.ret:
                q = self.block(s.finalbody, [x])
                rets += [(y, v) for y in q.normal]
            o.ret = rets
            o.normal = r.normal
            o.absorb(r)
        return o

    # loops
    def s_While(self, s, st):
        fr = self.frames[-1]
        fr.loops += 1
        try:
            o, exits = self.while_fix(s, st)
        finally:
            fr.loops -= 1
        return self.loop_exit(s, o, exits)

    def while_fix(self, s, st):
        o = Out()
        head = [st]
        exits = []
        seen = None
        first = None
        if self.counts(s.test, st):
            first = self.block(s.body, [st.copy()])
            head = first.normal + first.cont
            if not head:
                return first, []
        for it in range(12):
            head = merge(head, 8) if it < 6 else [join_states(head)]
            keyset = frozenset(h.key() for h in head)
            if keyset == seen:
                break
            seen = keyset
            o = Out()
            if first is not None:
                o.ret += first.ret
                o.exc += first.exc
                o.brk += first.brk
            exits = []
            nxt = []
            for h in head:
                exits += self.assume(h.copy(), s.test, False)
                t = self.assume(h.copy(), s.test, True)
                if t:
                    b = self.block(s.body, t)
                    nxt += b.normal + b.cont
                    o.ret += b.ret
                    o.exc += b.exc
                    o.brk += b.brk
            head = head + nxt
        return o, exits

    def counts(self, test, st):
        """a counter that is about to run from 0 to a number of turns, as range() does: the body is entered"""
        if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
            return False
        l, r = test.left, test.comparators[0]
        if isinstance(test.ops[0], ast.Gt):
            l, r = r, l
        elif not isinstance(test.ops[0], ast.Lt):
            return False
        if not (isinstance(l, ast.Name) and isinstance(r, ast.Name)):
            return False
        a, b = self.eval(l, st), self.eval(r, st)
        return a.atoms == frozenset([("c", "int", 0)]) and bool(b.atoms) and all(x[0] in ("o", "o+", "len") or x in (("n", "pos"), ("n", "nn")) for x in b.atoms)

    def loop_exit(self, s, o, exits):
        brk = o.brk
        o.brk = []
        exits = merge(exits)
        if s.orelse and exits:
            e = self.block(s.orelse, exits)
            o.normal += e.normal
            o.absorb(e)
        else:
            o.normal += exits
        o.normal += brk
        return o

    def s_For(self, s, st):
        itv = self.eval(s.iter, st)
        elems, at_least_one = self.iterate(itv, st)
        if elems is not None and len(elems) <= 12:
            # a literal sequence: unrolled
            o = Out()
            cur = [st]
            brk = []
            for e in elems:
                nxt = []
                for x in merge(cur):
                    try:
                        self.assign(s.target, e, x)
                    except Infeasible:
                        continue
                    b = self.block(s.body, [x])
                    nxt += b.normal + b.cont
                    o.ret += b.ret
                    o.exc += b.exc
                    brk += b.brk
                cur = nxt
            o.brk = brk
            return self.loop_exit(s, o, cur)
        fr = self.frames[-1]
        fr.loops += 1
        try:
            o, exits = self.for_fix(s, st, itv, at_least_one)
        finally:
            fr.loops -= 1
        return self.loop_exit(s, o, exits)

    def for_fix(self, s, st, itv, at_least_one):
        ev = self.elem_of(itv, st)
        head = [st]
        seen = None
        o = Out()
        after = []
        zero = [] if at_least_one else [st.copy()]
        for it in range(12):
            head = merge(head, 8) if it < 6 else [join_states(head)]
            keyset = frozenset(h.key() for h in head)
            if keyset == seen:
                break
            seen = keyset
            o = Out()
            after = []
            for h in head:
                x = h.copy()
                try:
                    self.assign(s.target, ev, x)
                except Infeasible:
                    continue
                b = self.block(s.body, [x])
                after += b.normal + b.cont
                o.ret += b.ret
                o.exc += b.exc
                o.brk += b.brk
            head = head + after
        return o, zero + after

    def in_loop(self):
        return self.frames[-1].loops > 0

    def iterate(self, v, st):
        """(exact element list or None, certainly non-empty)"""
        if len(v.atoms) == 1:
            (a,) = v.atoms
            if a[0] == "t":
                return list(a[2]), bool(a[2])
            if a[0] == "h" and a[1] in st.heap:
                o = st.heap[a[1]]
                if o.kind == "list" and o.exact is not None:
                    return list(o.exact), bool(o.exact)
                if o.kind == "dict" and not o.open and not o.may and o.elem is None:
                    return [const(k) for k, _ in o.items], bool(o.items)
            if a[0] == "range":
                sg = a[1]
                if sg == "pos":
                    return None, True
                if isinstance(sg, int):
                    return ([const(i) for i in range(sg)], sg > 0) if sg <= 6 else (None, sg > 0)
                return None, False
            if a[0] == "enum1" or a[0] in ("o", "o+", "shape", "glob"):
                return None, True
        return None, all(a[0] == "range" and a[1] == "pos" for a in v.atoms)

    def elem_of(self, v, st):
        r = []
        for a in v.atoms:
            if a[0] == "t":
                r += list(a[2]) or [opq()]
            elif a[0] == "h" and a[1] in st.heap:
                o = st.heap[a[1]]
                if o.kind in ("list", "set"):
                    if o.exact is not None:
                        r += list(o.exact)
                    if o.elem is not None:
                        r.append(o.elem)
                    if not o.exact and o.elem is None:
                        r.append(opq(v.deps))
                elif o.kind == "dict":
                    r += [const(k) for k, _ in o.items]
                    r.append(V(frozenset([ANYSTR])))
                else:
                    r.append(opq(v.deps, v.alias))
            elif a[0] == "range":
                r.append(num(v.deps, "nn"))
            elif a[0] == "shape":
                r.append(num(v.deps, "pos"))
            elif a[0] == "enum1" or a[0] == "zip":
                r.append(tup(a[2]))
            elif a[0] in ("s", "u") or (a[0] == "c" and a[1] == "str"):
                r.append(V(frozenset([ANYSTR]), v.deps))
            else:
                r.append(V(frozenset([OPQ]), v.deps, v.alias, self.elem_ann(v)))
        return join_all(r)

    def elem_ann(self, v):
        """what is known of the elements (arrays.py)"""
        return None

    def shape_ann(self, v, i, n):
        return None

    # ------------------------------------------------------------ conditions
    def cond_key(self, e):
        names = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                names.add(n.id)
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.NamedExpr, ast.Yield)):
                return None
        return (ast.dump(e), frozenset(names))

    def assume(self, st, e, truth):
        """states in which e evaluates to truth"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.assume(st, e.operand, not truth)
        if isinstance(e, ast.BoolOp):
            conj = isinstance(e.op, ast.And)
            if conj == truth:
                cur = [st]
                for v in e.values:
                    cur = [y for x in cur for y in self.assume(x, v, truth)]
                return cur
            res = []
            cur = [st]
            for v in e.values:
                nxt = []
                for x in cur:
                    res += self.assume(x.copy(), v, truth)
                    nxt += self.assume(x, v, not truth)
                cur = nxt
            return merge(res, 8)
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            parts = []
            l = e.left
            for op, r in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left=l, ops=[op], comparators=[r]), e))
                l = r
            return self.assume(st, ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), e), truth)
        if isinstance(e, ast.Compare):
            return self.assume_cmp(st, e, truth)
        if isinstance(e, ast.Constant):
            return [st] if bool(e.value) == truth else []
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id == "isinstance" and len(e.args) == 2:
                return self.assume_isinstance(st, e, truth)
            if isinstance(f, ast.Name) and f.id == "callable" and len(e.args) == 1:
                v = self.eval(e.args[0], st)
                yes = frozenset(a for a in v.atoms if a[0] in ("f", "m", "o", "o+", "ext", "cls", "partial", "am", "bm"))
                no = frozenset(a for a in v.atoms if a[0] not in ("f", "m", "ext", "cls", "partial", "am", "bm"))
                k = yes if truth else no
                if not k:
                    return []
                self.refine_path(st, e.args[0], v, k)
                return [st]
        v = self.eval(e, st)
        tv = self.truth(v, st)
        if truth not in tv:
            return []
        if len(tv) == 2:
            k = self.cond_key(e)
            if k is not None:
                old = st.conds.get(k)
                if old is not None and old != truth:
                    return []
            keep = frozenset(b for a in v.atoms for b in self.truth_atoms(a, truth, st))
            if isinstance(e, (ast.Name, ast.Attribute)):
                self.refine_path(st, e, v, keep)
            elif k is not None:
                st.conds[k] = truth
        return [st]

    def truth_atoms(self, a, truth, st):
        if a[0] == "o":
            return [OPQT if truth else OPQF]
        if truth and a in (LEN, ("n", "nn")):
            return [("n", "pos")]
        t = self.truth(V(frozenset([a])), st)
        return [a] if truth in t else []

    def truth(self, v, st):
        r = set()
        for a in v.atoms:
            t = a[0]
            if t == "c":
                r.add(bool(a[2]))
            elif t == "o+":
                r.add(True)
            elif t == "o-":
                r.add(False)
            elif t == "t":
                r.add(bool(a[2]))
            elif t in ("f", "m", "nx", "cls", "ext", "mod", "bm", "am", "sm", "bdm", "u", "partial"):
                r.add(True)
            elif t == "n":
                r |= {True} if a[1] == "pos" else {True, False}
            elif t == "h":
                o = st.heap.get(a[1])
                if o is None:
                    r |= {True, False}
                elif o.kind == "inst":
                    r.add(True)
                elif o.kind == "dict":
                    if any(k not in o.may for k, _ in o.items):
                        r.add(True)
                    elif not o.items and not o.open:
                        r.add(False)
                    else:
                        r |= {True, False}
                elif o.exact is not None:
                    r.add(bool(o.exact))
                elif o.elem is None:
                    r.add(False)
                else:
                    r |= {True, False}
            elif t == "undef":
                pass
            else:
                r |= {True, False}
        return r or {True, False}

    def path_of(self, e):
        """Name or obj.attr expression that can be refined, through str.lower() and the like"""
        while (
            isinstance(e, ast.Call)
            and isinstance(e.func, ast.Attribute)
            and e.func.attr in ("lower", "upper", "strip", "casefold")
            and not e.args
        ):
            e = e.func.value
        if isinstance(e, ast.NamedExpr):
            e = e.target
        return e

    def refine_path(self, st, e, v, keep):
        e = self.path_of(e)
        if not keep:
            return
        if isinstance(e, ast.Name):
            if e.id in st.env:
                cur = st.env[e.id]
                if UNDEF in cur.atoms:
                    pass
                st.env[e.id] = cur.with_(atoms=keep)
            elif self.frames[-1].ctx and e.id in self.frames[-1].ctx and e.id not in self.frames[-1].fi.locals_:
                st.env[e.id] = self.frames[-1].ctx[e.id].with_(atoms=keep)
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            b = st.env.get(e.value.id)
            if b is not None and len(b.atoms) == 1:
                (a,) = b.atoms
                if a[0] == "h" and a[1] in st.heap and st.heap[a[1]].kind == "inst":
                    o = st.heap[a[1]]
                    cur = o.get(e.attr) or v
                    st.heap[a[1]] = o.set(e.attr, cur.with_(atoms=keep))

    def assume_isinstance(self, st, e, truth):
        v = self.eval(e.args[0], st)
        tn = e.args[1]
        names = [ast.unparse(x) for x in tn.elts] if isinstance(tn, ast.Tuple) else [ast.unparse(tn)]
        names = [n.split(".")[-1] for n in names]
        yes, no = set(), set()
        for a in v.atoms:
            k = _kind_name(a, st)
            if k is None:  # unknown
                if a[0] in ("o", "o+", "o-") and truth and set(names) <= {"str"}:
                    yes.add(ANYSTR)
                elif a[0] in ("n", "len"):
                    if set(names) & {"float", "int"}:
                        yes.add(a)
                        if not {"float", "int"} <= set(names):
                            no.add(a)
                    elif set(names) & {"integer", "floating", "Number", "Real", "Integral", "number"}:
                        yes.add(a)
                        no.add(a)
                    else:
                        no.add(a)
                elif a[0] == "h" and st.heap.get(a[1]) is not None and st.heap[a[1]].kind == "inst":
                    o = st.heap[a[1]]
                    cs = [c.name for c in self.p.mro(self.p.classes[o.cid])] if o.cid in self.p.classes else []
                    if set(names) & set(cs):
                        yes.add(a)
                    else:
                        no.add(a)
                        if o.open:
                            yes.add(a)
                else:
                    yes.add(a)
                    no.add(a)
            elif k in names or (k == "bool" and "int" in names):
                yes.add(a)
            else:
                no.add(a)
        keep = yes if truth else no
        if not keep:
            return []
        key = self.cond_key(e)
        if yes and no and key is not None:
            if st.conds.get(key, truth) != truth:
                return []
        self.refine_path(st, e.args[0], v, frozenset(keep))
        if yes and no and key is not None:
            st.conds[key] = truth
        return [st]

    def literal_set(self, v, st):
        """V of a literal collection -> list of constants, or None"""
        if len(v.atoms) != 1:
            return None
        (a,) = v.atoms
        items = None
        if a[0] == "t":
            items = a[2]
        elif a[0] == "h" and a[1] in st.heap:
            o = st.heap[a[1]]
            if o.kind in ("list", "set") and o.exact is not None:
                items = o.exact
            elif o.kind == "dict" and not o.open and o.elem is None:
                if o.may:
                    return None
                return [("c", type(k).__name__, k) for k, _ in o.items]
        elif a[0] == "dkeys":
            return list(a[1])
        if items is None:
            return None
        r = []
        for x in items:
            if len(x.atoms) != 1:
                return None
            (b,) = x.atoms
            if b[0] != "c":
                return None
            r.append(b)
        return r

    def assume_cmp(self, st, e, truth):
        op = e.ops[0]
        l = self.eval(e.left, st)
        r = self.eval(e.comparators[0], st)
        neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
        want = truth != neg
        if isinstance(op, (ast.In, ast.NotIn)):
            lits = self.literal_set(r, st)
            if lits is not None:
                return self.filter_eq(st, e, e.left, l, lits, want)
            # x in dict with known keys
            res = self.dict_member(l, r, st)
            if res is not None:
                if UNK in l.atoms:
                    st.ev = st.ev | {"+consulted"}
                return [st] if want in res else []
            if r.atoms == frozenset([UNK]) and l.atoms and all(a[0] == "c" and a[1] == "str" and a[2] for a in l.atoms):
                st.ev = st.ev | {"+consulted"}  # substring test
                return [] if want else [st]
            if any(a[0] in ("h", "t") for a in r.atoms) and l.atoms == frozenset([UNK]):
                st.ev = st.ev | {"+consulted"}
                return [] if want else [st]
            return self.assume_opaque(st, e, truth)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            if len(r.atoms) == 1:
                (b,) = r.atoms
                if b[0] == "c":
                    return self.filter_eq(st, e, e.left, l, [b], want)
                if b[0] in ("ext", "mod", "cls", "f", "nx") and all(
                        a[0] in ("n", "c", "s", "u", "len", "shape") or (a == OPQT and b[0] != "f") for a in l.atoms):
                    return [] if want else [st]
            if len(l.atoms) == 1:
                (b,) = l.atoms
                if b[0] == "c":
                    return self.filter_eq(st, e, e.comparators[0], r, [b], want)
            if l.atoms <= {UNK} and all(a[0] == "c" for a in r.atoms):
                st.ev = st.ev | {"+consulted"}
                return [] if want else [st]
            return self.assume_opaque(st, e, truth)
        # ordering
        t = self.order(op, l, r)
        if truth not in t:
            return []
        if len(t) == 1:
            return [st]
        return self.assume_opaque(st, e, truth)

    def order(self, op, l, r):
        res = set()
        for a in l.atoms:
            for b in r.atoms:
                res |= self.order1(op, a, b)
        return res

    def order1(self, op, a, b):
        both = {True, False}
        if b == NEVER and a != NEVER:
            return {isinstance(op, (ast.Gt, ast.GtE))}
        if a == NEVER and b != NEVER:
            return {isinstance(op, (ast.Lt, ast.LtE))}
        if a[0] == "c" and b[0] == "c":
            try:
                x, y = a[2], b[2]
                if isinstance(op, ast.Lt):
                    return {x < y}
                if isinstance(op, ast.LtE):
                    return {x <= y}
                if isinstance(op, ast.Gt):
                    return {x > y}
                if isinstance(op, ast.GtE):
                    return {x >= y}
            except TypeError:
                return both
        if a[0] == "n" and b[0] == "c" and b[1] in ("int", "float"):
            y = b[2]
            if a[1] == "pos":
                if y <= 0:
                    return {isinstance(op, (ast.Gt, ast.GtE))}
                if y == 1 and b[1] == "int" and isinstance(op, (ast.Lt,)):
                    return {False}
                if y == 1 and b[1] == "int" and isinstance(op, (ast.GtE,)):
                    return {True}
            if a[1] == "nn" and y < 0:
                return {isinstance(op, (ast.Gt, ast.GtE))}
            if a[1] == "nn" and y == 0:
                if isinstance(op, ast.Lt):
                    return {False}
                if isinstance(op, ast.GtE):
                    return {True}
        return both

    def filter_eq(self, st, e, path, v, lits, want):
        """refine v (value of path) to be equal (want) or different from all of lits"""
        litset = set(lits)
        strs = {b[2] for b in lits if b[1] == "str"}
        nums = [b for b in lits if b[1] in ("int", "float", "bool")]
        keep = set()
        undecided = False
        consulted = False
        for a in v.atoms:
            t = a[0]
            if t == "c":
                hit = a in litset or (
                    a[1] in ("int", "float", "bool") and any(b[2] == a[2] for b in nums)
                )
                if hit == want:
                    keep.add(a)
            elif t == "s":
                if want:
                    for x in strs:
                        if x not in a[1]:
                            keep.add(("c", "str", x))
                else:
                    keep.add(("s", a[1] | strs))
            elif t == "u":
                if strs:
                    consulted = True
                if not want:
                    keep.add(a)
            elif t == "n":
                if nums:
                    undecided = True
                    if want:
                        for b in nums:
                            if a[1] == "any" or (a[1] == "nn" and b[2] >= 0) or (a[1] == "pos" and b[2] > 0):
                                keep.add(b)
                    else:
                        if a[1] == "nn" and any(b[2] == 0 for b in nums):
                            keep.add(("n", "pos") if False else a)
                        else:
                            keep.add(a)
                elif not want:
                    keep.add(a)
            elif t in ("o", "o+", "o-"):
                none_only = litset == {NONE}
                if none_only:
                    if not want:
                        keep.add(a)
                else:
                    undecided = True
                    keep.add(a)
                    if want and strs and len(lits) == len(strs) and t != "o-":
                        pass
            elif t == "undef":
                pass
            else:
                if t in ("t", "f", "m", "nx", "h", "mod", "cls", "ext", "bm", "never", "am", "sm", "bdm", "partial", "range"):
                    if not want:
                        keep.add(a)
                else:
                    undecided = True
                    keep.add(a)
        if consulted:
            st.ev = st.ev | {"+consulted"}
        if not keep:
            return []
        key = None
        if undecided:
            key = self.cond_key(e)
            truth = want != isinstance(e.ops[0], (ast.NotEq, ast.IsNot, ast.NotIn))
            if key is not None and st.conds.get(key, truth) != truth:
                return []
        self.refine_path(st, path, v, norm_atoms(frozenset(keep)))
        if key is not None:
            st.conds[key] = truth
        return [st]

    def dict_member(self, l, r, st):
        res = set()
        for b in r.atoms:
            if b[0] != "h" or b[1] not in st.heap:
                return None
            o = st.heap[b[1]]
            if o.kind == "list" and o.exact is None and o.elem is None:
                res.add(False)
                continue
            if o.kind != "dict":
                return None
            for a in l.atoms:
                if a[0] == "c":
                    if o.get(a[2]) is not None:
                        res.add(True)
                        if a[2] in o.may:
                            res.add(False)
                    elif o.open and a[2] not in o.absent:
                        res |= {True, False}
                    else:
                        res.add(False)
                elif a == UNK:
                    res |= {True, False} if o.open and not o.items else {False}
                else:
                    res |= {True, False}
        return res

    def assume_opaque(self, st, e, truth):
        neg = isinstance(e.ops[0], (ast.NotEq, ast.IsNot, ast.NotIn))
        k = self.cond_key(e)
        if k is not None:
            old = st.conds.get(k)
            if old is not None and old != truth:
                return []
            st.conds[k] = truth
        return [st]

    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken("expression kind %s not supported at %s" % (type(e).__name__, self.frames[-1].fi.where(e)))
        return m(e, st)

    def e_Constant(self, e, st):
        if isinstance(e.value, (bytes, complex)) or e.value is Ellipsis:
            return opq()
        return const(e.value)

    def e_Name(self, e, st):
        n = e.id
        fr = self.frames[-1]
        if n in st.env:
            v = st.env[n]
            if UNDEF in v.atoms:
                self.fact(("undef", n, fr.fi.fid, e.lineno))
                rest = v.atoms - {UNDEF}
                if not rest:
                    raise Infeasible("UnboundLocalError")
                v = v.with_(atoms=rest)
                st.env[n] = v
            return v
        if n in fr.fi.locals_ and not isinstance(fr.fi.node, ast.Lambda):
            self.fact(("undef", n, fr.fi.fid, e.lineno))
            raise Infeasible("UnboundLocalError")
        if fr.ctx and n in fr.ctx:
            v = fr.ctx[n]
            if UNDEF in v.atoms:
                v = v.with_(atoms=v.atoms - {UNDEF} or frozenset([OPQ]))
            return v
        # nested function referring to itself or to a sibling
        p = fr.fi
        while p is not None:
            if n in p.nested:
                return V(frozenset([("f", p.nested[n].fid, None)]))
            p = p.parent
        r = self.p.lookup(fr.fi.module.name, n)
        if r is not None:
            return self.resolved(r)
        return V(frozenset([("ext", "builtins." + n)]))

    def resolved(self, r):
        if r[0] == "func":
            return V(frozenset([("f", r[1].fid, ())]))
        if r[0] == "class":
            return V(frozenset([("cls", r[1].cid)]))
        if r[0] == "mod":
            return V(frozenset([("mod", r[1])]))
        if r[0] == "ext":
            return V(frozenset([("ext", r[1])]))
        if r[0] == "expr":
            k = (r[1], id(r[2]))
            if k not in self.modconst:
                self.modconst[k] = self.module_value(r[2])
            return self.modconst[k]
        return opq()

    def module_value(self, node):
        if node is None:
            return V(frozenset([("glob",)]))
        try:
            x = ast.literal_eval(node)
        except (ValueError, TypeError, SyntaxError):
            return V(frozenset([("glob",)]))
        return self.lift(x)

    def lift(self, x):
        if isinstance(x, (list, tuple)):
            return V(frozenset([("t", "list" if isinstance(x, list) else "tuple", tuple(self.lift(y) for y in x))]))
        if isinstance(x, (bool, int, float, str)) or x is None:
            return const(x)
        if isinstance(x, dict) and x and all(isinstance(k, (str, int)) for k in x):
            return V(frozenset([("cdict", tuple((k, self.lift(v)) for k, v in x.items()))]))
        if isinstance(x, (dict, set)):
            return V(frozenset([("glob",)]))
        return opq()

    def e_Tuple(self, e, st):
        els = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                items, _ = self.iterate(v, st)
                if items is None:
                    return opq(v.deps | frozenset().union(*[y.deps for y in els]) if els else v.deps, v.alias)
                els += items
            else:
                els.append(self.eval(x, st))
        return tup(els)

    def new_obj(self, e, st, obj):
        oid = ("N", (e.lineno, e.col_offset, self.frames[-1].fi.fid))
        st.heap[oid] = obj
        d = EMPTY
        return V(frozenset([("h", oid)]))

    def e_List(self, e, st):
        els = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                items, _ = self.iterate(v, st)
                if items is None:
                    return self.new_obj(e, st, Obj("list", elem=join_all(els + [self.elem_of(v, st)])))
                els += items
            else:
                els.append(self.eval(x, st))
        v = self.new_obj(e, st, Obj("list", exact=tuple(els)))
        d = EMPTY
        for x in els:
            d |= x.deps
        return v.with_(deps=d)

    def e_Set(self, e, st):
        els = [self.eval(x, st) for x in e.elts]
        return self.new_obj(e, st, Obj("set", exact=tuple(els)))

    def e_Dict(self, e, st):
        d = {}
        open_ = False
        elem = None
        dd = EMPTY
        for k, x in zip(e.keys, e.values):
            if k is None:
                v = self.eval(x, st)
                dd |= v.deps
                for a in v.atoms:
                    if a[0] == "h" and a[1] in st.heap and st.heap[a[1]].kind == "dict":
                        o = st.heap[a[1]]
                        d.update({kk: vv for kk, vv in o.items if kk not in o.may})
                        open_ |= o.open
                        if o.elem is not None:
                            elem = o.elem if elem is None else join(elem, o.elem)
                    else:
                        open_ = True
                continue
            kv = self.eval(k, st)
            vv = self.eval(x, st)
            dd |= vv.deps
            c = _single_const(kv)
            if c is not None:
                d[c[2]] = vv
            else:
                open_ = True
                elem = vv if elem is None else join(elem, vv)
        return self.new_obj(e, st, Obj("dict", mk(d), EMPTY, open_, elem)).with_(deps=dd)

    def e_JoinedStr(self, e, st):
        d = EMPTY
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                d |= self.eval(x.value, st).deps
        return V(frozenset([ANYSTR]), d)

    def e_FormattedValue(self, e, st):
        return V(frozenset([ANYSTR]), self.eval(e.value, st).deps)

    def e_Lambda(self, e, st):
        return V(frozenset([("f", self.p.node_fid[e].fid, None)]))

    def e_IfExp(self, e, st):
        rs = []
        ss = []
        for truth, x in ((True, e.body), (False, e.orelse)):
            for s2 in self.assume(st.copy(), e.test, truth):
                if self.fold is not None and (len(self.frames) == 1 or self.frames[-1].fi.parent is self.frames[0].fi):
                    self.fold.setdefault(e, set()).add(truth)
                try:
                    rs.append(self.eval(x, s2))
                    ss.append(s2)
                except Infeasible as ex:
                    exc = ex
        if not rs:
            raise Infeasible("Exception")
        j = join_states(ss)
        st.env, st.heap, st.ev, st.conds = j.env, j.heap, j.ev, j.conds
        return join_all(rs)

    def e_BoolOp(self, e, st):
        conj = isinstance(e.op, ast.And)
        rs = []
        cur = [st.copy()]
        fin = []
        for i, x in enumerate(e.values):
            nxt = []
            for s2 in cur:
                v = self.eval(x, s2)
                if i == len(e.values) - 1:
                    rs.append(v)
                    fin.append(s2)
                    continue
                t = self.truth(v, s2)
                if (not conj) in t:
                    keep = frozenset(b for a in v.atoms for b in self.truth_atoms(a, not conj, s2))
                    if keep:
                        rs.append(v.with_(atoms=keep))
                        fin.append(s2)
                if conj in t:
                    nxt += self.assume(s2.copy(), x, conj)
            cur = merge(nxt, 4)
        if not rs:
            raise Infeasible(None)
        j = join_states(fin)
        st.env, st.heap, st.ev = j.env, j.heap, j.ev
        d = frozenset().union(*[v.deps for v in rs])
        return join_all(rs).with_(deps=d)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            t = self.truth(v, st)
            return V(frozenset(("c", "bool", not x) for x in t), v.deps)
        ats = set()
        for a in v.atoms:
            if a[0] == "c" and a[1] in ("int", "float", "bool"):
                try:
                    x = -a[2] if isinstance(e.op, ast.USub) else (+a[2] if isinstance(e.op, ast.UAdd) else ~a[2])
                    ats.add(("c", type(x).__name__, x))
                except TypeError:
                    ats.add(OPQ)
            elif a[0] == "n":
                ats.add(("n", "any"))
            elif a == NEVER:
                ats.add(NEVER)
            else:
                ats.add(OPQ)
        return V(norm_atoms(frozenset(ats)), v.deps)

    def e_BinOp(self, e, st):
        l = self.eval(e.left, st)
        r = self.eval(e.right, st)
        return self.binop(e.op, l, r, st)

    def binop(self, op, l, r, st):
        d = l.deps | r.deps
        if NEVER in l.atoms or NEVER in r.atoms:
            return V(frozenset([NEVER]), d)
        ats = set()
        for a in l.atoms:
            for b in r.atoms:
                ats.add(self.binop1(op, a, b, st))
        if any(x is None for x in ats):
            ats = {x for x in ats if x is not None} | {OPQ}
        return V(norm_atoms(frozenset(ats)), d)

    def binop1(self, op, a, b, st):
        if a[0] == "c" and b[0] == "c":
            if a[1] in ("int", "float", "bool") and b[1] in ("int", "float", "bool"):
                try:
                    x, y = a[2], b[2]
                    f = _OPS.get(type(op))
                    if f and not (isinstance(op, ast.Pow) and abs(y) > 64):
                        z = f(x, y)
                        if isinstance(z, (int, float, bool)):
                            return ("c", type(z).__name__, z)
                except (ZeroDivisionError, OverflowError, TypeError, ValueError):
                    return ("n", "any")
                return ("n", "any")
            if a[1] == "str" and isinstance(op, ast.Add) and b[1] == "str":
                return ("c", "str", a[2] + b[2])
            if a[1] == "str":
                return ANYSTR
        if a[0] in ("s", "u") or b[0] in ("s", "u") or (a[0] == "c" and a[1] == "str"):
            if isinstance(op, ast.Add) and (a == UNK or b == UNK):
                return UNK
            return ANYSTR
        sa, sb = sign_of(a), sign_of(b)
        if sa and sb:
            if isinstance(op, (ast.Add,)):
                if "any" in (sa, sb):
                    return ("n", "any")
                return ("n", "pos") if "pos" in (sa, sb) else ("n", "nn")
            if isinstance(op, (ast.Mult,)):
                if "any" in (sa, sb):
                    return ("n", "any")
                return ("n", "pos") if sa == sb == "pos" else ("n", "nn")
            if isinstance(op, ast.Sub) and sa == "pos" and b[0] == "c" and b[2] == 1:
                return ("n", "nn")
            if isinstance(op, (ast.FloorDiv, ast.Mod, ast.Div)) and "any" not in (sa, sb):
                return ("n", "nn")
            return ("n", "any")
        if a[0] == "h" and b[0] == "h" and isinstance(op, ast.Add):
            return OPQ
        if a[0] == "t" and b[0] == "t" and isinstance(op, ast.Add):
            return ("t", a[1], a[2] + b[2])
        if a[0] == "h" and isinstance(op, ast.Mult):
            o = st.heap.get(a[1])
            if o is not None and o.kind == "list":
                e = self.elem_of(V(frozenset([a])), st)
                oid = ("N", ("mult", a[1]))
                oid = shorten(oid)
                st.heap[oid] = Obj("list", elem=e)
                return ("h", oid)
        return OPQ

    def e_Compare(self, e, st):
        t = set()
        d = self.eval(e.left, st).deps
        for c in e.comparators:
            d |= self.eval(c, st).deps
        # arrays compare elementwise
        if len(e.ops) == 1 and not isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            l = self.eval(e.left, st)
            r = self.eval(e.comparators[0], st)
            if any(a[0] in ("o", "o+", "o-") for a in l.atoms | r.atoms) and NEVER not in (l.atoms | r.atoms):
                return opq(d)
        for truth in (True, False):
            for s2 in self.assume(st.copy(), e, truth):
                t.add(("c", "bool", truth))
                if "+consulted" in s2.ev:
                    st.ev = st.ev | {"+consulted"}
        if not t:
            raise Infeasible(None)
        return V(frozenset(t), d)

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Slice(self, e, st):
        d = EMPTY
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                d |= self.eval(x, st).deps
        return V(frozenset([("slice",)]), d)

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    def e_Yield(self, e, st):
        if e.value is not None:
            self.eval(e.value, st)
        return opq()

    e_YieldFrom = e_Yield

    def comp(self, e, st, elt):
        """evaluate a comprehension; returns (exact list or None, elem V or None, deps)"""
        saved = dict(st.env)
        saved_conds = dict(st.conds)
        gens = e.generators
        targets = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    targets.add(n.id)
        exact = None
        res = []
        if len(gens) == 1 and not gens[0].ifs:
            itv = self.eval(gens[0].iter, st)
            items, _ = self.iterate(itv, st)
            if items is not None and len(items) <= 16:
                exact = []
                for x in items:
                    self.assign(gens[0].target, x, st)
                    exact.append(elt(st))
        if exact is None:
            for g in gens:
                itv = self.eval(g.iter, st)
                self.assign(g.target, self.elem_of(itv, st), st)
                dead = False
                for c in g.ifs:
                    ss = self.assume(st.copy(), c, True)
                    if not ss:
                        dead = True
                        break
                    j = join_states(ss)
                    st.env, st.heap, st.conds = j.env, j.heap, j.conds
                if dead:
                    break
            else:
                res.append(elt(st))
        for n in targets:
            if n in saved:
                st.env[n] = saved[n]
            else:
                st.env.pop(n, None)
        # refinements made inside do not survive
        for n in list(st.env):
            if n in saved:
                st.env[n] = saved[n]
        st.conds = saved_conds
        return exact, (join_all(res) if res else None)

    def e_ListComp(self, e, st):
        exact, elem = self.comp(e, st, lambda s: self.eval(e.elt, s))
        if exact is not None:
            v = self.new_obj(e, st, Obj("list", exact=tuple(exact)))
            d = frozenset().union(*[x.deps for x in exact]) if exact else EMPTY
            return v.with_(deps=d)
        v = self.new_obj(e, st, Obj("list", elem=elem))
        return v.with_(deps=elem.deps if elem is not None else EMPTY)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st):
        exact, elem = self.comp(e, st, lambda s: self.eval(e.elt, s))
        if exact is not None:
            elem = join_all(exact) if exact else None
        return self.new_obj(e, st, Obj("set", elem=elem))

    def e_DictComp(self, e, st):
        def elt(s):
            return tup([self.eval(e.key, s), self.eval(e.value, s)])

        exact, elem = self.comp(e, st, elt)
        if exact is not None:
            d = {}
            for x in exact:
                (a,) = x.atoms
                c = _single_const(a[2][0])
                if c is None:
                    d = None
                    break
                d[c[2]] = a[2][1]
            if d is not None:
                return self.new_obj(e, st, Obj("dict", mk(d)))
            elem = join_all(exact)
        if elem is None:
            return self.new_obj(e, st, Obj("dict"))
        (a,) = elem.atoms
        return self.new_obj(e, st, Obj("dict", (), EMPTY, True, a[2][1]))

    # ---- attribute
    def e_Attribute(self, e, st):
        b = self.eval(e.value, st)
        r = []
        for a in b.atoms:
            x = self.attr1(a, e.attr, b, e, st)
            if x is not None:
                r.append(x)
        if not r:
            self.crash("attribute %s of None" % e.attr, e) if b.atoms == frozenset([NONE]) else None
            raise Infeasible("AttributeError")
        return join_all(r)

    def has_attr(self, v, name, e, st):
        """possible answers of hasattr(v, name); asking for an attribute of self that may come from an earlier call is reading it"""
        names = [c[2] for c in name.atoms if c[0] == "c" and isinstance(c[2], str)]
        if len(names) != len(name.atoms):
            return (True, False)
        out = set()
        for a in v.atoms:
            o = st.heap.get(a[1]) if a[0] == "h" else None
            if o is None or o.kind != "inst":
                return (True, False)
            ci = self.p.classes.get(o.cid)
            for n in names:
                if o.get(n) is not None:
                    out |= {True, False} if n in o.may else {True}
                elif ci is not None and (self.p.method(ci, n) is not None or any(n in c.attrs for c in self.p.mro(ci))):
                    out.add(True)
                else:
                    out |= {False, True} if o.open else {False}
                    if o.open:
                        self.fact(("attrunset", n, self.frames[-1].fi.fid, e.lineno, a[1]))
        return tuple(out)

    def attr1(self, a, attr, b, e, st):
        t = a[0]
        if t == "mod":
            r = self.p.lookup(a[1], attr)
            return self.resolved(r) if r is not None else V(frozenset([("ext", a[1] + "." + attr)]))
        if t == "ext":
            d = a[1] + "." + attr
            if d in ("numpy.inf", "numpy.pi", "math.pi", "math.inf", "numpy.e"):
                return num(EMPTY, "pos")
            if d in ("numpy.nan",):
                return num()
            if d == "numpy.newaxis":
                return const(None)
            return V(frozenset([("ext", d)]))
        if t == "nx":
            if attr == "__name__":
                return V(frozenset([ANYSTR]))
            if attr.startswith("__"):
                return opq()
            return V(frozenset([("bm", attr)]))
        if t == "h":
            o = st.heap.get(a[1])
            if o is None:
                return opq(b.deps)
            if o.kind != "inst":
                return V(frozenset([("bdm", attr, a[1])]), b.deps)
            v = o.get(attr)
            if v is not None:
                if attr in o.may:
                    self.fact(("attrmiss", attr, self.frames[-1].fi.fid, e.lineno))
                return v
            ci = self.p.classes.get(o.cid)
            if ci is not None:
                m = self.p.method(ci, attr)
                if m is not None:
                    if m.kind == "property":
                        return self.call_method(m, V(frozenset([a]), b.deps, b.alias), [], {}, e, st)
                    if m.kind == "staticmethod":
                        return V(frozenset([("f", m.fid, ())]))
                    return V(frozenset([("m", m.fid, V(frozenset([a]), b.deps, b.alias))]), b.deps)
                for c in self.p.mro(ci):
                    if attr in c.attrs:
                        v = self.module_value(c.attrs[attr])
                        return v if not o.open else join(v, opq(frozenset(["self." + attr])))
                if attr == "nx" or attr == "_nx":
                    return V(frozenset([NX]))
                if attr == "__class__":
                    return V(frozenset([("cls", o.cid)]))
            lab = frozenset(["self." + attr]) if a[1] == ("self",) else b.deps
            if not o.open:
                self.fact(("attrmiss", attr, self.frames[-1].fi.fid, e.lineno))
            if o.open:
                self.fact(("attrunset", attr, self.frames[-1].fi.fid, e.lineno, a[1]))
            v = opq(lab, lab)
            v = V(frozenset([OPQ, NONE]), lab, lab)
            hk = self.hooks.get("self_attr")
            if hk:
                v = hk(o, attr, v)
            st.heap[a[1]] = o.set(attr, v)
            return v
        if t in ("o", "o+", "o-", "glob"):
            if attr in models.VIEW_ATTRS:
                return opq(b.deps, b.alias)
            if attr in ("ndim",):
                return num(b.deps, "nn")
            if attr == "shape":
                return V(frozenset([SHAPE]), b.deps)
            if attr == "size":
                return num(b.deps, "pos")
            if attr in ("dtype", "device", "itemsize", "nnz"):
                return opq(b.deps)
            if attr == "data" or attr == "grad":
                return opq(b.deps, b.alias)
            return V(frozenset([("am", attr, V(frozenset([a]), b.deps, b.alias, b.ann))]), b.deps)
        if t in ("s", "u") or (t == "c" and a[1] == "str"):
            return V(frozenset([("sm", attr, V(frozenset([a]), b.deps))]), b.deps)
        if t == "cls":
            ci = self.p.classes[a[1]]
            m = self.p.method(ci, attr)
            if m is not None:
                if m.kind == "classmethod":
                    return V(frozenset([("m", m.fid, V(frozenset([a])))]))
                return V(frozenset([("f", m.fid, ())]))
            for c in self.p.mro(ci):
                if attr in c.attrs:
                    return self.module_value(c.attrs[attr])
            return opq()
        if t == "super":
            ci = self.p.classes[a[1]]
            mro = self.p.mro(self.p.classes[a[3]]) if a[3] in self.p.classes else self.p.mro(ci)
            if ci in mro:
                mro = mro[mro.index(ci) + 1:]
            for c in mro:
                if attr in c.methods:
                    return V(frozenset([("m", c.methods[attr].fid, a[2])]))
            return V(frozenset([("ext", "super." + attr)]))
        if t == "c" and a[1] == "NoneType":
            return None
        if t == "n" or t == "c":
            return V(frozenset([("am", attr, V(frozenset([a]), b.deps))]), b.deps)
        if t == "t":
            return V(frozenset([("am", attr, V(frozenset([a]), b.deps, b.alias, b.ann))]), b.deps)
        if t == "cdict":
            return V(frozenset([("am", attr, V(frozenset([a]), b.deps))]), b.deps)
        if t == "f":
            return opq(b.deps)
        return opq(b.deps, b.alias)

    def store_attr(self, base, attr, v, node, st):
        for a in base.atoms:
            if a[0] == "h" and a[1] in st.heap:
                o = st.heap[a[1]]
                if o.kind == "inst":
                    # a property setter is not used in this code base
                    st.heap[a[1]] = o.set(attr, self.freeze(v, st))
                    self.fact(("setattr", o.cid, attr, self.frames[-1].fi.fid, node.lineno))
                    if st.conds:
                        for k in [k for k in st.conds if "attr='%s'" % attr in k[0]]:
                            del st.conds[k]
            elif a[0] in ("o", "o+", "o-"):
                if attr in ("data", "grad", "shape", "flat", "requires_grad"):
                    self.mutate(base, node, "assignment to .%s" % attr)
                else:
                    self.mutate(base, node, "assignment to attribute .%s" % attr)
            elif a[0] in ("cls", "mod", "ext", "nx", "glob") or (a[0] == "f" and self.p.funcs[a[1]].parent is None):
                self.fact(("gstate", "assignment to attribute %s of %s" % (attr, fmt_atom(a)), self.frames[-1].fi.fid, node.lineno))

    # ---- subscripts
    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        i = self.eval(e.slice, st)
        r = []
        ci = _single_const(i)
        missing = None
        for a in b.atoms:
            t = a[0]
            if t == "t":
                if ci is not None and ci[1] == "int":
                    if -len(a[2]) <= ci[2] < len(a[2]):
                        r.append(a[2][ci[2]])
                    else:
                        missing = "index %d of a sequence of %d" % (ci[2], len(a[2]))
                elif ("slice",) in i.atoms:
                    sl = _const_slice(e.slice)
                    if sl is not None:
                        r.append(tup(a[2][sl], a[1]))
                    else:
                        r.append(opq(b.deps, b.alias))
                elif i.atoms == frozenset([UNK]):
                    missing = "key"
                else:
                    r.append(join_all(a[2]) if a[2] else opq(b.deps))
            elif t == "h" and a[1] in st.heap:
                o = st.heap[a[1]]
                if o.kind == "dict":
                    if ci is not None:
                        v = o.get(ci[2])
                        if v is not None:
                            if ci[2] in o.may:
                                self.fact(("keymay", str(ci[2]), self.frames[-1].fi.fid, e.lineno))
                            r.append(v)
                        elif o.open and ci[2] not in o.absent:
                            if o.items and a[1][0] != "P":
                                self.fact(("keyopen", str(ci[2]), self.frames[-1].fi.fid, e.lineno))
                            r.append(o.elem or opq(b.deps))
                        else:
                            missing = "key %r" % (ci[2],)
                    elif i.atoms == frozenset([UNK]) and (o.items or not o.open):
                        missing = "unrecognised key"
                    else:
                        vs = list(o.values())
                        r.append(join_all(vs) if vs else opq(b.deps | i.deps))
                elif o.kind == "list":
                    if o.exact is not None and ci is not None and ci[1] == "int":
                        if -len(o.exact) <= ci[2] < len(o.exact):
                            r.append(o.exact[ci[2]])
                        else:
                            missing = "index %d of a list of %d" % (ci[2], len(o.exact))
                    elif ("slice",) in i.atoms:
                        r.append(V(frozenset([a]), b.deps))
                    else:
                        r.append(self.elem_of(V(frozenset([a]), b.deps), st))
                elif o.kind == "inst":
                    r.append(opq(b.deps, b.alias))
                else:
                    r.append(opq(b.deps))
            elif t == "shape":
                r.append(V(frozenset([SHAPE]), b.deps) if ("slice",) in i.atoms else num(b.deps | i.deps, "pos"))
            elif t == "cdict":
                hit = [v for k, v in a[1] if ci is not None and k == ci[2]]
                if hit:
                    r.append(hit[0])
                elif ci is not None or i.atoms == frozenset([UNK]):
                    missing = "key"
                else:
                    r.append(join_all([v for _, v in a[1]]))
            elif a == NONE:
                missing = "subscript of None"
            elif t in ("s", "u") or (t == "c" and a[1] == "str"):
                r.append(V(frozenset([ANYSTR]), b.deps))
            elif t == "undef":
                pass
            else:
                fancy = self.is_fancy(e.slice, i, st)
                r.append(opq(b.deps | i.deps, EMPTY if fancy else b.alias))
        if not r:
            if missing and i.atoms != frozenset([UNK]) and "None" not in missing:
                self.crash("%s is missing" % missing, e)
            raise Infeasible("KeyError")
        return join_all(r)

    def is_fancy(self, node, i, st):
        """does indexing with this copy (integer/boolean array, or list)?"""
        parts = node.elts if isinstance(node, ast.Tuple) else [node]
        for p in parts:
            if isinstance(p, (ast.Compare, ast.List, ast.ListComp)):
                return True
            if isinstance(p, ast.Slice) or isinstance(p, ast.Constant):
                continue
            if isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Invert):
                return True
            if isinstance(p, ast.BinOp) and isinstance(p.op, (ast.BitAnd, ast.BitOr)):
                return True
            try:
                v = self.eval(p, st.copy())
            except Infeasible:
                continue
            if v.atoms and all(a[0] == "h" for a in v.atoms):
                return True
            if ("mask",) in v.atoms:
                return True
        return False

    def store_sub(self, base, idx, v, node, st):
        v = self.freeze(v, st)
        ci = _single_const(idx)
        hs = [a for a in base.atoms if a[0] == "h"]
        for a in base.atoms:
            if a[0] == "h" and a[1] in st.heap:
                o = st.heap[a[1]]
                self.mut_obj(a[1], node, "item assignment", st)
                if o.kind == "dict":
                    if ci is not None:
                        st.heap[a[1]] = o.set(ci[2], v, weak=len(base.atoms) > 1)
                    else:
                        st.heap[a[1]] = o.rep(open_=True, elem=v if o.elem is None else join(o.elem, v))
                elif o.kind == "list":
                    if o.exact is not None and ci is not None and ci[1] == "int" and -len(o.exact) <= ci[2] < len(o.exact):
                        ex = list(o.exact)
                        ex[ci[2]] = v if len(base.atoms) == 1 else join(ex[ci[2]], v)
                        st.heap[a[1]] = o.rep(exact=tuple(ex))
                    else:
                        st.heap[a[1]] = self.list_weak(o, v)
            elif a[0] in ("o", "o+", "o-"):
                self.mutate(base, node, "item assignment to %s" % ast.unparse(node.value))
            elif a[0] == "glob" or a[0] == "cdict":
                self.fact(("gstate", "item assignment to module level %s" % ast.unparse(node.value), self.frames[-1].fi.fid, node.lineno))
            elif a[0] == "t" and a[1] == "list":
                self.fact(("gstate", "item assignment to %s" % ast.unparse(node.value), self.frames[-1].fi.fid, node.lineno))

    def list_weak(self, o, v):
        elem = o.elem
        for x in (o.exact or ()):
            elem = x if elem is None else join(elem, x)
        if v is not None:
            elem = v if elem is None else join(elem, v)
        return o.rep(exact=None, elem=elem)

    # ---- facts
    def fact(self, f):
        self.frames[-1].facts.add(f)

    def crash(self, msg, node):
        self.fact(("crash", msg, self.frames[-1].fi.fid, node.lineno))

    def mutate(self, v, node, how):
        for l in v.alias:
            self.fact(("mut", l, self.frames[-1].fi.fid, node.lineno, how))

    def mut_obj(self, oid, node, how, st):
        """mutation of a container that came in as an argument"""
        if oid[0] == "A" or oid[0] == "P":
            fr = self.frames[-1]
            for n in fr.fi.params:
                v = st.env.get(n)
            # the label of the parameter(s) through which it came is on alias of env values
            self.fact(("mutobj", oid, fr.fi.fid, node.lineno, how))

    # ---- calls
    def e_Call(self, e, st):
        f = self.eval(e.func, st)
        args = []
        star = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                items, _ = self.iterate(v, st)
                if items is not None:
                    args += items
                else:
                    star.append(self.elem_of(v, st))
            else:
                if star:
                    star.append(self.eval(a, st))
                else:
                    args.append(self.eval(a, st))
        kw = {}
        dstar = []
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, st)
                for a in v.atoms:
                    if a[0] == "h" and a[1] in st.heap and st.heap[a[1]].kind == "dict":
                        o = st.heap[a[1]]
                        for kk, vv in o.items:
                            if kk in o.may:
                                dstar.append((kk, vv))
                            else:
                                kw[kk] = vv
                        if o.open:
                            dstar.append((o.absent, o.elem or opq(v.deps, v.alias)))
                    else:
                        dstar.append((None, opq(v.deps, v.alias)))
            else:
                kw[k.arg] = self.eval(k.value, st)
        return self.call(f, args, kw, e, st, star, dstar)

    def call(self, f, args, kw, e, st, star=(), dstar=()):
        self.ncalls += 1
        rs = []
        post = []
        exc = None
        infeas = 0
        for a in sorted(f.atoms, key=repr):
            s2 = st if len(f.atoms) == 1 else st.copy()
            try:
                rs.append(self.call1(a, f, args, kw, e, s2, star, dstar))
                post.append(s2)
            except Infeasible as x:
                exc = x
                infeas += 1
        if not rs:
            if isinstance(exc, BadCall):
                self.fact(("badcall", str(exc), self.frames[-1].fi.fid, e.lineno))
            raise exc or Infeasible("TypeError")
        if len(f.atoms) > 1:
            j = join_states(post)
            st.env, st.heap, st.ev, st.conds = j.env, j.heap, j.ev, j.conds
        return join_all(rs)

    def alldeps(self, args, kw, star=(), dstar=()):
        d = EMPTY
        for x in args:
            d |= x.deps
        for x in kw.values():
            d |= x.deps
        for x in star:
            d |= x.deps
        for _, x in dstar:
            d |= x.deps
        return d

    def call1(self, a, f, args, kw, e, st, star, dstar):
        t = a[0]
        if t == "f":
            g = self.p.funcs[a[1]]
            if g.parent is not None and a[2] is None:
                caps = {}
                for n in g.free:
                    v = self.lookup_local(n, st)
                    if v is not None:
                        caps[n] = v
            else:
                caps = dict(a[2] or ())
            sp = models.special_inpkg(self, g, args, kw, e, st, star)
            if sp is not None:
                return sp
            return self.call_inpkg(g, None, args, kw, e, st, star, dstar, caps)
        if t == "m":
            g = self.p.funcs[a[1]]
            return self.call_method(g, a[2], args, kw, e, st, star, dstar)
        if t == "cls":
            return self.instantiate(a[1], args, kw, e, st, star, dstar)
        if t == "nx":
            return opq()
        if t == "bm":
            return models.backend_call(self, a[1], args, kw, e, st, star, dstar)
        if t == "ext":
            return models.ext_call(self, a[1], args, kw, e, st, star, dstar)
        if t == "am":
            return models.array_method(self, a[1], a[2], args, kw, e, st, star, dstar)
        if t == "sm":
            return models.str_method(self, a[1], a[2], args, kw, e, st)
        if t == "bdm":
            return models.container_method(self, a[1], a[2], args, kw, e, st)
        if t == "partial":
            return self.call(a[1], list(a[2]) + list(args), {**dict(a[3]), **kw}, e, st, star, dstar)
        if a == NONE:
            raise Infeasible("TypeError")
        # unknown callable (user supplied function)
        self.escape(args, kw, st)
        return opq(self.alldeps(args, kw, star, dstar) | f.deps)

    def escape(self, args, kw, st):
        for x in list(args) + list(kw.values()):
            x = self.freeze(x, st)
            for a in x.atoms:
                if a[0] == "f" and self.p.funcs[a[1]].parent is not None:
                    self.frames[-1].escaped.add((a[1], a[2] or ()))

    def call_method(self, g, selfv, args, kw, e, st, star=(), dstar=()):
        return self.call_inpkg(g, selfv, args, kw, e, st, star, dstar, {})

    def instantiate(self, cid, args, kw, e, st, star, dstar):
        ci = self.p.classes[cid]
        oid = ("N", (e.lineno, e.col_offset, self.frames[-1].fi.fid))
        if any(c is self.backend_base for c in self.p.mro(ci)):
            return V(frozenset([NX]))
        ext_base = any(self.p.resolve_expr(c.module, b) is None or self.p.resolve_expr(c.module, b)[0] != "class"
                       for c in self.p.mro(ci) for b in c.bases if ast.unparse(b) != "object")
        st.heap[oid] = Obj("inst", (), EMPTY, ext_base, None, None, cid)
        v = V(frozenset([("h", oid)]), self.alldeps(args, kw, star, dstar))
        init = self.p.method(ci, "__init__")
        if init is not None:
            self.call_method(init, v, args, kw, e, st, star, dstar)
        return v

    def bind(self, g, selfv, args, kw, e, st, star, dstar):
        """bind arguments; returns (env, passed) or raises Infeasible after recording a misuse"""
        pos = list(g.pos_params)
        env = {}
        passed = {}
        args = list(args)
        if selfv is not None:
            args = [selfv] + args
        who = g.name
        extra = args[len(pos):]
        for n, v in zip(pos, args):
            env[n] = v
            passed[n] = True
        if extra and not g.vararg:
            raise BadCall("%s() gets %d positional arguments, takes %d" % (who, len(args), len(pos)))
        kwextra = {}
        names = set(pos) | set(g.kwonly)
        for k, v in kw.items():
            if k in names:
                if k in env:
                    raise BadCall("%s() gets several values for %s" % (who, k))
                env[k] = v
                passed[k] = True
            elif g.kwarg:
                kwextra[k] = v
            else:
                raise BadCall("%s() has no parameter %s" % (who, k))
        maybe = {}
        openv = None
        opens = []
        for k, v in dstar:
            if k is None or isinstance(k, frozenset):
                openv = v if openv is None else join(openv, v)
                opens.append(k or EMPTY)
            elif k in names and k not in env:
                maybe[k] = v
            elif g.kwarg and k not in names:
                kwextra[k] = v
        starv = join_all(star) if star else None
        for n in pos + g.kwonly:
            if n in env:
                continue
            d = g.defaults.get(n)
            dv = None
            if d is not None:
                dv = self.default_value(g, d)
            cands = []
            if n in maybe:
                cands.append(maybe[n])
                passed[n] = "maybe"
            if starv is not None and n in pos:
                cands.append(starv)
                passed[n] = "maybe"
            if openv is not None and not all(n in k for k in opens):
                hk = self.hooks.get("open_kw")
                cands.append(hk(n, openv) if hk else openv)
                passed[n] = "maybe"
            if dv is not None:
                cands.append(dv)
            if not cands:
                raise BadCall("%s() is not given %s" % (who, n))
            env[n] = join_all(cands)
        if g.vararg:
            if star:
                oid = ("N", ("va", e.lineno, e.col_offset, g.fid))
                st.heap[oid] = Obj("list", elem=join_all(list(extra) + list(star)))
                env[g.vararg] = V(frozenset([("h", oid)]), starv.deps)
            else:
                env[g.vararg] = tup(extra)
            passed[g.vararg] = True
        if g.kwarg:
            oid = ("N", ("kw", e.lineno, e.col_offset, g.fid))
            st.heap[oid] = Obj("dict", mk(kwextra), EMPTY, openv is not None, openv,
                                   absent=frozenset(names) | frozenset.intersection(*opens) if opens else EMPTY)
            dd = openv.deps if openv is not None else EMPTY
            for v in kwextra.values():
                dd |= v.deps
            env[g.kwarg] = V(frozenset([("h", oid)]), dd)
            passed[g.kwarg] = True
        return env, passed

    def default_value(self, g, d):
        if isinstance(d, ast.Constant):
            return const(d.value) if d.value is not Ellipsis else opq()
        try:
            return self.lift(ast.literal_eval(d))
        except (ValueError, SyntaxError):
            pass
        r = self.p.resolve_expr(g.module, d)
        if r is not None:
            return self.resolved(r)
        return opq()

    def call_inpkg(self, g, selfv, args, kw, e, st, star, dstar, caps):
        env, passed = self.bind(g, selfv, args, kw, e, st, star, dstar)
        fr = self.frames[-1]
        env = {n: self.freeze(v, st) for n, v in env.items()}
        caps = {n: self.freeze(v, st) for n, v in caps.items()}
        if self.o["record_calls"]:
            if g.parent is not None:
                for n, v in list(env.items()) + [("^" + n, v) for n, v in caps.items()]:
                    self.capdeps.setdefault((g.fid, n), set()).update(v.deps)
            k = (fr.fi.fid, e.lineno, e.col_offset, g.fid)
            d = self.callsites.setdefault(k, {})
            for n in g.params:
                v = env.get(n)
                if n not in d:
                    d[n] = [set(), set(), set()]
                d[n][0] |= v.deps if v is not None else set()
                d[n][1].add(passed.get(n, False))
                if v is not None:
                    d[n][2] |= {a for a in v.atoms if a[0] == "c"}
        b = State(env, st.heap)
        site = (e.lineno, e.col_offset, fr.fi.fid)
        res = self.call_func_with(g, b, caps, site)
        if isinstance(res, V):
            return res
        v = join_all([r[0] for r in res])
        ev = None
        newheap = {}
        for _, h, ee in res:
            ev = ee if ev is None else join_ev(ev, ee)
            for k, o in h.items():
                newheap[k] = join_obj(newheap[k], o) if k in newheap else o
        for k, o in newheap.items():
            st.heap[k] = o
        if fr.catch:
            ev = frozenset(x for x in (ev or ()) if x != "warned")
        st.ev = st.ev | (ev or EMPTY)
        return v


def shorten(h, n=0):
    """bound the nesting of object names"""
    def depth(x):
        return 1 + max([depth(y) for y in x], default=0) if isinstance(x, tuple) else 0

    if depth(h) > 12:
        return ("N", ("deep", hash(repr(h)) % 100003))
    return h


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    return t


def _single_const(v):
    if len(v.atoms) == 1:
        (a,) = v.atoms
        if a[0] == "c":
            return a
    return None


def _const_slice(n):
    if not isinstance(n, ast.Slice):
        return None
    r = []
    for x in (n.lower, n.upper, n.step):
        if x is None:
            r.append(None)
        elif isinstance(x, ast.Constant):
            r.append(x.value)
        elif isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub) and isinstance(x.operand, ast.Constant):
            r.append(-x.operand.value)
        else:
            return None
    return slice(*r)


def _kind_name(a, st):
    t = a[0]
    if t == "c":
        return a[1]
    if t in ("s", "u"):
        return "str"
    if t == "t":
        return a[1]
    if t == "h":
        o = st.heap.get(a[1])
        if o is None or o.kind == "inst":
            return None
        return o.kind
    if t == "f":
        return "function"
    if t == "nx":
        return None
    return None


def _catches(t, exc):
    if t is None:
        return True
    names = [ast.unparse(x).split(".")[-1] for x in (t.elts if isinstance(t, ast.Tuple) else [t])]
    if "Exception" in names or "BaseException" in names:
        return True
    return exc in names or exc is None


import operator

_OPS = {
    ast.Add: operator.add,
    ast.Sub: operator.sub,
    ast.Mult: operator.mul,
    ast.Div: operator.truediv,
    ast.FloorDiv: operator.floordiv,
    ast.Mod: operator.mod,
    ast.Pow: operator.pow,
    ast.LShift: operator.lshift,
    ast.BitAnd: operator.and_,
    ast.BitOr: operator.or_,
}

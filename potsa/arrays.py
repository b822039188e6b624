"""What arrays are: where they live and which shape they have.

An annotation (kinds, dims, val) is attached to abstract values (V.ann):

kinds  where the array comes from: B on the backend of the arguments with their dtype and device, D made by the backend with its
       default dtype and device, N a NumPy array, S a Python or NumPy number; "?" unknown
dims   the symbolic size of every axis, or None: names of the documentation, integers, sums ("+", a, b), products ("*", a, b, ...),
       None for an unknown size
val    for a number its symbolic value; for an array "bool" or "int" where its element type matters to indexing;
       ("shape", d0, d1, ...) for the shape of an array

Sizes that the documentation names differently are taken to be different numbers, both larger than one."""

import ast
import re

from . import models
from .absint import Interp, Infeasible
from .project import doc_params
from .values import *

S, B, D, N, Q = "S", "B", "D", "N", "?"
TOP = (frozenset([Q]), None, None)
SCALAR = (frozenset([S]), (), None)
NOARR = ("f", "m", "ext", "mod", "cls", "nx", "bm", "am", "sm", "bdm", "partial", "undef", "ctx", "s", "u", "super")


def ann(kinds, dims, val=None):
    return None if kinds == TOP[0] and dims is None and val is None else (kinds, dims, val)


def noarr(v):
    """no atom of v is an array or a number"""
    return all(a[0] in NOARR or a == NONE or (a[0] == "c" and a[1] == "str") for a in v.atoms)


def of(v):
    if v.ann is not None:
        return v.ann
    if v.atoms and all(a[0] in ("n", "len") or (a[0] == "c" and a[1] in ("int", "float", "bool")) for a in v.atoms):
        if len(v.atoms) == 1:
            (a,) = v.atoms
            if a[0] == "c" and a[1] == "int":
                return (frozenset([S]), (), a[2])
        return SCALAR
    return TOP


def join_ann(a, b):
    if noarr(a):
        return b.ann
    if noarr(b):
        return a.ann
    x, y = of(a), of(b)
    return ann(x[0] | y[0], join_dims(x[1], y[1]), x[2] if x[2] == y[2] and type(x[2]) is type(y[2]) else None)


def join_dims(a, b):
    """a size known on one path only is kept: an operation that does not fit it is wrong on that path"""
    if a is None or b is None:
        return a if b is None else b
    if len(a) != len(b):
        return None
    return tuple(p if p == q or q is None else q if p is None else None for p, q in zip(a, b))


def params_of(fi):
    a = fi.node.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}


def sites(k):
    """where the arrays of kind D among k are made"""
    for x in sorted(k):
        if x[:2] == "D@":
            fid, line = x[2:].rsplit(":", 1)
            yield fid, int(line)


def kinds(*ks):
    r = frozenset().union(*ks) if ks else TOP[0]
    return r - {S} if r - {S} else r


def is_sym(d):
    return isinstance(d, str)


def clash(p, q):
    """certainly different sizes that do not broadcast"""
    return is_sym(p) and is_sym(q) and p != q


def plus(d, c):
    if d is None or c is None:
        return None
    if isinstance(d, int) and isinstance(c, int):
        return d + c
    if c == 0:
        return d
    if d == 0:
        return c
    if isinstance(c, int) and isinstance(d, tuple) and d[0] == "+" and isinstance(d[2], int):
        return plus(d[1], d[2] + c)
    if isinstance(d, int):
        d, c = c, d
    return ("+", d, c) if isinstance(c, int) else ("+",) + tuple(sorted((d, c), key=repr))


def times(*ds):
    k, fs = 1, []
    for d in ds:
        if d is None:
            return None
        if isinstance(d, int):
            k *= d
        elif isinstance(d, tuple) and d[0] == "*":
            for x in d[1:]:
                if isinstance(x, int):
                    k *= x
                else:
                    fs.append(x)
        else:
            fs.append(d)
    if not fs:
        return k
    fs = tuple(sorted(fs, key=repr))
    if k == 1:
        return fs[0] if len(fs) == 1 else ("*",) + fs
    return ("*", k) + fs


def divide(total, parts):
    """total / parts, or None"""
    t = times(total)
    p = times(*parts) if parts else 1
    if t is None or p is None:
        return None
    tf = list(t[1:]) if isinstance(t, tuple) and t[0] == "*" else [t]
    pf = list(p[1:]) if isinstance(p, tuple) and p[0] == "*" else [p]
    k = 1
    for x in pf:
        if x == 1:
            continue
        if x in tf:
            tf.remove(x)
        else:
            return None
    return times(*(tf or [1]))


def show(dims):
    def s(d):
        if isinstance(d, tuple):
            return d[0].join(s(x) for x in d[1:])
        return "?" if d is None else str(d)
    return "(%s)" % ", ".join(s(d) for d in dims) if dims is not None else "unknown"


# ---------------------------------------------------------------- documentation
_GROUP = re.compile(r"\(([^()]*)\)")
_DIM = re.compile(r"^(?:[A-Za-z_]\w*|\d+)$")


def doc_dims(t):
    """(kind of container: 'array' or 'list', dims or None) of a documented type with one shape"""
    r = doc_alts(t)
    return r[0] if len(r) == 1 else None


def doc_alts(t):
    """the shapes a documented type allows, [(container, dims)]; '...' stands for nothing or for one more axis"""
    low = t.lower()
    if "callable" in low or "dict" in low:
        return []
    t2 = re.sub(r"len\((\w+)\)", r"len_\1", t)
    if "tuple" in low:
        m = re.match(r"tuple of arrays?, shape \((\w+), *(\w+)\)", t2)
        return [("tuple", m.groups())] if m else []
    t2 = re.sub(r"array-like\((\w+), *\)", r"array-like (\1,)", t2)
    if t2.startswith("("):
        m = re.match(r"\(array-like \((\w+),\) *, *array-like \((\w+),\)\)", t2)
        if m:
            return [("tuple", m.groups())]
    t2 = re.sub(r"\((\w+) x (\w+)\)", r"(\1, \2)", t2)
    found = []
    for g in _GROUP.finditer(t2):
        parts = [p.strip() for p in g.group(1).split(",")]
        if parts and parts[-1] == "":
            parts = parts[:-1]
        if not parts or any(p.lower() in ("optional",) or "default" in p.lower() for p in parts):
            continue
        if len(parts) == 1 and not re.search(r"shape\s*=?\s*$|array[-_ ]like\s*,?\s*$|ndarray\s*,?\s*$|array\s*,?\s*$|\bor\s*$|^\s*$", t2[:g.start()]) and g.group(1).strip()[-1:] != ",":
            continue
        found.append(tuple((int(p) if p.isdigit() else p) if _DIM.match(p) else None if p != "..." else Ellipsis for p in parts))
    m = re.search(r"shape\s*=\s*len_(\w+)(?:\s*x\s*len_(\w+))?\s*$", t2.strip().rstrip("."))
    if m and not found:
        found.append(tuple("len_" + x for x in m.groups() if x))
    if len(found) > 1 and not re.search(r"\bor\b|\bif\b|\belse\b", low):
        return []
    if len(found) == 1 and Ellipsis in found[0]:
        d = found[0]
        found = [tuple(x for x in d if x is not Ellipsis), tuple("k" if x is Ellipsis else x for x in d)]
    if len(found) > 3 or any(Ellipsis in d for d in found):
        return []
    return [("list" if re.search(r"\blists?\b", low) else "array", d) for d in found]


_RET = re.compile(r"^(\*{0,2}[\w]+(?:\s*,\s*[\w]+)*)\s*:\s*(.*)$")


def doc_returns(doc):
    """numpydoc 'Returns' section -> [(name, type text)]"""
    out = []
    lines = (doc or "").splitlines()
    for i, l in enumerate(lines):
        if l.strip() in ("Returns", "Return") and i + 1 < len(lines) and lines[i + 1].strip() and set(lines[i + 1].strip()) == {"-"}:
            ind = len(l) - len(l.lstrip())
            j = i + 2
            while j < len(lines):
                x = lines[j]
                if j + 1 < len(lines) and lines[j + 1].strip() and set(lines[j + 1].strip()) == {"-"}:
                    break
                if x.strip().startswith(".. "):
                    break
                if x.strip() and len(x) - len(x.lstrip()) <= ind + 1:
                    m = _RET.match(x.strip())
                    if m:
                        for n in m.group(1).split(","):
                            out.append((n.strip(), m.group(2)))
                j += 1
            break
    return out


# ---------------------------------------------------------------- operations
SAME = {"exp", "log", "abs", "absolute", "sqrt", "sign", "floor", "ceil", "conj", "real", "imag", "copy", "nan_to_num", "detach", "to_numpy", "from_numpy",
        "arccos", "cos", "sin", "tanh", "square", "flip", "sort", "zeros_like", "ones_like", "empty_like", "full_like", "asarray", "array", "asfortranarray",
        "ascontiguousarray", "todense", "tocsr", "eliminate_zeros", "sqrtm", "pinv_", "inv", "negative", "log1p", "expm1", "round", "set_gradients", "log2", "rint"}
BOOLS = {"isnan", "isinf", "isfinite"}
BINARY = {"maximum", "minimum", "power", "atan2", "divide", "multiply", "subtract", "add", "arctan2", "true_divide", "logical_and", "logical_or"}
REDUCE = {"sum": 1, "mean": 1, "max": 1, "min": 1, "prod": 1, "std": 1, "median": 1, "var": 1, "argmin": 1, "argmax": 1, "norm": 1, "logsumexp": 1, "any": 1, "all": 1,
          "count_nonzero": 1, "amax": 1, "amin": 1, "nansum": 1}
ARGS = {"argsort", "argmin", "argmax", "searchsorted", "randperm"}
CTOR = {"zeros": 0, "ones": 0, "full": 0, "empty": 0}
METHODS_SAME = {"copy", "clone", "astype", "detach", "cpu", "numpy", "double", "float", "to", "conj", "cumsum_", "contiguous", "toarray", "todense", "clip", "abs", "round", "exp", "log", "sqrt"}


def const_of(v):
    if v is not None and len(v.atoms) == 1:
        (a,) = v.atoms
        if a[0] == "c":
            return a[2]
    return None


class ArrayInterp(Interp):
    """the interpreter with annotations"""

    _empties = None
    entry_empty = frozenset()
    entry_none = frozenset()
    sizes = frozenset()

    def __init__(self, project, opts=None):
        Interp.__init__(self, project, opts)
        self._node = None
        self.nops = 0
        self.nchecks = 0
        self.made = set()       # constructors of the backend interpreted
        self.aware = False   # the entry works on the backend of its arguments
        self.entry_dims = {}

    # ---- reports
    def arr(self, what, node, msg):
        fr = self.frames[-1]
        self.fact(("arr", what, fr.fi.fid, getattr(node, "lineno", fr.fi.node.lineno), msg))

    def broadcast(self, x, y, node, what=None):
        if x is None or y is None:
            return None
        self.nchecks += 1
        n = max(len(x), len(y))
        x = (1,) * (n - len(x)) + tuple(x)
        y = (1,) * (n - len(y)) + tuple(y)
        r = []
        for p, q in zip(x, y):
            if p == q or q == 1:
                r.append(p)
            elif p == 1:
                r.append(q)
            elif clash(p, q):
                self.arr("shape", node, "%s of shapes %s and %s" % (what or "combines arrays", show(x), show(y)))
                r.append(None)
            else:
                r.append(p if q is None else q if p is None else (p if is_sym(p) else q if is_sym(q) else None))
        return tuple(r)

    def mix(self, ks, node):
        """arrays of several origins in one operation"""
        k = frozenset().union(*ks) if ks else frozenset()
        for l in ks:
            for r in ks:
                if B in l and N in r and B not in r and Q not in l | r:
                    self.arr("mixnumpy", node, "a NumPy array is combined with an array of the backend")
                if B in l and D in r and Q not in l | r:
                    self.defaults(r, "combined with", node)
        k = kinds(*ks) if ks else TOP[0]
        if B in k and D in k:
            k = frozenset(x for x in k if x[0] != D)    # reported once
        return k

    def defaults(self, k, how, node=None):
        """reports the places that make arrays of kind D"""
        at = "%s:%s" % (self.frames[-1].fi.fid, getattr(node, "lineno", 0)) if self.frames else ""
        for fid, line in sites(k):
            self.fact(("arr", "default", fid, line, "%s %s" % (how, at)))

    def local_kind(self, a):
        return a[0] if a[1] != () else kinds(a[0])

    def op_kinds(self, anns, node):
        """kinds of the result of an operation on these operands, numbers aside"""
        ks = [a[0] for a in anns if not (a[1] == () and a[0] <= {S, N})]
        ks = [k for k in ks if k != frozenset([S])]
        if not ks:
            return frozenset([S])
        if any(a[1] is not None and a[1] != () and a[0] != frozenset([S]) for a in anns):     # numbers do not matter among arrays
            ks = [a[0] for a in anns if a[1] != () and a[0] != frozenset([S])]
        ks = [k - {S} for k in ks]
        return frozenset([B]) if frozenset([B]) in ks and not any(D in k or N in k for k in ks) else self.mix(ks, node)

    # ---- hooks of the interpreter
    def iterate(self, v, st):
        """a list built from the inputs has an element: lists of no arrays are not considered"""
        els, some = Interp.iterate(self, v, st)
        if not some and els is None:
            some = all(a[0] == "h" and a[1] in st.heap and st.heap[a[1]].kind == "list" and st.heap[a[1]].elem is not None
                       or a[0] == "range" and a[1] == "pos" for a in v.atoms)
        return els, some

    def elem_ann(self, v):
        k, d, val = of(v)
        if val == "numbers":
            return SCALAR
        if d == ():
            return ann(k, None)
        if d is None:
            return ann(k, None, val if val in ("bool", "int") else None)
        return ann(k, tuple(d[1:]), val if val in ("bool", "int") else None)

    def shape_ann(self, v, i, n):
        val = of(v)[2]
        if isinstance(val, tuple) and val[:1] == ("shape",) and len(val) == n + 1:
            return (frozenset([S]), (), val[i + 1])
        return SCALAR

    def entry_value(self, fi, name, st, types=None):
        v = Interp.entry_value(self, fi, name, st, types)
        if self.frames:
            return v
        t = (types if types is not None else doc_params(fi.doc)).get(name, "")
        isarr = any(a[0] in ("o", "o+", "o-") for a in v.atoms)
        isnum = any(a[0] in ("n", "len") for a in v.atoms)
        k = frozenset(([B] if isarr and self.aware else [Q] if isarr else []) + ([S] if isnum else []))
        if any(a[0] == "h" for a in v.atoms):
            (h,) = [a[1] for a in v.atoms if a[0] == "h"][:1]
            o = st.heap.get(h)
            if o is not None and o.kind == "list" and o.elem is not None and self.aware:
                st.heap[h] = o.rep(elem=o.elem.with_ann((frozenset([B]), None, None)))
            return v
        if name in self.entry_none:
            return V(frozenset([NONE]), v.deps)
        if name in self.entry_empty:
            return opq(v.deps, v.alias).with_ann(ann(k, (0,)))
        if isarr and not isnum:
            dd = self.entry_dims.get(name)
            dims = None
            if dd is not None and dd[0] == "tuple":
                ds = [x if isinstance(x, tuple) else (x,) for x in dd[1]]
                pair = tup([opq(v.deps, v.alias).with_ann(ann(k, tuple(self.alias_dims.get(x, x) for x in d))) for d in ds])
                return join(pair, V(frozenset([NONE]), v.deps)) if NONE in v.atoms else pair
            if dd is not None:
                dims = (("#" + name,) if dd[0] == "list" else ()) + dd[1]
                dims = tuple(self.alias_dims.get(x, x) for x in dims)
            low = t.lower()
            if "callable" in low or "function" in low or "solver" in low or "object" in low or "tuple" in low or "dict" in low:
                k = TOP[0]
            return v.with_ann(ann(k, dims, "list" if dd is not None and dd[0] == "list" else None))
        if isnum and not isarr:
            if "int" in t.lower() and "float" not in t.lower():
                return v.with_ann((frozenset([S]), (), self.alias_dims.get(name, name)))
            return v.with_ann(SCALAR)
        if isarr:
            pair = isnum and "indexable" in t.lower() and "float" in t.lower()
            return v.with_ann(ann(k, None, "numbers" if pair else None))
        return v

    def prepare(self, fi, types, overrides, variant=0):
        """symbols of an entry: sizes given as len(x) are the first axis of x; equal names of the documentation are equal sizes.
        variant chooses between documented alternatives, one more has empty weights where the function allows them, the last one leaves out
        every argument that may be None; returns how many there are"""
        alts = {n: doc_alts(t) for n, t in types.items()}
        alts.update((n, d if isinstance(d, list) else [d]) for n, d in overrides.get("params", {}).items())
        count = max([1] + [len(r) for r in alts.values()])
        emp = self.empties().get(fi.fid, frozenset())
        self.entry_empty = emp if variant == count else frozenset()
        total = count + (1 if emp else 0)
        self.entry_none = frozenset(n for n, d in fi.defaults.items() if isinstance(d, ast.Constant) and d.value is None)
        last = 1 if self.entry_none else 0
        if variant != total:
            self.entry_none = frozenset()
        if variant >= count:
            variant = 0
        self.entry_dims = {n: r[min(variant, len(r) - 1)] for n, r in alts.items() if r}
        self.alias_dims = dict(overrides.get("same", {}))
        for n, dd in self.entry_dims.items():
            if dd[0] == "array" and dd[1] and is_sym(dd[1][0]) and not dd[1][0].startswith("len_"):
                self.alias_dims.setdefault("len_" + n, dd[1][0])
        self.sizes = frozenset(x for dd in self.entry_dims.values() for d in dd[1] for x in (d if isinstance(d, tuple) else (d,)) if is_sym(x) and not x.startswith("#"))
        self.sizes |= frozenset(self.alias_dims[x] for x in self.sizes if x in self.alias_dims)
        return total + last

    def empties(self):
        """{function: parameters that may be empty and then stand for uniform weights}: the function compares their length with 0, or all
        it does with them is to look at their shape and hand them to such functions"""
        if self._empties is not None:
            return self._empties
        out = {}
        fs = list(self.p.top_functions())
        for f in fs:
            got = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.Eq) and isinstance(n.comparators[0], ast.Constant) and \
                        n.comparators[0].value == 0 and isinstance(n.comparators[0].value, int):
                    x = n.left
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" and len(x.args) == 1 and isinstance(x.args[0], ast.Name):
                        got.add(x.args[0].id)
            out[f.fid] = got & set(f.params)
        changed = True
        while changed:
            changed = False
            for f in fs:
                for p in f.params:
                    if p not in ("a", "b") or p in out[f.fid] or p in f.defaults or p in (f.vararg, f.kwarg):
                        continue
                    if self.only_forwards(f, p, out):
                        out[f.fid].add(p)
                        changed = True
        self._empties = {k: frozenset(v) for k, v in out.items() if v}
        return self._empties

    def only_forwards(self, f, p, out):
        ok, handed = set(), 0
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p and n.attr in ("shape", "ndim"):
                ok.add(n.value)
            elif isinstance(n, ast.Call):
                args = [(i, a) for i, a in enumerate(n.args)] + [(k.arg, k.value) for k in n.keywords]
                if not any(isinstance(a, ast.Name) and a.id == p for _, a in args):
                    continue
                try:
                    r = self.p.resolve_expr(f.module, n.func)
                except Exception:
                    r = None
                g = r[1] if r is not None and r[0] == "func" else None
                for i, a in args:
                    if isinstance(a, ast.Name) and a.id == p:
                        if isinstance(n.func, ast.Name) and n.func.id in ("list_to_array", "get_backend", "len"):
                            ok.add(a)
                        elif g is not None and g.fid in out:
                            q = g.pos_params[i] if isinstance(i, int) and i < len(g.pos_params) else i
                            if q in out[g.fid]:
                                ok.add(a)
                                handed += 1
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                v = n.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "list_to_array":
                    ok |= {x for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name)} if isinstance(n, ast.Assign) else set()
        uses = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == p]
        return handed > 0 and all(n in ok for n in uses)

    # ---- expressions
    def e_BinOp(self, e, st):
        l = self.eval(e.left, st)
        r = self.eval(e.right, st)
        self._node = e
        return self.binop(e.op, l, r, st)

    def s_AugAssign(self, s, st):
        self._stmt = s
        return Interp.s_AugAssign(self, s, st)

    def binop(self, op, l, r, st):
        node, self._node = self._node, None
        if node is None:
            node = getattr(self, "_stmt", None)
        v = Interp.binop(self, op, l, r, st)
        if noarr(v) or any(a[0] in ("t", "h") for a in v.atoms):
            return v
        if any(a[0] in ("t", "h", "s") or (a[0] == "c" and a[1] == "str") for a in l.atoms | r.atoms):
            return v
        x, y = of(l), of(r)
        self.nops += 1
        k = self.op_kinds([x, y], node)
        if isinstance(op, ast.MatMult):
            d = self.matmul(x[1], y[1], node)
        else:
            d = self.broadcast(x[1], y[1], node)
        val = None
        if d == () and k == frozenset([S]):
            p, q = x[2], y[2]
            if p is not None and q is not None and p not in ("bool", "int") and q not in ("bool", "int") and not isinstance(p, bool):
                if isinstance(op, ast.Add):
                    val = plus(p, q)
                elif isinstance(op, ast.Sub) and isinstance(q, int):
                    val = plus(p, -q)
                elif isinstance(op, ast.Sub) and p == q:
                    val = 0
                elif isinstance(op, ast.Mult):
                    val = times(p, q)
                elif isinstance(op, ast.FloorDiv):
                    val = divide(p, [q])
        elif x[2] == "bool" and y[2] in ("bool", None) and isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            val = "bool"
        elif x[2] == "int" and (y[2] == "int" or y[1] == ()) and not isinstance(op, ast.Div):
            val = "int"
        return v.with_ann(ann(k, d, val))

    def matmul(self, x, y, node):
        if x is None or y is None or not x or not y:
            return None
        self.nchecks += 1
        inner = x[-1], (y[-2] if len(y) > 1 else y[0])
        if clash(*inner):
            self.arr("shape", node, "multiplies matrices of shapes %s and %s" % (show(x), show(y)))
        if len(x) == 1 and len(y) == 1:
            return ()
        if len(y) == 1:
            return tuple(x[:-1])
        if len(x) == 1:
            return tuple(y[:-2]) + (y[-1],)
        lead = self.broadcast(x[:-2], y[:-2], node) if len(x) > 2 or len(y) > 2 else ()
        return None if lead is None else tuple(lead) + (x[-2], y[-1])

    def dot(self, x, y, node):
        if x is not None and y is not None and (x == () or y == ()):
            return self.broadcast(x, y, node)
        if x is not None and y is not None and (len(x) > 2 or len(y) > 2):
            if clash(x[-1], y[-2] if len(y) > 1 else y[0]):
                self.arr("shape", node, "multiplies matrices of shapes %s and %s" % (show(x), show(y)))
            return tuple(x[:-1]) + (tuple(y[:-2]) + (y[-1],) if len(y) > 1 else ())
        return self.matmul(x, y, node)

    def e_UnaryOp(self, e, st):
        v = Interp.e_UnaryOp(self, e, st)
        if isinstance(e.op, ast.Not):
            return v
        o = of(self.eval(e.operand, st))
        if isinstance(e.op, ast.USub) and isinstance(o[2], int):
            return v if v.ann is None and len(v.atoms) == 1 else v.with_ann(ann(o[0], o[1], None))
        return v.with_ann(ann(o[0], o[1], o[2] if o[2] in ("bool", "int") else None))

    def e_Compare(self, e, st):
        v = Interp.e_Compare(self, e, st)
        if OPQ in v.atoms and len(e.ops) == 1:
            x, y = of(self.eval(e.left, st)), of(self.eval(e.comparators[0], st))
            return v.with_ann(ann(self.op_kinds([x, y], e), self.broadcast(x[1], y[1], e), "bool"))
        return v

    def assume_cmp(self, st, e, truth):
        """sizes with different names are different; so are arrays of different shapes"""
        op = e.ops[0]
        if isinstance(op, (ast.Is, ast.IsNot)):
            x, y = of(self.eval(e.left, st)), of(self.eval(e.comparators[0], st))
            if x[1] is not None and y[1] is not None and (x[1] or y[1]) and (len(x[1]) != len(y[1]) or any(clash(p, q) for p, q in zip(x[1], y[1]))):
                return [st] if truth == isinstance(op, ast.IsNot) else []
        if isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            x, y = of(self.eval(e.left, st)), of(self.eval(e.comparators[0], st))
            if x[1] == () and y[1] == () and clash(x[2], y[2]):
                less = truth == isinstance(op, (ast.Lt, ast.LtE))
                p, q = x[2], y[2]
                if p > q:
                    p, q, less = q, p, not less
                key = ("size %s < %s" % (p, q), frozenset())
                if st.conds.get(key, less) != less:
                    return []
                st.conds[key] = less
                return [st]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            l, r = self.eval(e.left, st), self.eval(e.comparators[0], st)
            x, y = of(l), of(r)
            p, q = x[2], y[2]
            if isinstance(p, tuple) and isinstance(q, tuple) and p[:1] == ("shape",) and q[:1] == ("shape",):
                same = True if p == q and None not in p else False if len(p) != len(q) or any(clash(i, j) for i, j in zip(p, q)) else None
            elif x[1] == () and y[1] == () and (p in self.sizes and type(q) is int and q == 0 or q in self.sizes and type(p) is int and p == 0):
                same = False
            elif x[1] == () and y[1] == () and p is not None and q is not None and p not in ("bool", "int") and q not in ("bool", "int"):
                same = True if p == q else False if clash(p, q) else None
            else:
                same = None
            if same is not None and (isinstance(p, tuple) or is_sym(p) or is_sym(q) or (type(p) is int and type(q) is int)):
                return [st] if same == (truth == isinstance(op, ast.Eq)) else []
        return Interp.assume_cmp(self, st, e, truth)

    def attr1(self, a, attr, b, e, st):
        if a[0] == "nx" and b.ann is not None and b.ann[0] == frozenset([N]) and not attr.startswith("__"):
            return V(frozenset([("bm", attr, "N")]))
        r = Interp.attr1(self, a, attr, b, e, st)
        if r is None or a[0] not in ("o", "o+", "o-"):
            return r
        k, d, val = of(b)
        if attr in ("T", "mT", "H"):
            if d is not None and attr != "T":
                return r.with_ann(ann(k, d[:-2] + (d[-1], d[-2]) if len(d) > 1 else None, val))
            return r.with_ann(ann(k, tuple(reversed(d)) if d is not None else None, val))
        if attr in ("real", "imag", "data", "grad"):
            return r.with_ann(ann(k, d, val))
        if attr == "ndim" and d is not None:
            return const(len(d), b.deps)
        if attr == "shape":
            return r.with_ann((frozenset([S]), None, ("shape",) + d if d is not None else None))
        if attr == "size":
            return r.with_ann((frozenset([S]), (), times(*d) if d else None))
        if attr in ("dtype", "device"):
            return r.with_ann((k, None, "dtype"))
        return r

    def e_Subscript(self, e, st):
        v = Interp.e_Subscript(self, e, st)
        b = self.eval(e.value, st)
        if any(a[0] == "shape" for a in b.atoms):
            val = of(b)[2]
            if isinstance(val, tuple) and val[:1] == ("shape",):
                dims = val[1:]
                c = const_of(self.eval(e.slice, st))
                if c is None:
                    from .absint import _const_slice
                    sl = _const_slice(e.slice)
                    if sl is not None:
                        return v.with_ann((frozenset([S]), None, ("shape",) + dims[sl]))
                    return v
                if isinstance(c, int):
                    if -len(dims) <= c < len(dims):
                        return v.with_ann((frozenset([S]), (), dims[c]))
                    raise Infeasible("IndexError")
            return v
        if not any(a[0] in ("o", "o+", "o-") for a in b.atoms) or any(a[0] in ("t", "h") for a in b.atoms):
            return v
        k, d, val = of(b)
        nd = self.index(e, d, st, val == "list")
        return v.with_ann(ann(k, nd, val if val in ("bool", "int") else None))

    def index(self, e, dims, st, aslist=False):
        """dims of x[...] for x of these dims"""
        if dims is None:
            return None
        els = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        out = []
        ax = 0
        adv = []
        used = 0
        vals = []
        for x in els:
            if isinstance(x, ast.Starred):
                return None
            if isinstance(x, ast.Slice) or (isinstance(x, ast.Constant) and x.value in (None, Ellipsis)):
                vals.append(None)
                used += isinstance(x, ast.Slice)
            else:
                v = self.eval(x, st)
                a = of(v)
                vals.append((v, a))
                if v.atoms == frozenset([NONE]):
                    continue
                used += len(a[1]) if a[2] == "bool" and a[1] else 1
        for x, va in zip(els, vals):
            if va is not None and va[0].atoms == frozenset([NONE]) and not isinstance(x, ast.Constant):
                return None       # nobody adds an axis by a variable: a path that is not taken
            if isinstance(x, ast.Constant) and x.value is Ellipsis:
                n = len(dims) - used
                out += dims[ax:ax + n]
                ax += n
                continue
            if (isinstance(x, ast.Constant) and x.value is None) or (va is not None and va[0].atoms == frozenset([NONE])):
                out.append(1)
                continue
            if ax >= len(dims):
                if len(dims) < used:
                    self.arr("shape", e, "indexes an array of shape %s with %d indices" % (show(dims), used))
                return None
            if isinstance(x, ast.Slice):
                out.append(self.slice_dim(x, dims[ax], st))
                ax += 1
                continue
            v, a = va
            if isinstance(const_of(v), slice) or ("slice",) in v.atoms:
                return None
            if a[1] == () and a[2] != "bool":
                ax += 1
            elif ax == 0 and aslist:
                ax += 1           # a list: the index is a number
            elif a[1] is None:
                return None
            elif a[2] == "bool":
                adv.append(len(out))
                out.append(None)
                for i, q in enumerate(a[1]):
                    if ax + i < len(dims) and clash(q, dims[ax + i]):
                        self.arr("shape", e, "a mask of shape %s selects from axis %d of shape %s" % (show(a[1]), ax + i, show(dims)))
                ax += len(a[1])
            elif a[2] == "int" and len(adv) == 0:
                adv.append(len(out))
                out += a[1]
                ax += 1
            elif a[2] == "int":
                return None
            else:
                if len(a[1]) != 1 or adv:
                    return None
                adv.append(len(out))
                out.append(None)
                ax += 1
        return tuple(out) + tuple(dims[ax:])

    def slice_dim(self, x, d, st):
        def val(n):
            if n is None:
                return 0
            v = self.eval(n, st)
            c = const_of(v)
            if isinstance(c, int) and not isinstance(c, bool):
                return c
            o = of(v)
            return o[2] if o[1] == () and not isinstance(o[2], bool) else None
        if x.lower is None and x.upper is None:
            if x.step is None:
                return d
            c = const_of(self.eval(x.step, st))
            return d if c in (1, -1) else None
        if x.step is not None:
            return None
        lo = val(x.lower)
        up = val(x.upper) if x.upper is not None else "end"
        if up == "end":
            if isinstance(lo, int):
                return plus(d, -lo) if lo >= 0 and d is not None else (-lo if lo < 0 else None)
            if isinstance(d, tuple) and d[0] == "+" and lo is not None and lo in d[1:]:
                return d[2] if d[1] == lo else d[1]
            return None
        if isinstance(up, int) and up < 0:
            return plus(plus(d, up), -lo) if d is not None and isinstance(lo, int) and lo >= 0 else None
        if lo == 0:
            return up
        if isinstance(lo, int) and lo > 0:
            return plus(up, -lo) if up is not None else None
        return None

    def store_sub(self, base, idx, v, node, st):
        if any(a[0] in ("o", "o+", "o-") for a in base.atoms) and not any(a[0] in ("t", "h") for a in v.atoms):
            k, d, _ = of(base)
            x = of(v)
            if d is not None and x[1] is not None:
                nd = self.index(node, d, st)
                if nd is not None:
                    self.nchecks += 1
                    if len(x[1]) <= len(nd):
                        for p, q in zip(reversed(nd), reversed(x[1])):
                            if clash(p, q) or (q != p and p == 1 and is_sym(q)):
                                self.arr("shape", node, "stores an array of shape %s where %s is expected" % (show(x[1]), show(nd)))
                                break
            self.op_kinds([(k, (None,), None), x], node)
        return Interp.store_sub(self, base, idx, v, node, st)

    # ---- calls
    def call1(self, a, f, args, kw, e, st, star, dstar):
        v = Interp.call1(self, a, f, args, kw, e, st, star, dstar)
        t = a[0]
        if t == "bm":
            return self.ann_op(v, a[1], args, kw, e, st, star, "nx" if len(a) == 2 else "np")
        if t == "ext":
            return self.ann_ext(v, a[1], args, kw, e, st, star)
        if t == "am":
            return self.ann_method(v, a[1], a[2], args, kw, e, st)
        if t == "f":
            g = self.p.funcs[a[1]]
            if g.parent is None and g.cls is None and g.name == "get_backend" and g.module.name == "ot.backend":
                ks = [x for x in (of(v2)[0] for v2 in list(args) + list(star) if not noarr(v2)) if x != frozenset([S])]
                if ks and all(k == frozenset([N]) for k in ks):
                    return v.with_ann((frozenset([N]), None, None))
                self.mix(ks, e)
        return v

    def is_array(self, v):
        return not noarr(v) and not any(a[0] in ("t", "h", "range", "zip", "enum1") for a in v.atoms)

    def dims_of_arg(self, v, st):
        """dims given by a shape argument"""
        if v is None:
            return None
        o = of(v)
        if isinstance(o[2], tuple) and o[2][:1] == ("shape",):
            return o[2][1:]
        items, _ = self.iterate(v, st) if any(a[0] in ("t", "h") for a in v.atoms) else (None, None)
        if items is not None:
            r = []
            for x in items:
                c = const_of(x)
                y = of(x)
                r.append(c if isinstance(c, int) and not isinstance(c, bool) else (y[2] if y[1] == () and y[2] not in ("bool", "int") else None))
            return tuple(r)
        if o[1] == ():
            c = const_of(v)
            return (c if isinstance(c, int) else o[2],)
        return None

    def reduce(self, d, axis, keep):
        if d is None:
            return () if axis is None and keep is False else None
        n = len(d)
        if axis is None:
            return ((1,) * n) if keep else ()
        axes = [x + n if x < 0 else x for x in axis]
        if any(not 0 <= x < n for x in axes):
            return "bad"
        if keep:
            return tuple(1 if i in axes else x for i, x in enumerate(d))
        return tuple(x for i, x in enumerate(d) if i not in axes)

    def axis_arg(self, args, kw, pos):
        """('none',) , ('ax', [..]) or ('unknown',)"""
        v = kw.get("axis", args[pos] if len(args) > pos else None)
        if v is None or v.atoms == frozenset([NONE]):
            return ("none",)
        c = const_of(v)
        if isinstance(c, int) and not isinstance(c, bool):
            return ("ax", [c])
        if len(v.atoms) == 1:
            (a,) = v.atoms
            if a[0] == "t" and all(isinstance(const_of(x), int) for x in a[2]):
                return ("ax", [const_of(x) for x in a[2]])
        return ("unknown",)

    def keep_arg(self, args, kw, pos):
        v = kw.get("keepdims", args[pos] if len(args) > pos else None)
        if v is None:
            return False
        c = const_of(v)
        return c if isinstance(c, bool) else None

    def ann_op(self, v, name, args, kw, e, st, star, where, root="nx"):
        """annotation of nx.name(...), of the NumPy backend or of np.name(...)"""
        self.nops += 1
        if star:
            ks = [of(x)[0] for x in list(args) + list(star) if self.is_array(x)]
            return v.with_ann(ann(kinds(*ks) if ks else TOP[0], None)) if v.ann is None and OPQ in v.atoms else v
        params = list(args)
        first = params[0] if params else kw.get("a", kw.get("arr", kw.get("x", kw.get("shape"))))
        a0 = of(first) if first is not None else TOP
        typ = kw.get("type_as")
        if typ is None:
            pos = {"zeros": 1, "ones": 1, "full": 2, "eye": 2, "arange": 3, "linspace": 3, "from_numpy": None, "coo_matrix": 4, "randperm": 1}.get(name) if root == "nx" else None
            if pos is not None and len(params) > pos:
                typ = params[pos]
        data = [x for x in params if self.is_array(x)] + [x for k, x in kw.items() if k not in ("type_as", "axis", "keepdims", "dtype") and self.is_array(x)]
        anns = [of(x) for x in data]
        seqs = []
        for x in params[:1]:
            if any(y[0] in ("t", "h") for y in x.atoms):
                items, _ = self.iterate(x, st)
                seqs = list(items) if items is not None else [self.elem_of(x, st)]
        sanns = [of(x) for x in seqs if self.is_array(x)]
        # where it lives
        if name in ("to_numpy",):
            k = frozenset([N])
        elif name in CTOR or name in ("eye", "arange", "linspace", "from_numpy", "rand", "randn", "randperm", "coo_matrix") and root == "nx":
            if where != "np":
                self.made.add((self.frames[-1].fi.fid, e.lineno))
            if where == "np":
                # with the dtype of an argument only where the backend is NumPy
                k = frozenset([B]) if "dtype" in kw and B in of(kw["dtype"])[0] else frozenset([N])
            elif typ is not None and typ.atoms != frozenset([NONE]):
                k = kinds(of(typ)[0])
                if N in k and Q not in k and B not in k:
                    self.arr("mixnumpy", e, "type_as is a NumPy array")
                if typ.ann is None and typ.atoms & {NONE}:
                    k = TOP[0]
            else:
                fi = self.frames[-1].fi
                # an argument type_as left out, or an array that is None here: left to the caller
                k = frozenset([D, "D@%s:%d" % (fi.fid, e.lineno)]) if typ is None or "type_as" in params_of(fi) else TOP[0]
        else:
            k = self.op_kinds(anns + sanns, e)
            if where == "nx":
                if N in k and Q not in k and name not in ("from_numpy", "isscalar") and any(x[1] != () and N in x[0] for x in anns + sanns):
                    self.arr("mixnumpy", e, "a NumPy array is given to an operation of the backend")
            else:
                if B in k and Q not in k:
                    self.arr("mixnumpy", e, "an array of the backend is given to NumPy")
            if k == frozenset([S]):
                k = TOP[0] if where == "nx" else frozenset([S])
                if where != "nx" and not anns and not sanns:
                    k = frozenset([N]) if root in ("numpy", "scipy") else TOP[0]
            elif where == "np" and root != "nx" and (B not in k or name in ("array", "asarray", "ascontiguousarray")):
                k = frozenset([N])
        d, val = self.op_dims(name, params, kw, e, st, a0, anns, seqs, sanns, root)
        if name in ("dtype_device", "device_type", "issparse", "seed", "is_floating_point", "bitsize"):
            return v
        if name in ("allclose", "array_equal", "isscalar"):
            return v
        if d == "multi":
            return v
        if d == () and root == "numpy":
            k = frozenset([S]) if k <= {N, S} else k
        if isinstance(d, list):      # several results
            if len(v.atoms) == 1:
                (a,) = v.atoms
                if a[0] == "t" and len(a[2]) == len(d):
                    return V(frozenset([("t", a[1], tuple(x.with_ann(ann(k, dd)) for x, dd in zip(a[2], d)))]), v.deps, v.alias)
            return v
        if any(a[0] == "t" for a in v.atoms):
            if name in ("to_numpy", "detach") and len(v.atoms) == 1:
                (a,) = v.atoms
                its = [x for x in params]
                if len(its) == len(a[2]):
                    kk = frozenset([N]) if name == "to_numpy" else None
                    return V(frozenset([("t", a[1], tuple(x.with_ann(ann(kk or of(y)[0], of(y)[1], of(y)[2])) for x, y in zip(a[2], its)))]), v.deps, v.alias)
            return v
        if noarr(v):
            return v
        return v.with_ann(ann(k, d, val))

    def op_dims(self, name, params, kw, e, st, a0, anns, seqs, sanns, root):
        d0, val0 = a0[1], a0[2]
        if name in SAME:
            if name in ("array", "asarray") and seqs and not self.is_array(params[0]):
                if len(sanns) == len(seqs) and all(x[1] == () for x in sanns):
                    n = len(seqs) if self.iterate(params[0], st)[0] is not None else None
                    return (n,), None
                return None, None
            if name == "array" and params and not self.is_array(params[0]):
                return None, None
            if name == "set_gradients":
                self.gradients(params, kw, e, st)
            return d0, val0 if val0 in ("bool", "int") and name in ("copy", "to_numpy", "from_numpy", "asarray", "array", "detach", "flip", "sort") else None
        if name in BOOLS:
            return d0, "bool"
        if name == "where":
            if len(params) == 1:
                return "multi", None
            d = ()
            for x in params:
                d = self.broadcast(d, of(x)[1], e)
            return d, None
        if name == "clip":
            return d0, None
        if name in BINARY and len(params) >= 2:
            return self.broadcast(d0, of(params[1])[1], e), None
        if name in ("dot",) and len(params) >= 2:
            return self.dot(d0, of(params[1])[1], e), None
        if name in ("matmul",) and len(params) >= 2:
            return self.matmul(d0, of(params[1])[1], e), None
        if name == "outer" and len(params) >= 2:
            d1 = of(params[1])[1]
            return (d0[0], d1[0]) if d0 and d1 and len(d0) == len(d1) == 1 else None, None
        if name in REDUCE:
            pos = 1
            kpos = 2
            if name == "norm" and root != "nx":
                pos, kpos = 2, 3
                if len(params) > 1 or "ord" in kw:
                    pass
            if not self.is_array(params[0]) if params else True:
                if params and sanns and len(sanns) == len(seqs):
                    return None, None
                return None, None
            ax = self.axis_arg(params, kw, pos)
            keep = self.keep_arg(params, kw, kpos)
            val = "int" if name in ARGS else "bool" if name in ("any", "all") else None
            if ax[0] == "unknown" or keep is None:
                return None, val
            d = self.reduce(d0, None if ax[0] == "none" else ax[1], keep)
            if d == "bad":
                self.arr("shape", e, "reduces axis %s of an array of shape %s" % (ax[1], show(d0)))
                return None, val
            return d, val
        if name == "kl_div":
            b = of(params[1])[1] if len(params) > 1 else None
            d = self.broadcast(d0, b, e)
            ax = self.axis_arg(params, kw, 4)
            if ax[0] == "unknown":
                return None, None
            d = self.reduce(d, None if ax[0] == "none" else ax[1], False)
            return None if d == "bad" else d, None
        if name in CTOR:
            s = params[0] if params else kw.get("shape")
            return self.dims_of_arg(s, st), "bool" if const_of(kw.get("dtype")) == "bool" or (kw.get("dtype") is not None and ("ext", "builtins.bool") in kw["dtype"].atoms) else None
        if name in ("rand", "randn"):
            if len(params) == 1 and not self.is_array(params[0]):
                return self.dims_of_arg(params[0], st), None
            r = [self.dims_of_arg(x, st) for x in params]
            return tuple(x[0] if x is not None and len(x) == 1 else None for x in r), None
        if name == "randperm":
            return self.dims_of_arg(params[0], st) if params else None, "int"
        if name == "eye":
            n = self.dims_of_arg(params[0], st) if params else None
            m = kw.get("M", params[1] if len(params) > 1 else None)
            m = self.dims_of_arg(m, st) if m is not None and m.atoms != frozenset([NONE]) else n
            return (n[0], m[0]) if n and m else None, None
        if name == "arange":
            if len(params) == 1 or (root == "nx" and "start" not in kw and "step" not in kw and len(params) == 1):
                x = self.dims_of_arg(params[0], st)
                return x, "int"
            return (None,), "int"
        if name == "linspace":
            n = kw.get("num", params[2] if len(params) > 2 else None)
            x = self.dims_of_arg(n, st) if n is not None else (None,)
            return x if x and len(x) == 1 else (None,), None
        if name == "reshape":
            s = kw.get("shape", kw.get("newshape", params[1] if len(params) > 1 else None))
            return self.reshape(d0, self.dims_of_arg(s, st)), val0 if val0 in ("bool", "int") else None
        if name == "transpose":
            ax = kw.get("axes", params[1] if len(params) > 1 else None)
            if d0 is None:
                return None, None
            if ax is None or ax.atoms == frozenset([NONE]):
                return tuple(reversed(d0)), None
            it, _ = self.iterate(ax, st)
            ii = [const_of(x) for x in it] if it is not None else None
            if ii is None or not all(isinstance(x, int) for x in ii) or len(ii) != len(d0):
                return None, None
            return tuple(d0[x] for x in ii), None
        if name == "squeeze":
            ax = self.axis_arg(params, kw, 1)
            if d0 is None or ax[0] == "unknown":
                return None, None
            if ax[0] == "none":
                return tuple(x for x in d0 if x != 1) if None not in d0 else None, None
            i = ax[1][0] % len(d0) if d0 else 0
            return tuple(x for j, x in enumerate(d0) if j != i), None
        if name in ("unsqueeze", "expand_dims"):
            ax = self.axis_arg(params, kw, 1)
            if d0 is None or ax[0] != "ax":
                return None, None
            i = ax[1][0]
            i = i + len(d0) + 1 if i < 0 else i
            return d0[:i] + (1,) + d0[i:], None
        if name in ("concatenate", "stack", "vstack", "hstack", "column_stack"):
            return self.concat(name, params, kw, e, st, seqs, sanns)
        if name == "repeat":
            ax = self.axis_arg(params, kw, 2)
            n = of(params[1])[2] if len(params) > 1 else None
            n = n if len(params) > 1 and of(params[1])[1] == () else None
            if d0 is None or ax[0] == "unknown":
                return None, None
            if ax[0] == "none":
                return (times(n, *d0),) if n is not None else (None,), None
            i = ax[1][0] % len(d0)
            return tuple(times(x, n) if j == i else x for j, x in enumerate(d0)), None
        if name == "tile":
            r = self.dims_of_arg(params[1] if len(params) > 1 else kw.get("reps"), st)
            if d0 is None or r is None:
                return None, None
            n = max(len(r), len(d0))
            r = (1,) * (n - len(r)) + tuple(r)
            dd = (1,) * (n - len(d0)) + tuple(d0)
            return tuple(times(x, y) for x, y in zip(dd, r)), None
        if name in ("argsort", "cumsum"):
            ax = self.axis_arg(params, kw, 1)
            if ax[0] == "none" and name == "cumsum":
                return (d0 if d0 is not None and len(d0) == 1 else None), None
            return d0, "int" if name == "argsort" else None
        if name == "sort2":
            return [d0, d0], None
        if name == "take_along_axis":
            i = of(params[1])[1] if len(params) > 1 else None
            if i is not None and d0 is not None:
                self.nchecks += 1
                if len(i) != len(d0) and self.axis_arg(params, kw, 2)[0] == "ax":
                    self.arr("shape", e, "takes along an axis of shape %s with indices of shape %s" % (show(d0), show(i)))
            return i, val0 if val0 in ("bool", "int") else None
        if name == "searchsorted":
            i = of(params[1])[1] if len(params) > 1 else None
            return i, "int"
        if name in ("diag", "diagonal"):
            if d0 is None:
                return None, None
            if len(params) > 1 or "k" in kw:
                return None, None
            return ((d0[0], d0[0]) if len(d0) == 1 else (d0[0],) if len(d0) == 2 and d0[0] == d0[1] else None), None
        if name in ("trace", "det"):
            return (tuple(d0[:-2]) if d0 is not None and len(d0) > 1 else None), None
        if name == "pinv":
            return (d0[:-2] + (d0[-1], d0[-2]) if d0 is not None and len(d0) > 1 else None), None
        if name == "solve":
            b = of(params[1])[1] if len(params) > 1 else None
            return b, None
        if name == "eigh":
            return ([tuple(d0[:-1]), d0] if d0 else "multi"), None
        if name == "slogdet":
            return ([tuple(d0[:-2])] * 2 if d0 is not None and len(d0) > 1 else "multi"), None
        if name == "meshgrid" and len(anns) == len(params) == 2:
            n = [x[1][0] if x[1] is not None and len(x[1]) == 1 else None for x in anns]
            return [tuple(n if "indexing" in kw else n[::-1])] * 2, None
        if name in ("qr", "unique", "meshgrid", "dtype_device", "sparse_coo_data"):
            return "multi", None
        if name == "einsum":
            return self.einsum(params, e, st), None
        if name == "zero_pad":
            pw = kw.get("pad_width", params[1] if len(params) > 1 else None)
            it, _ = self.iterate(pw, st) if pw is not None and any(a[0] in ("t", "h") for a in pw.atoms) else (None, None)
            if d0 is None or it is None or len(it) != len(d0):
                return None, None
            r = []
            for x, p in zip(d0, it):
                pp = self.dims_of_arg(p, st)
                r.append(plus(plus(x, pp[0]), pp[1]) if pp is not None and len(pp) == 2 else None)
            return tuple(r), None
        if name == "coo_matrix":
            s = kw.get("shape", params[3] if len(params) > 3 else None)
            return self.dims_of_arg(s, st), None
        if name in ("append",):
            return (None,), None
        if name in ("ravel", "flatten"):
            return ((times(*d0),) if d0 else None), None
        if name in ("zeros_like",):
            return d0, None
        if name == "cdist" and len(params) >= 2:
            d1 = of(params[1])[1]
            if d0 and d1 and len(d0) == 2 and len(d1) == 2:
                if clash(d0[1], d1[1]):
                    self.arr("shape", e, "distances between points of shapes %s and %s" % (show(d0), show(d1)))
                return (d0[0], d1[0]), None
            return None, None
        return None, None

    def reshape(self, d, s):
        if s is None:
            return None
        if len(s) == 1 and s[0] == -1:
            return (times(*d),) if d else (None,)
        if -1 in s:
            i = list(s).index(-1)
            rest = [x for j, x in enumerate(s) if j != i]
            if d is None or None in d or None in rest:
                return tuple(None if x == -1 else x for x in s)
            q = divide(times(*d), rest)
            return tuple(q if x == -1 else x for x in s)
        return tuple(s)

    def concat(self, name, params, kw, e, st, seqs, sanns):
        if not params or not seqs or len(sanns) != len(seqs):
            if params and self.is_array(params[0]) and name == "stack":
                d0 = of(params[0])[1]
                ax = self.axis_arg(params, kw, 1)
                if d0 and ax[0] in ("none",) or (ax[0] == "ax" and ax[1] == [0]):
                    return d0, None
            return None, None
        exact = self.iterate(params[0], st)[0] is not None
        ax = self.axis_arg(params, kw, 1)
        i = 0 if ax[0] == "none" else ax[1][0] if ax[0] == "ax" else None
        if name in ("vstack", "hstack", "column_stack") or i is None:
            return None, None
        ds = [x[1] for x in sanns]
        if any(x is None for x in ds) or len({len(x) for x in ds}) != 1:
            return None, None
        n = len(ds[0])
        if name == "stack":
            r = ds[0]
            for x in ds[1:]:
                for p, q in zip(r, x):
                    if clash(p, q):
                        self.arr("shape", e, "stacks arrays of shapes %s and %s" % (show(r), show(x)))
                r = join_dims(r, x)
            i = i + n + 1 if i < 0 else i
            return r[:i] + (len(seqs) if exact else None,) + r[i:], None
        if n == 0:
            return None, None
        i = i + n if i < 0 else i
        if i >= n:
            return None, None
        tot = 0
        r = list(ds[0])
        for x in ds:
            for j, (p, q) in enumerate(zip(r, x)):
                if j != i and clash(p, q):
                    self.arr("shape", e, "concatenates arrays of shapes %s and %s" % (show(tuple(r)), show(x)))
                elif j != i and p is None:
                    r[j] = q
            tot = plus(tot, x[i]) if tot is not None else None
        r[i] = tot if exact else None
        return tuple(r), None

    def einsum(self, params, e, st):
        spec = const_of(params[0]) if params else None
        if not isinstance(spec, str) or "." in spec:
            return None
        ins, _, out = spec.replace(" ", "").partition("->")
        ins = ins.split(",")
        if len(ins) != len(params) - 1:
            return None
        bind = {}
        for s, v in zip(ins, params[1:]):
            d = of(v)[1]
            if d is None:
                continue
            if len(d) != len(s):
                self.arr("shape", e, "einsum operand '%s' has shape %s" % (s, show(d)))
                return None
            for c, x in zip(s, d):
                if c in bind and clash(bind[c], x):
                    self.arr("shape", e, "einsum index %s is %s and %s" % (c, bind[c], x))
                if x is not None and (bind.get(c) is None or is_sym(x)):
                    bind[c] = x
        self.nchecks += 1
        return tuple(bind.get(c) for c in out)

    def gradients(self, params, kw, e, st):
        """nx.set_gradients(val, inputs, grads): a gradient has the shape of its input"""
        ins = kw.get("inputs", params[1] if len(params) > 1 else None)
        gs = kw.get("grads", params[2] if len(params) > 2 else None)
        if ins is None or gs is None:
            return
        a = self.iterate(ins, st)[0] if any(x[0] in ("t", "h") for x in ins.atoms) else None
        b = self.iterate(gs, st)[0] if any(x[0] in ("t", "h") for x in gs.atoms) else None
        if a is None or b is None:
            return
        self.nchecks += 1
        if len(a) != len(b):
            self.arr("grad", e, "%d inputs get %d gradients" % (len(a), len(b)))
            return
        for i, (x, y) in enumerate(zip(a, b)):
            p, q = of(x)[1], of(y)[1]
            if p is None or q is None:
                continue
            if len(p) != len(q) or any(clash(s, t) or (t == 1 and is_sym(s)) for s, t in zip(p, q)):
                self.arr("grad", e, "input %d of shape %s gets a gradient of shape %s" % (i, show(p), show(q)))

    # arguments of the compiled solvers: (indices of weights of the source, of the target, of the cost)
    NATIVE = {"emd_c": ((0,), (1,), 2), "emd_1d_sorted": ((0, 2), (1, 3), None)}

    def ann_ext(self, v, dotted, args, kw, e, st, star):
        parts = dotted.split(".")
        root, name = parts[0], parts[-1]
        if root == "builtins":
            if name == "len" and args:
                o = of(args[0])
                if isinstance(o[2], tuple) and o[2][:1] == ("shape",):
                    return const(len(o[2]) - 1, v.deps)
                if o[1]:
                    return v.with_ann((frozenset([S]), (), o[1][0]))
            if name == "sum" and args:
                items = self.iterate(args[0], st)[0] if any(x[0] in ("t", "h") for x in args[0].atoms) else None
                parts = list(items) if items else [self.elem_of(args[0], st)]
                parts += list(args[1:2])
                d = of(parts[0])[1]
                for x in parts[1:]:
                    d = self.broadcast(d, of(x)[1], e)
                return v.with_ann(ann(kinds(*[of(x)[0] for x in parts]), d))
            if name in ("int", "float", "abs", "max", "min", "round"):
                if name == "int" and args and of(args[0])[1] == ():
                    return v.with_ann((frozenset([S]), (), of(args[0])[2]))
                if len(args) > 1 and name in ("max", "min"):
                    ks = [of(x)[0] for x in args]
                    return v.with_ann(ann(kinds(*ks), () if all(of(x)[1] == () for x in args) else None))
                if args and name in ("int", "float"):
                    return v.with_ann(SCALAR)
                return v.with_ann(ann(of(args[0])[0], None)) if args else v
            return v
        if name == "partial" or noarr(v):
            return v
        native = name.startswith("emd_") and "emd_wrap" in dotted or name in ("emd_c", "emd_c_lazy", "emd_1d_sorted", "check_result", "emd_c_sparse")
        if native or root in ("numpy", "scipy", "math"):
            for x in list(args) + list(kw.values()):
                if self.is_array(x) and B in of(x)[0] and Q not in of(x)[0] and name not in ("isscalar", "shape", "ndim"):
                    if not (root == "numpy" and name in ("array", "asarray") or parts[1:2] == ["testing"]):
                        self.arr("mixnumpy", e, "an array of the backend is given to %s" % name)
            if native:
                if name == "emd_c" and len(args) >= 3:
                    p, q, m = of(args[0])[1], of(args[1])[1], of(args[2])[1]
                    self.nchecks += 1
                    for x, i in ((p, 0), (q, 1)):
                        if x and m and len(x) == 1 and len(m) == 2 and clash(x[0], m[i]):
                            self.arr("shape", e, "emd_c gets weights of shape %s for axis %d of a cost of shape %s" % (show(x), i, show(m)))
                if name == "check_result":
                    return v
                return self.native(v, name, args)
            if root == "numpy" and name in ("testing", "isclose", "finfo", "errstate", "seterr"):
                return v
            if root == "scipy" and name not in ("cdist", "logsumexp", "expm", "sqrtm", "inv", "solve"):
                return v
            if "random" in parts:
                return v
            if parts[1:2] == ["testing"]:
                return v
            return self.ann_op(v, name, args, kw, e, st, star, "np", root if root != "math" else "numpy")
        return v

    # results of the compiled solvers: a plan, a vector of the source, of the target, numbers ("n"), vectors of another length (None)
    SOLVED = {"emd_c": "pnstn", "emd_c_sparse": "vvvnstn", "emd_c_lazy": "vvvnstn", "emd_1d_sorted": "vvn"}

    def native(self, v, name, args):
        res = self.SOLVED.get(name)
        if res is None:
            return v.with_ann((frozenset([N]), None, None))
        ds = [of(x)[1] for x in args[:2]]
        n, m = [d[0] if d and len(d) == 1 else None for d in ds] if len(ds) == 2 else (None, None)
        dims = {"p": (n, m), "s": (n,), "t": (m,), "n": (), "v": None}
        return tup([opq(v.deps).with_ann(SCALAR if c == "n" else ann(frozenset([N]), dims[c])) for c in res])

    def ann_method(self, v, attr, base, args, kw, e, st):
        k, d, val = of(base)
        if noarr(v):
            return v
        if attr in METHODS_SAME:
            k2 = frozenset([N]) if attr == "numpy" else k
            return v.with_ann(ann(k2, d, val if attr in ("copy", "clone", "detach", "cpu", "numpy") else None))
        if attr in REDUCE:
            ax = self.axis_arg(args, kw, 0)
            keep = self.keep_arg(args, kw, 1)
            vv = "int" if attr in ARGS else None
            if ax[0] == "unknown" or keep is None:
                return v.with_ann(ann(k, None, vv))
            r = self.reduce(d, None if ax[0] == "none" else ax[1], keep)
            if r == "bad":
                self.arr("shape", e, "reduces axis %s of an array of shape %s" % (ax[1], show(d)))
                r = None
            if r == () and k == frozenset([N]):
                k = frozenset([S])
            return v.with_ann(ann(k, r, vv))
        if attr == "item":
            return v.with_ann(SCALAR)
        if attr in ("dot", "matmul", "mm") and args:
            return v.with_ann(ann(self.op_kinds([(k, d, val), of(args[0])], e), self.dot(d, of(args[0])[1], e)))
        if attr == "reshape":
            s = args[0] if len(args) == 1 else tup(args)
            return v.with_ann(ann(k, self.reshape(d, self.dims_of_arg(s, st)), val if val in ("bool", "int") else None))
        if attr in ("ravel", "flatten"):
            return v.with_ann(ann(k, (times(*d),) if d else None, val if val in ("bool", "int") else None))
        if attr == "transpose":
            if not args:
                return v.with_ann(ann(k, tuple(reversed(d)) if d is not None else None))
            return v.with_ann(ann(k, None))
        if attr in ("squeeze", "argsort", "repeat", "diagonal", "trace", "unsqueeze"):
            r = self.op_dims(attr, [V(frozenset([OPQ]), ann=(k, d, val))] + list(args), kw, e, st, (k, d, val), [], [], [], "numpy")
            if isinstance(r[0], (tuple, type(None))):
                return v.with_ann(ann(k, r[0], r[1]))
        return v.with_ann(ann(k, None)) if OPQ in v.atoms else v

"""Abstract values of the interpreter.

V = (atoms, deps, alias): a set of possible shapes, the labels (parameters of the function
under analysis) the value is computed from, and the labels whose memory it may share."""

EMPTY = frozenset()
MAXCONST = 10


class V:
    __slots__ = ("atoms", "deps", "alias", "ann", "_h")

    def __init__(self, atoms, deps=EMPTY, alias=EMPTY, ann=None):
        self.atoms = atoms
        self.deps = deps
        self.alias = alias
        self.ann = ann  # what is known of the array or number among the atoms (arrays.py), None: nothing
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.atoms, self.deps, self.alias, self.ann))
        return self._h

    def __eq__(self, o):
        return (
            self is o
            or isinstance(o, V)
            and self.atoms == o.atoms
            and self.deps == o.deps
            and self.alias == o.alias
            and self.ann == o.ann
        )

    def __repr__(self):
        return "V(%s|%s|%s)" % (
            ",".join(sorted(map(fmt_atom, self.atoms))),
            ",".join(sorted(self.deps)),
            ",".join(sorted(self.alias)),
        )

    def with_(self, atoms=None, deps=None, alias=None):
        return V(
            self.atoms if atoms is None else atoms,
            self.deps if deps is None else deps,
            self.alias if alias is None else alias,
            self.ann,
        )

    def with_ann(self, ann):
        return self if ann == self.ann else V(self.atoms, self.deps, self.alias, ann)


def fmt_atom(a):
    t = a[0]
    if t == "c":
        return repr(a[2])
    if t == "t":
        return "(%s)" % ", ".join(map(repr, a[2]))
    if t in ("f", "m"):
        return "<%s>" % a[1]
    return ":".join(str(x) for x in a if not isinstance(x, (V, tuple, frozenset)))


def const(x, deps=EMPTY):
    return V(frozenset([("c", type(x).__name__, x)]), deps)


OPQ = ("o",)
OPQT = ("o+",)
OPQF = ("o-",)
NX = ("nx",)
SHAPE = ("shape",)  # the shape of an array: positive dimensions
LEN = ("len",)  # len() of an opaque collection
UNDEF = ("undef",)
NEVER = ("never",)  # a tolerance that no error can meet
UNK = ("u",)  # a string equal to no literal of the program
NONE = ("c", "NoneType", None)
TRUE = ("c", "bool", True)
FALSE = ("c", "bool", False)
ANYSTR = ("s", EMPTY)
VNONE = V(frozenset([NONE]))
VBOOL = V(frozenset([TRUE, FALSE]))


def opq(deps=EMPTY, alias=EMPTY):
    return V(frozenset([OPQ]), deps, alias)


def num(deps=EMPTY, sign="any"):
    return V(frozenset([("n", sign)]), deps)


def tup(elems, kind="tuple"):
    d = EMPTY
    al = EMPTY
    for e in elems:
        d |= e.deps
        al |= e.alias
    return V(frozenset([("t", kind, tuple(elems))]), d, al)


_ORD = {"pos": 1, "nn": 2, "any": 3}


def sign_of(a):
    if a[0] == "n":
        return a[1]
    if a[0] == "len":
        return "nn"
    if a[0] == "c" and a[1] in ("int", "float"):
        x = a[2]
        return "pos" if x > 0 else ("nn" if x == 0 else "any")
    return None


def norm_atoms(atoms):
    """merge numbers, cap constants, merge tuples of one length"""
    if len(atoms) <= 1:
        return atoms
    nums = [a for a in atoms if a[0] in ("n", "len") or (a[0] == "c" and a[1] in ("int", "float"))]
    if len(nums) > 1:
        s = max((sign_of(a) for a in nums), key=_ORD.get)
        atoms = frozenset([a for a in atoms if a not in nums] + [("n", s)])
    if OPQ in atoms or (OPQT in atoms and OPQF in atoms):
        atoms = frozenset([a for a in atoms if a not in (OPQT, OPQF)] + [OPQ])
    strs = [a for a in atoms if a[0] == "s" or (a[0] == "c" and a[1] == "str")]
    if any(a[0] == "s" for a in strs) and len(strs) > 1:
        ex = None
        for a in strs:
            e = a[1] if a[0] == "s" else None
            if e is not None:
                ex = e if ex is None else ex & e
        ex = frozenset(x for x in ex if not any(a[0] == "c" and a[2] == x for a in strs))
        atoms = frozenset([a for a in atoms if a not in strs] + [("s", ex)])
    elif len(strs) > MAXCONST:
        atoms = frozenset([a for a in atoms if a not in strs] + [ANYSTR])
    tups = {}
    for a in atoms:
        if a[0] == "t":
            tups.setdefault((a[1], len(a[2])), []).append(a)
    for k, l in tups.items():
        if len(l) > 1:
            el = tuple(join_all([x[2][i] for x in l]) for i in range(k[1]))
            atoms = frozenset([a for a in atoms if a not in l] + [("t", k[0], el)])
    if len(tups) > 4:
        d = [a for a in atoms if a[0] == "t"]
        atoms = frozenset([a for a in atoms if a not in d] + [OPQ])
    fs = [a for a in atoms if a[0] == "f"]
    if len(fs) > 1:
        byid = {}
        for a in fs:
            byid.setdefault(a[1], []).append(a)
        for fid, l in byid.items():
            if len(l) > 1:
                caps = {}
                for a in l:
                    for n, v in a[2]:
                        caps[n] = join(caps[n], v) if n in caps else v
                atoms = frozenset([a for a in atoms if a not in l] + [("f", fid, tuple(sorted(caps.items())))])
    if len(atoms) > 24:
        keep = frozenset(a for a in atoms if a in (NONE, UNDEF, TRUE, FALSE) or a[0] in ("f", "h"))
        atoms = keep | {OPQ}
    return atoms


def join(a, b):
    if a is b or a == b:
        return a
    at = a.atoms | b.atoms
    return V(norm_atoms(at), a.deps | b.deps, a.alias | b.alias, a.ann if a.ann == b.ann else join_ann(a, b))


def join_ann(a, b):
    from . import arrays

    return arrays.join_ann(a, b)


def join_all(vs):
    vs = list(vs)
    if not vs:
        return opq()
    r = vs[0]
    for v in vs[1:]:
        r = join(r, v)
    return r


class Obj:
    """heap object: kind in dict, list, inst, set

    dict: items {key: V} (certainly present unless in may), open: further unknown keys except absent
    list: exact (tuple of V) or None, elem V or None (empty), nonempty
    inst: cid, items"""

    __slots__ = ("kind", "items", "may", "open", "elem", "exact", "cid", "absent", "_h")

    def __init__(self, kind, items=(), may=EMPTY, open_=False, elem=None, exact=None, cid=None, absent=EMPTY):
        self.kind = kind
        self.items = items  # tuple of (key, V) sorted by repr(key)
        self.may = may
        self.open = open_
        self.elem = elem
        self.exact = exact
        self.cid = cid
        self.absent = absent
        self._h = None

    def key(self):
        return (self.kind, self.items, self.may, self.open, self.elem, self.exact, self.cid, self.absent)

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return self is o or isinstance(o, Obj) and self.key() == o.key()

    def get(self, k):
        for kk, v in self.items:
            if kk == k and type(kk) is type(k):
                return v
        return None

    def set(self, k, v, weak=False):
        d = dict(self.items)
        may = self.may
        if weak:
            if k in d:
                d[k] = join(d[k], v)
            else:
                d[k] = v
                may = may | {k}
        else:
            d[k] = v
            may = may - {k}
        return self.rep(items=mk(d), may=may, absent=self.absent - {k})

    def delete(self, k):
        d = dict(self.items)
        d.pop(k, None)
        return self.rep(items=mk(d), may=self.may - {k}, absent=self.absent | {k})

    def rep(self, **kw):
        o = Obj(self.kind, self.items, self.may, self.open, self.elem, self.exact, self.cid, EMPTY if "open_" in kw else self.absent)
        for k, v in kw.items():
            setattr(o, "open" if k == "open_" else k, v)
        return o

    def values(self):
        for _, v in self.items:
            yield v
        if self.elem is not None:
            yield self.elem
        if self.exact is not None:
            yield from self.exact

    def map(self, f):
        return Obj(
            self.kind,
            tuple((k, f(v)) for k, v in self.items),
            self.may,
            self.open,
            f(self.elem) if self.elem is not None else None,
            tuple(f(v) for v in self.exact) if self.exact is not None else None,
            self.cid,
            self.absent,
        )

    def __repr__(self):
        return "Obj(%s %s may=%s open=%s elem=%s exact=%s %s)" % (
            self.kind, dict(self.items), set(self.may), self.open, self.elem, self.exact, self.cid)


def mk(d):
    return tuple(sorted(d.items(), key=lambda kv: (type(kv[0]).__name__, repr(kv[0]))))


def join_obj(a, b):
    if a == b:
        return a
    if a.kind != b.kind:
        return Obj("dict", (), EMPTY, True, opq())
    da, db = dict(a.items), dict(b.items)
    d = {}
    may = a.may | b.may
    for k in list(da) + [k for k in db if k not in da]:
        if k in da and k in db:
            d[k] = join(da[k], db[k])
        else:
            d[k] = da.get(k) or db.get(k)
            may = may | {k}
    elem = a.elem if b.elem is None else (b.elem if a.elem is None else join(a.elem, b.elem))
    exact = None
    if a.exact is not None and b.exact is not None and len(a.exact) == len(b.exact):
        exact = tuple(join(x, y) for x, y in zip(a.exact, b.exact))
    else:
        for o in (a, b):
            if o.exact is not None:
                for v in o.exact:
                    elem = v if elem is None else join(elem, v)
    absent = EMPTY
    if a.kind == "dict" and (a.open or b.open):
        absent = frozenset(k for k in a.absent | b.absent if all(k in o.absent or (not o.open and k not in dict(o.items)) for o in (a, b)))
    return Obj(a.kind, mk(d), may, a.open or b.open, elem, exact, a.cid if a.cid == b.cid else (a.cid or b.cid), absent)

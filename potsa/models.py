"""What the interpreter assumes about code outside the package: builtins, NumPy, SciPy, and the
methods of the backend objects (their array semantics is the one documented by those libraries)."""

import ast
import re

from .values import *

NX_PARAMS = {"nx"}
# constructors and functions of other packages that draw random numbers
RNG_METHODS = {"rand", "randn", "randint", "choice", "choices", "permutation", "uniform", "normal", "shuffle", "multinomial",
               "random_sample", "random", "standard_normal", "integers", "dirichlet", "exponential", "gamma", "beta", "sample",
               "gauss", "randrange"}
SEEDED_EXT = {"KMeans", "MiniBatchKMeans", "SpectralClustering", "GaussianMixture", "louvain_communities", "asyn_fluidc"}

LIMIT_NAMES = {
    "numItermax", "numIterMax", "max_iter", "maxiter", "max_iters", "numItermax_gw", "numInnerItermax",
    "numInnerItermaxSinkhorn", "n_iter", "n_iters", "itermax", "nb_iter_max", "numItermax_sinkhorn",
    "n_iter_max", "max_iter_inner", "numInnerItermax", "nitermax", "max_iter_log", "niter", "numItermaxEmd",
    "max_iter_dykstra", "max_inner_iter", "inner_max_iter", "innerIter", "n_iter_inner", "iter_max", "maxIter",
    "num_iter", "sgd_iter", "iterations", "niters", "n_iterations", "K", "n_projections", "batch_size", "nb_samples_grad", "nb_samples_grad_C", "nb_samples_grad_P", "nb_samples", "n_samples", "numProj", "n_atoms", "D", "n_jobs", "n_projs", "n_epochs", "nb_dummies", "reset", "log_interval", "inner_iter", "max_iter_in",
}

_NUM = re.compile(r"\b(int|float|integer|number|scalar|double)\b", re.I)


def scalar_doc(t):
    """class of a documented parameter type: 'num', 'str', 'bool' or None"""
    s = re.sub(r"\(.*?\)", lambda m: m.group(0) if "option" in m.group(0).lower() or "default" in m.group(0).lower() else " ARR ", t)
    low = s.lower()
    if "array" in low or "list" in low or "ARR" in s or "matrix" in low or "callable" in low or "function" in low:
        return "str" if low.startswith("str") else None
    if low.startswith("bool"):
        return "bool"
    if low.startswith("str") or low.startswith("{'"):
        return "str"
    if _NUM.search(low):
        return "num"
    return None


VIEW_ATTRS = {"T", "real", "imag", "flat", "mT", "H", "value"}

# backend methods whose result may share memory with the (first) argument
NX_ALIAS = {
    "reshape", "transpose", "squeeze", "unsqueeze", "detach", "from_numpy", "to_numpy", "flip", "real", "imag",
    "todense", "tocsr", "coo_matrix", "set_gradients", "diag", "conj", "eliminate_zeros", "_detach", "_to_numpy",
    "_from_numpy", "full_like", "sparse_coo_data", "nan_to_num",
}
NX_ALIAS -= {"full_like", "nan_to_num", "conj", "diag", "eliminate_zeros"}
NX_BOOL = {"issparse", "is_floating_point", "allclose", "array_equal"}
NX_STR = {"device_type", "_bench_not"}

NP_VIEW = {
    "asarray", "asanyarray", "ravel", "reshape", "transpose", "squeeze", "expand_dims", "swapaxes", "atleast_1d",
    "atleast_2d", "moveaxis", "broadcast_to", "real", "imag", "asfortranarray", "ascontiguousarray", "flip",
    "rollaxis", "split", "array_split", "nditer", "broadcast_arrays", "as_tensor", "from_numpy", "unsqueeze",
}
NP_INPLACE = {"fill_diagonal", "copyto", "put", "place", "putmask", "put_along_axis"}
METH_VIEW = {
    "reshape", "ravel", "transpose", "squeeze", "view", "swapaxes", "T", "detach", "cpu", "to", "numpy", "unsqueeze",
    "expand", "permute", "contiguous", "diagonal", "flatten_", "t", "type", "toarray", "todense", "cuda", "double",
    "float", "clone_not",
}
METH_VIEW -= {"flatten_", "clone_not"}
METH_INPLACE = {"sort", "fill", "resize", "put", "partition", "itemset", "setfield", "setflags", "eliminate_zeros",
                "sum_duplicates", "setdiag", "byteswap_"}
STR_KEEP = {"lower", "upper", "strip", "casefold", "title", "capitalize"}

VALIDATORS = {"scipy.spatial.distance.cdist", "scipy.optimize.minimize"}

NUM_NP = {"numpy.log", "numpy.sqrt", "numpy.exp", "numpy.abs", "math.sqrt", "math.log", "numpy.ceil", "numpy.floor"}


def _d(args, kw, star=(), dstar=()):
    d = EMPTY
    for x in args:
        d |= x.deps
    for x in kw.values():
        d |= x.deps
    for x in star:
        d |= x.deps
    for _, x in dstar:
        d |= x.deps
    return d


def special_inpkg(I, g, args, kw, e, st, star=()):
    """calls inside the package whose contract is used instead of their body"""
    if g.parent is None and g.cls is None:
        if g.name == "get_backend" and g.module.name == "ot.backend":
            return V(frozenset([NX]))
        if g.name == "list_to_array" and g.module.name == "ot.utils":
            r = []
            for v in args:
                at = set()
                al = v.alias
                for a in v.atoms:
                    if a[0] in ("t", "h"):
                        at.add(OPQ)
                    else:
                        at.add(a)
                r.append(V(norm_atoms(frozenset(at)), v.deps, al, v.ann))
            if star:
                el = join_all(r + list(star))
                return I.new_obj(e, st, Obj("list", elem=el)).with_(deps=el.deps)
            if len(r) == 1:
                return r[0]
            return tup(r, "list")
    return None


def _alias(args):
    return args[0].alias if args else EMPTY


def _seed_deps(v):
    if not v.deps and v.atoms and all(a[0] == "n" or (a[0] == "c" and a[1] == "int") for a in v.atoms):
        return frozenset(["#const"])
    return v.deps


def backend_call(I, name, args, kw, e, st, star, dstar):
    d = _d(args, kw, star, dstar)
    I.escape(args, kw, st)
    ents = list(args) + list(kw.values()) + list(star)
    if name in ("seed",):
        v = args[0] if args else kw.get("seed")
        if v is not None:
            st.ev = frozenset(x for x in st.ev if type(x) is not tuple) | {("seeded", _seed_deps(v))}
        return opq(d)
    if name in ("rand", "randn", "randperm"):
        sd = EMPTY
        for x in st.ev:
            if type(x) is tuple:
                sd |= x[1]
        I.fact(("rngdraw", "nx." + name, I.frames[-1].fi.fid, e.lineno, sd))
        return opq(d)
    if name in NX_BOOL:
        return V(frozenset([TRUE, FALSE]), d)
    if name in NX_STR:
        return V(frozenset([ANYSTR]), d)
    if name == "dtype_device":
        return tup([opq(d), opq(d)])
    if name in ("to_numpy", "from_numpy", "detach") and len(args) > 1 and name != "from_numpy":
        return tup([opq(v.deps, v.alias) for v in args], "list")
    if name in ("to_numpy", "detach") and len(args) == 1:
        v = args[0]
        keep = frozenset(a if a[0] in ("n", "o", "o+", "o-") or (a[0] == "c" and a[1] in ("int", "float", "bool")) or a == NEVER else OPQ for a in v.atoms)
        return V(norm_atoms(keep), d, v.alias)
    if name == "from_numpy":
        v = args[0] if args else kw.get("a", opq())
        return opq(d, v.alias)
    if name == "set_gradients":
        return opq(d, _alias(args))
    if name in ("slogdet", "eigh", "qr"):
        return tup([opq(d), opq(d)])
    if name == "unique":
        return opq(d)
    if name == "where" and len(args) == 1 and not star:
        return opq(d)
    if name == "meshgrid":
        return tup([opq(d) for _ in args], "list") if not star else opq(d)
    if name in NX_ALIAS:
        al = EMPTY
        for v in (list(args) + list(kw.values()))[:1]:
            al = v.alias
        if name == "coo_matrix":
            al = EMPTY
        return opq(d, al)
    return opq(d)


def _len(v, st):
    ats = set()
    for a in v.atoms:
        if a[0] == "t":
            ats.add(("c", "int", len(a[2])))
        elif a[0] == "h" and a[1] in st.heap and st.heap[a[1]].exact is not None and st.heap[a[1]].kind == "list":
            ats.add(("c", "int", len(st.heap[a[1]].exact)))
        elif a == NONE:
            continue
        elif a[0] in ("o", "o+", "o-", "shape", "glob"):
            ats.add(LEN)
        else:
            ats.add(("n", "nn"))
    if not ats:
        return None
    return V(norm_atoms(frozenset(ats)), v.deps)


def ext_call(I, dotted, args, kw, e, st, star, dstar):
    from .absint import Infeasible

    d = _d(args, kw, star, dstar)
    fid = I.frames[-1].fi.fid
    parts = dotted.split(".")
    root, name = parts[0], parts[-1]
    hk = I.hooks.get("ext_call")
    if hk:
        r = hk(dotted, args, kw, e, st)
        if r is not None:
            return r
    if "out" in kw:
        I.mutate(kw["out"], e, "out= of %s" % dotted)
    if root == "builtins":
        return builtin(I, name, args, kw, e, st, star, dstar, d)
    if name == "check_result":  # the compiled solver's status: a message or None
        return V(frozenset([NONE, ANYSTR]), d)
    if dotted == "warnings.warn":
        I.fact(("warn", fid, e.lineno, " ".join(n.value for a in e.args for n in ast.walk(a) if isinstance(n, ast.Constant) and isinstance(n.value, str))
                + " ".join(str(b[2]) for a in args for b in a.atoms if b[0] == "c")))
        if not I.frames[-1].catch:
            st.ev = st.ev | {"warned"}
        return VNONE
    if dotted == "warnings.catch_warnings":
        return V(frozenset([("ctx", "warnings.catch_warnings")]))
    if dotted.startswith("warnings."):
        if not I.frames[-1].catch:
            I.fact(("gstate", "%s()" % dotted, fid, e.lineno))
        return opq()
    if dotted in ("numpy.seterr", "numpy.set_printoptions", "os.putenv", "locale.setlocale", "sys.setrecursionlimit",
                  "torch.set_default_dtype", "torch.set_default_tensor_type", "torch.set_grad_enabled",
                  "torch.autograd.set_detect_anomaly", "logging.basicConfig", "torch.set_num_threads",
                  "torch.use_deterministic_algorithms", "torch.manual_seed_not") or dotted.startswith("os.environ."):
        I.fact(("gstate", "%s()" % dotted, fid, e.lineno))
        return opq(d)
    if dotted in ("sys.stdout.write", "sys.stderr.write", "sys.stdout.flush"):
        I.fact(("print", fid, e.lineno))
        return opq()
    if dotted.startswith("numpy.random.") or dotted.startswith("random.") or dotted in ("torch.manual_seed", "torch.rand", "torch.randn"):
        if name in ("RandomState", "default_rng", "Random"):
            return V(frozenset([OPQT]), _seed_deps(args[0]) if args else EMPTY)
        I.fact(("rng", dotted, fid, e.lineno))
        if name in ("shuffle",):
            for v in args:
                I.mutate(v, e, dotted)
        return opq(d)
    if name in SEEDED_EXT and root in ("sklearn", "networkx", "scipy", "cvxopt", "cvxpy"):
        v = kw.get("random_state", kw.get("seed"))
        I.fact(("rngdraw", name, fid, e.lineno, _seed_deps(v) if v is not None else EMPTY))
    if dotted == "functools.partial":
        I.escape(args[1:], kw, st)
        if args:
            f = I.freeze(args[0], st)
            return V(frozenset([("partial", f, tuple(I.freeze(x, st) for x in args[1:]),
                                tuple(sorted((k, I.freeze(x, st)) for k, x in kw.items())))]), d)
        return opq(d)
    if dotted == "functools.reduce" and len(args) >= 2:
        items = I.iterate(args[1], st)[0] if any(a[0] in ("t", "h") for a in args[1].atoms) else None
        if items:
            items = list(args[2:3]) + list(items)
            acc = items[0]
            for x in items[1:]:
                acc = I.call(args[0], [acc, x], {}, e, st)
            return acc
        el = I.elem_of(args[1], st)
        acc = args[2] if len(args) > 2 else el
        try:
            r = I.call(args[0], [join(acc, el), el], {}, e, st)
        except Infeasible:
            r = acc
        return join(acc, r)
    if dotted in ("copy.copy", "copy.deepcopy"):
        return opq(d)
    if name in NP_INPLACE:
        if args:
            I.mutate(args[0], e, dotted)
        return VNONE
    if dotted.endswith(".at") and root == "numpy":
        if args:
            I.mutate(args[0], e, dotted)
        return VNONE
    if root in ("numpy", "torch", "jax", "tensorflow", "cupy") and name in NP_VIEW:
        return opq(d, _alias(args))
    if root == "numpy" and name == "array":
        c = kw.get("copy")
        if c is not None and FALSE in c.atoms:
            return opq(d, _alias(args))
        return opq(d)
    if root == "numpy" and name in ("isscalar",):
        return V(frozenset([TRUE, FALSE]), d)
    if dotted in VALIDATORS:
        if any(UNK in v.atoms and len(v.atoms) == 1 for v in list(args) + list(kw.values())):
            raise Infeasible("ValueError")
        I.escape(args, kw, st)
        return opq(d)
    if dotted in NUM_NP and len(args) >= 1 and all(a[0] == "n" or (a[0] == "c" and a[1] in ("int", "float")) for a in args[0].atoms):
        return num(d)
    if dotted == "collections.namedtuple":
        return opq(d)
    if dotted.startswith("time."):
        return num(EMPTY, "nn")
    I.escape(args, kw, st)
    if dotted.startswith("super."):
        return opq(d)
    return opq(d)


def builtin(I, name, args, kw, e, st, star, dstar, d):
    from .absint import Infeasible

    fid = I.frames[-1].fi.fid
    if name == "print":
        I.fact(("print", fid, e.lineno))
        return VNONE
    if name == "input":
        I.fact(("print", fid, e.lineno))
        return opq()
    if name == "len" and args:
        r = _len(args[0], st)
        if r is None:
            raise Infeasible("TypeError")
        return r
    if name == "range":
        if len(args) == 1:
            ats = set()
            for a in args[0].atoms:
                if a[0] == "c" and a[1] == "int":
                    ats.add(("range", a[2]))
                elif a[0] == "len":
                    ats.add(("range", "pos"))
                else:
                    s = sign_of(a)
                    ats.add(("range", s if s in ("pos", "nn") else "any"))
            if len(ats) > 1:
                sg = {x[1] if not isinstance(x[1], int) else ("pos" if x[1] > 0 else "nn") for x in ats}
                ats = {("range", "pos")} if sg == {"pos"} else {("range", "any")}
            return V(frozenset(ats), d)
        if len(args) >= 2:
            cs = []
            for v in args:
                if len(v.atoms) == 1 and next(iter(v.atoms))[0] == "c":
                    cs.append(next(iter(v.atoms))[2])
            if len(cs) == len(args) and all(isinstance(c, int) for c in cs):
                r = list(range(*cs))
                if len(r) <= 6:
                    return V(frozenset([("t", "tuple", tuple(const(i) for i in r))]), d)
                return V(frozenset([("range", "pos")]), d)
        return V(frozenset([("range", "any")]), d)
    if name == "enumerate" and args:
        items, one = I.iterate(args[0], st)
        if items is not None:
            return tup([tup([const(i), x]) for i, x in enumerate(items)])
        el = I.elem_of(args[0], st)
        k = "enum1" if one else "zip"
        return V(frozenset([(k, "enum", (num(EMPTY, "nn"), el))]), d, args[0].alias)
    if name == "zip" and args:
        its = [I.iterate(a, st)[0] for a in args]
        if all(x is not None for x in its):
            return tup([tup(list(x)) for x in zip(*its)])
        els = tuple(I.elem_of(a, st) for a in args)
        return V(frozenset([("zip", "zip", els)]), d)
    if name in ("list", "tuple", "sorted", "reversed", "iter"):
        if not args:
            return I.new_obj(e, st, Obj("list", exact=())) if name == "list" else tup([])
        items, _ = I.iterate(args[0], st)
        if items is not None and name in ("list", "tuple"):
            if name == "tuple":
                return tup(items).with_(deps=d)
            return I.new_obj(e, st, Obj("list", exact=tuple(items))).with_(deps=d)
        el = I.elem_of(args[0], st)
        if name == "tuple" or name == "iter":
            return V(frozenset([("zip", "tuple", (el,))]), d) if False else opq(d, args[0].alias)
        return I.new_obj(e, st, Obj("list", elem=el)).with_(deps=d)
    if name == "dict":
        dd = dict(kw)
        open_ = bool(dstar)
        elem = None
        for _, v in dstar:
            elem = v if elem is None else join(elem, v)
        if args:
            for a in args[0].atoms:
                if a[0] == "h" and a[1] in st.heap and st.heap[a[1]].kind == "dict":
                    o = st.heap[a[1]]
                    for k, v in o.items:
                        dd.setdefault(k, v)
                    open_ |= o.open
                    if o.elem is not None:
                        elem = o.elem if elem is None else join(elem, o.elem)
                elif a[0] == "cdict":
                    for k, v in a[1]:
                        dd.setdefault(k, v)
                else:
                    open_ = True
        return I.new_obj(e, st, Obj("dict", mk(dd), EMPTY, open_, elem)).with_(deps=d)
    if name in ("set", "frozenset"):
        el = I.elem_of(args[0], st) if args else None
        return I.new_obj(e, st, Obj("set", elem=el)).with_(deps=d)
    if name == "map" and len(args) >= 2:
        items, _ = I.iterate(args[1], st)
        if items is not None and len(args) == 2 and len(items) <= 16:
            return tup([I.call(args[0], [x], {}, e, st) for x in items])
        r = I.call(args[0], [I.elem_of(a, st) for a in args[1:]], {}, e, st)
        return I.new_obj(e, st, Obj("list", elem=r))
    if name in ("min", "max", "abs", "sum", "round", "int", "float", "pow"):
        ats = set()
        src = list(args)
        if len(args) == 1 and name in ("min", "max", "sum"):
            items, _ = I.iterate(args[0], st)
            if items:
                src = items
        signs = []
        nev = False
        for v in src:
            for a in v.atoms:
                if a == NEVER:
                    nev = True
                s = sign_of(a)
                if a[0] == "c" and a[1] == "bool":
                    s = "nn"
                signs.append(s)
        if nev:
            return V(frozenset([NEVER]), d)
        if name in ("int", "float") and len(src) == 1 and len(src[0].atoms) == 1:
            (a,) = src[0].atoms
            if a[0] == "c" and a[1] in ("int", "float", "bool"):
                try:
                    x = int(a[2]) if name == "int" else float(a[2])
                    return const(x, d)
                except (ValueError, OverflowError):
                    pass
        if not signs or any(s is None for s in signs):
            if name in ("int", "float", "round"):
                return num(d)
            if any(a[0] in ("o", "o+", "o-") for v in src for a in v.atoms):
                return opq(d)
            return num(d, "nn" if name == "abs" else "any")
        if name == "abs":
            return num(d, "nn")
        if name == "max":
            # positive as soon as one argument is
            per = []
            for v in src:
                ss = [sign_of(a) for a in v.atoms]
                per.append("pos" if all(s == "pos" for s in ss) else ("nn" if all(s in ("pos", "nn") for s in ss) else "any"))
            s = "pos" if "pos" in per else ("nn" if "nn" in per else "any")
            return num(d, s)
        if name == "min":
            s = "any" if "any" in signs else ("nn" if "nn" in signs else "pos")
            return num(d, s)
        if name in ("int", "round"):
            return num(d, "any" if "any" in signs else "nn") if name == "round" or not all(
                (a[0] == "n" and a[1] == "pos") for v in src for a in v.atoms) else num(d, "pos")
        return num(d, "any" if "any" in signs else "nn")
    if name == "hasattr" and len(args) == 2:
        r = I.has_attr(args[0], args[1], e, st)
        return V(frozenset([TRUE if x else FALSE for x in r]), d)
    if name in ("isinstance", "callable", "issubclass", "any", "all", "bool"):
        return V(frozenset([TRUE, FALSE]), d)
    if name in ("str", "repr", "format"):
        return V(frozenset([ANYSTR]), d)
    if name == "getattr" and len(args) >= 2:
        c = args[1]
        if len(c.atoms) == 1 and next(iter(c.atoms))[0] == "c":
            import ast as _ast

            try:
                has = I.has_attr(args[0], c, e, st) if len(args) > 2 else (True,)
                rs = [I.attr1(a, next(iter(c.atoms))[2], args[0], e, st) for a in args[0].atoms] if True in has else []
                rs = [r for r in rs if r is not None]
                if len(args) > 2:
                    rs.append(args[2])
                if rs:
                    return join_all(rs)
            except Infeasible:
                pass
        return opq(d)
    if name == "setattr" and len(args) >= 3:
        c = args[1]
        if len(c.atoms) == 1 and next(iter(c.atoms))[0] == "c":
            I.store_attr(args[0], next(iter(c.atoms))[2], args[2], e, st)
        else:
            for a in args[0].atoms:
                if a[0] == "h" and a[1] in st.heap:
                    st.heap[a[1]] = st.heap[a[1]].rep(open_=True)
        return VNONE
    if name == "super":
        fr = I.frames[-1]
        fi = fr.fi
        while fi is not None and fi.cls is None:
            fi = fi.parent
        if fi is None:
            return opq()
        selfn = fi.params[0]
        sv = st.env.get(selfn) or opq()
        cid = None
        for a in sv.atoms:
            if a[0] == "h" and a[1] in st.heap:
                cid = st.heap[a[1]].cid
        return V(frozenset([("super", fi.cls.cid, sv, cid or fi.cls.cid)]))
    if name == "type":
        return opq(d)
    if name == "next":
        return I.elem_of(args[0], st) if args else opq(d)
    if name in ("locals", "globals", "vars"):
        return opq(d)
    if name == "open":
        return opq(d)
    if name[:1].isupper():
        return opq(d)  # exception classes
    if name == "slice":
        return V(frozenset([("slice",)]), d)
    I.escape(args, kw, st)
    return opq(d)


def array_method(I, attr, v, args, kw, e, st, star, dstar):
    d = _d(args, kw, star, dstar) | v.deps
    if "out" in kw:
        I.mutate(kw["out"], e, "out= of .%s" % attr)
    isarr = any(a[0] in ("o", "o+", "o-") for a in v.atoms)
    if any(a[0] == "t" for a in v.atoms):
        if attr in ("index", "count"):
            return num(d, "nn")
        if attr in ("append", "extend", "insert", "pop", "remove", "clear", "sort"):
            I.fact(("gstate", ".%s() on a module level or literal sequence" % attr, I.frames[-1].fi.fid, e.lineno))
        return opq(d)
    if any(a[0] == "cdict" for a in v.atoms):
        if attr in ("get",):
            return opq(d)
        if attr in ("update", "setdefault", "pop", "clear", "popitem"):
            I.fact(("gstate", ".%s() on a module level dict" % attr, I.frames[-1].fi.fid, e.lineno))
        (a,) = [x for x in v.atoms if x[0] == "cdict"][:1]
        if attr == "keys":
            return tup([const(k) for k, _ in a[1]])
        if attr == "values":
            return tup([x for _, x in a[1]])
        if attr == "items":
            return tup([tup([const(k), x]) for k, x in a[1]])
        return opq(d)
    if any(a[0] == "glob" for a in v.atoms):
        if attr in ("append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "add"):
            I.fact(("gstate", ".%s() on a module level object" % attr, I.frames[-1].fi.fid, e.lineno))
        I.escape(args, kw, st)
        return opq(d)
    if isarr and (attr in METH_INPLACE or (attr.endswith("_") and not attr.endswith("__")) or attr in (
            "append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault")):
        I.mutate(v, e, ".%s()" % attr)
        if attr.endswith("_"):
            return opq(d, v.alias)
        return opq(d)
    if attr == "copy" or attr == "clone":
        return opq(d)
    if attr == "astype":
        c = kw.get("copy")
        return opq(d, v.alias if c is not None and FALSE in c.atoms else EMPTY)
    if attr in METH_VIEW:
        return opq(d, v.alias)
    if attr in ("keys", "values", "items", "get"):
        return opq(d, v.alias)
    if attr in ("startswith", "endswith", "isdigit"):
        return V(frozenset([TRUE, FALSE]), d)
    if attr in STR_KEEP or attr in ("replace", "format", "join", "split"):
        return opq(d)
    if attr in RNG_METHODS:
        I.fact(("rngdraw", attr, I.frames[-1].fi.fid, e.lineno, frozenset(v.deps)))
    I.escape(args, kw, st)
    return opq(d)


def str_method(I, attr, v, args, kw, e, st):
    d = _d(args, kw) | v.deps
    if attr in STR_KEEP:
        r = []
        for a in v.atoms:
            if a[0] == "c":
                r.append(("c", "str", getattr(a[2], attr)()))
            elif a == UNK:
                r.append(UNK)
            elif a[0] == "s":
                r.append(("s", a[1]))
            else:
                r.append(a)
        return V(norm_atoms(frozenset(r)), d)
    if attr in ("startswith", "endswith"):
        rs = set()
        for a in v.atoms:
            if a == UNK:
                rs.add(FALSE)
                st.ev = st.ev | {"+consulted"}
            elif a[0] == "c" and len(args) == 1 and len(args[0].atoms) == 1 and next(iter(args[0].atoms))[0] == "c":
                rs.add(("c", "bool", getattr(a[2], attr)(next(iter(args[0].atoms))[2])))
            else:
                rs |= {TRUE, FALSE}
        return V(frozenset(rs), d)
    if attr in ("split", "rsplit"):
        return opq(d)
    if attr in ("replace", "format", "join"):
        if UNK in v.atoms and attr == "replace":
            return v
        return V(frozenset([ANYSTR]), d)
    return opq(d)


def container_method(I, attr, oid, args, kw, e, st):
    from .absint import Infeasible

    o = st.heap.get(oid)
    d = _d(args, kw)
    if o is None:
        return opq(d)
    selfv = V(frozenset([("h", oid)]))
    if o.kind in ("list", "set"):
        if attr in ("append", "add"):
            I.mut_obj(oid, e, "." + attr, st)
            v = I.freeze(args[0], st) if args else opq()
            if o.kind == "list" and o.exact is not None and len(o.exact) < 8 and not I.in_loop():
                st.heap[oid] = o.rep(exact=o.exact + (v,))
            else:
                st.heap[oid] = I.list_weak(o, v)
            return VNONE
        if attr in ("extend", "update"):
            I.mut_obj(oid, e, "." + attr, st)
            v = I.elem_of(args[0], st) if args else opq()
            st.heap[oid] = I.list_weak(o, v)
            return VNONE
        if attr == "insert":
            I.mut_obj(oid, e, "." + attr, st)
            st.heap[oid] = I.list_weak(o, args[1] if len(args) > 1 else opq())
            return VNONE
        if attr in ("pop", "remove", "clear", "sort", "reverse", "discard"):
            I.mut_obj(oid, e, "." + attr, st)
            el = I.elem_of(selfv, st)
            st.heap[oid] = I.list_weak(o, None)
            return el if attr == "pop" else VNONE
        if attr == "copy":
            return I.new_obj(e, st, o)
        if attr in ("index", "count"):
            return num(d, "nn")
        return opq(d)
    if o.kind == "dict":
        if attr == "get":
            default = args[1] if len(args) > 1 else VNONE
            k = args[0] if args else opq()
            rs = []
            for a in k.atoms:
                if a[0] == "c":
                    v = o.get(a[2])
                    if v is not None:
                        rs.append(v)
                        if a[2] in o.may:
                            rs.append(default)
                    elif o.open and a[2] not in o.absent:
                        rs.append(o.elem or opq())
                        rs.append(default)
                    else:
                        rs.append(default)
                elif a == UNK:
                    st.ev = st.ev | {"+consulted"}
                    rs.append(default)
                else:
                    rs += list(o.values())
                    rs.append(default)
            r = join_all(rs) if rs else default
            return r.with_(deps=r.deps | k.deps)
        if attr in ("keys",):
            if not o.open and not o.may and o.elem is None:
                return tup([const(k) for k, _ in o.items])
            return V(frozenset([("zip", "k", ())])) if False else opq(d)
        if attr == "values":
            vs = list(o.values())
            if not o.open and not o.may and o.elem is None:
                return tup([v for _, v in o.items])
            return I.new_obj(e, st, Obj("list", elem=join_all(vs) if vs else None))
        if attr == "items":
            if not o.open and not o.may and o.elem is None:
                return tup([tup([const(k), v]) for k, v in o.items])
            vs = list(o.values())
            el = tup([V(frozenset([ANYSTR])), join_all(vs) if vs else opq()])
            return I.new_obj(e, st, Obj("list", elem=el))
        if attr == "update":
            I.mut_obj(oid, e, ".update", st)
            for k, v in kw.items():
                o = o.set(k, v)
            for x in args:
                for a in x.atoms:
                    if a[0] == "h" and a[1] in st.heap and st.heap[a[1]].kind == "dict":
                        p = st.heap[a[1]]
                        for k, v in p.items:
                            o = o.set(k, v, weak=k in p.may or len(x.atoms) > 1)
                        if p.open:
                            o = o.rep(open_=True, elem=p.elem if o.elem is None else (o.elem if p.elem is None else join(o.elem, p.elem)))
                    else:
                        o = o.rep(open_=True, elem=opq(x.deps) if o.elem is None else join(o.elem, opq(x.deps)))
            st.heap[oid] = o
            return VNONE
        if attr in ("pop", "setdefault"):
            I.mut_obj(oid, e, "." + attr, st)
            k = args[0] if args else opq()
            default = args[1] if len(args) > 1 else (VNONE if attr == "setdefault" else None)
            if len(k.atoms) == 1 and next(iter(k.atoms))[0] == "c":
                kk = next(iter(k.atoms))[2]
                v = o.get(kk)
                if attr == "setdefault":
                    if v is not None and kk not in o.may:
                        return v
                    nv = default if v is None else join(v, default)
                    st.heap[oid] = o.set(kk, nv)
                    return nv
                st.heap[oid] = o.delete(kk)
                if v is None:
                    if o.open:
                        r = o.elem or opq()
                        return join(r, default) if default is not None else r
                    if default is not None:
                        return default
                    I.crash("pop of missing key %r" % (kk,), e)
                    raise Infeasible("KeyError")
                return join(v, default) if (kk in o.may and default is not None) else v
            vs = list(o.values())
            if default is not None:
                vs.append(default)
            st.heap[oid] = o.rep(open_=True)
            return join_all(vs) if vs else opq()
        if attr == "copy":
            return I.new_obj(e, st, o)
        if attr in ("clear", "popitem"):
            I.mut_obj(oid, e, "." + attr, st)
            st.heap[oid] = Obj("dict")
            return opq()
        return opq(d)
    return opq(d)

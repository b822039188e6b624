"""P07: every backend offers the same operations, and the package uses no others."""

import ast
import collections

from .. import models

ABSTRACT = "Backend"
# (backend class, operation) -> why it may be missing
EXCEPTIONS = {
    ("CupyBackend", "sparse_coo_data"): "sparse EMD is not offered on this backend and refused with NotImplementedError",
    ("TensorflowBackend", "sparse_coo_data"): "as above",
}
# (backend class, operation, parameter) -> why it may be without effect
UNUSED = {}
for _c, _o, _p, _w in (
    ("CupyBackend", "device_type", "type_as", "arrays of this backend live on one kind of device"),
    ("NumpyBackend", "device_type", "type_as", "arrays of this backend live on one kind of device"),
    ("CupyBackend", "pinv", "hermitian", "only a hint for a faster algorithm"),
    ("TensorflowBackend", "pinv", "hermitian", "only a hint for a faster algorithm"),
    ("CupyBackend", "set_gradients", "inputs", "no automatic differentiation"), ("CupyBackend", "set_gradients", "grads", "no automatic differentiation"),
    ("NumpyBackend", "set_gradients", "inputs", "no automatic differentiation"), ("NumpyBackend", "set_gradients", "grads", "no automatic differentiation"),
    ("JaxBackend", "issparse", "a", "the backend has no sparse arrays"),
    ("NumpyBackend", "assert_same_dtype_device", "a", "NumPy promotes types, there is one device"),
    ("NumpyBackend", "assert_same_dtype_device", "b", "NumPy promotes types, there is one device"),
    ("NumpyBackend", "randperm", "type_as", "a permutation has integer type and there is one device"),
):
    UNUSED[(_c, _o, _p)] = _w


def body(fn):
    return [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]


def refuses(fn):
    b = body(fn)
    return len(b) == 1 and isinstance(b[0], ast.Raise) and "NotImplementedError" in ast.unparse(b[0])


def sig(fn):
    """(positional names, keyword-only names, *args, **kwargs, defaults)"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    d = {n: norm(v) for n, v in zip(pos[len(pos) - len(a.defaults):], a.defaults)}
    d.update({x.arg: norm(v) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    if len(pos) > 1 and pos[1] not in d:
        pos[1] = "_"  # the operand is given by position
    return tuple(pos[1:]), tuple(x.arg for x in a.kwonlyargs), a.vararg is not None, a.kwarg is not None, tuple(sorted(d.items()))


def norm(v):
    try:
        return repr(ast.literal_eval(v))
    except Exception:
        return ast.unparse(v)


def uses(fn, p):
    return any(isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Load) for s in fn.body for x in ast.walk(s))


def run(ctx, rep):
    rep.rule("every operation the abstract backend declares is defined by every concrete backend, with the same parameters in the same order and the same defaults")
    rep.rule("a parameter that has an effect in one backend has an effect in every backend that supports it")
    rep.rule("every operation called on a backend object is declared by the interface and the arguments fit")
    m = ctx.p.mods["ot.backend"]
    classes = {c.name: c for c in ctx.p.classes.values() if c.module is m}
    base = classes[ABSTRACT]
    impl = [c for c in classes.values() if c is not base and base in ctx.p.mro(c)]
    rep.need(len(impl) >= 4, "only %d backends" % len(impl))
    api = {n: f.node for n, f in base.methods.items() if not n.startswith("_")}
    abstract = {n for n, f in api.items() if refuses(f)}
    rep.need(len(abstract) >= 80, "only %d operations" % len(abstract))
    rep.cover("backends", [c.name for c in impl])
    rep.cover("operations", abstract)
    n = 0
    defined = set(api)
    for c in impl:
        defined |= {x for x in c.methods if not x.startswith("_")}
    for name in sorted(defined):
        sigs, used = {}, collections.defaultdict(dict)
        for c in impl:
            g = ctx.p.method(c, name)
            n += 1
            if g is None or (g.cls is base and name in abstract) or (g.cls is not base and refuses(g.node) and name not in abstract):
                if (c.name, name) not in EXCEPTIONS and not (name not in api and name not in used_ops(ctx)):
                    rep.violation("%s:%s" % (c.name, name), "%s lacks the operation %s" % (c.name, name), m.path)
                continue
            if g.kind == "staticmethod":
                continue
            sigs[c.name] = (sig(g.node), g)
        if not sigs:
            continue
        count = collections.Counter(s for s, _ in sigs.values())
        want = count.most_common(1)[0][0]
        full = max(count, key=lambda s: (len(s[0]) + len(s[1]), count[s]))
        for cn, (s, g) in sigs.items():
            if s != want or (len(full[0]) > len(s[0]) and not s[3]):
                ref = full if len(full[0]) > len(s[0]) else want
                if s == ref:
                    continue
                rep.violation("%s:%s:signature" % (cn, name), "%s.%s%s differs from the other backends' %s%s" % (cn, name, show(s), name, show(ref)),
                              "%s:%d" % (m.path, g.node.lineno))
            for p in g.pos_params[1:]:
                used[p][cn] = uses(g.node, p) or refuses(g.node)
        if name in api and name in abstract and sigs:
            if len(sig(api[name])[0]) != len(want[0]):
                rep.violation("Backend:%s:signature" % name, "the declaration of %s%s does not have the parameters of the backends %s" % (
                    name, show(sig(api[name])), show(want)), "%s:%d" % (m.path, api[name].lineno))
        for p, by in used.items():
            no = [cn for cn, u in by.items() if not u]
            if no and len(no) < len(by) and len(no) <= len(by) // 2:
                for cn in no:
                    if (cn, name, p) not in UNUSED:
                        rep.violation("%s:%s:%s:unused" % (cn, name, p), "%s.%s ignores its parameter %s" % (cn, name, p),
                                      "%s:%d" % (m.path, sigs[cn][1].node.lineno))
    rep.count("operations of backends compared", n)
    calls(ctx, rep, impl, base, api)
    for k, why in list(EXCEPTIONS.items()) + list(UNUSED.items()):
        rep.assume("%s: %s" % (".".join(k), why))


def show(s):
    d = dict(s[4])
    return "(%s)" % ", ".join(p + ("=" + d[p] if p in d else "") for p in s[0] + s[1])


_used = {}


def receivers(tree):
    """call nodes whose function is an attribute of a backend object"""
    fns = [tree] + [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.Lambda))]
    names = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
            f = n.value.func
            fname = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if fname in ("get_backend", "_get_backend") and not (isinstance(f, ast.Attribute) and not fname.startswith("_") and not isinstance(f.value, ast.Name)):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        names.add(t.id)
    names |= models.NX_PARAMS
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            r = n.func.value
            if (isinstance(r, ast.Name) and r.id in names) or (isinstance(r, ast.Attribute) and r.attr in ("nx", "_nx") and isinstance(r.value, ast.Name) and r.value.id == "self"):
                yield n


def used_ops(ctx):
    if id(ctx) not in _used:
        _used[id(ctx)] = {c.func.attr for m in ctx.p.mods.values() if m.name != "ot.backend" for c in receivers(m.tree)}
    return _used[id(ctx)]


def calls(ctx, rep, impl, base, api):
    n = 0
    for m in ctx.p.mods.values():
        if m.name == "ot.backend":
            continue
        for c in receivers(m.tree):
            op = c.func.attr
            if op.startswith("_"):
                continue
            n += 1
            where = "%s:%d" % (m.path, c.lineno)
            if op not in api:
                rep.violation("%s:%s:unknown" % (m.name, op), "%s calls nx.%s, which the backend interface does not declare" % (m.name, op), where)
                continue
            if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
                continue
            for cls in impl:
                g = ctx.p.method(cls, op)
                if g is None or g.cls is base:
                    continue
                pos, kwo, va, kw, d = sig(g.node)
                pos = tuple(g.pos_params[1:])
                d = dict(d)
                bad = None
                if len(c.args) > len(pos) and not va:
                    bad = "%d arguments for %d parameters" % (len(c.args), len(pos))
                for k in c.keywords:
                    if k.arg not in pos and k.arg not in kwo and not kw:
                        bad = "no parameter %s" % k.arg
                    elif k.arg in pos[:len(c.args)]:
                        bad = "%s given twice" % k.arg
                given = set(pos[:len(c.args)]) | {k.arg for k in c.keywords}
                miss = [p for p in pos if p not in given and p not in d]
                if miss:
                    bad = "%s missing" % miss[0]
                if bad:
                    rep.violation("%s:%s:%s:call" % (m.name, op, cls.name), "%s calls nx.%s with arguments %s.%s does not take (%s)" % (m.name, op, cls.name, op, bad), where)
    rep.count("backend calls", n)
    rep.need(n >= 1500, "only %d backend calls" % n)

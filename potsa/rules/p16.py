"""P16: the advertised names exist and optional libraries stay optional."""

import ast
import os
import sys

from .. import defassign

REQUIRED = {"numpy", "scipy"}
CATCH = {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"}


def catches(h):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(isinstance(t, ast.Name) and t.id in CATCH for t in ts)


def guarded(tree):
    """{id(statement)} below a try that turns a failing import into a fallback"""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Try) and any(catches(h) and not any(isinstance(x, ast.Raise) for x in ast.walk(h)) for h in n.handlers):
            for s in n.body:
                out |= {id(x) for x in ast.walk(s)}
    return out


def toplevel(tree):
    """statements executed when the module is imported"""
    def walk(body):
        for s in body:
            yield s
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            for f in ("body", "orelse", "finalbody"):
                yield from walk(getattr(s, f, None) or [])
            for h in getattr(s, "handlers", None) or []:
                yield from walk(h.body)
    return walk(tree.body)


def target(mod, imp, is_pkg):
    """absolute module of a relative import"""
    if not imp.level:
        return imp.module or ""
    base = mod.split(".")
    up = imp.level - (1 if is_pkg else 0)
    base = base[:len(base) - up] if up else base
    return ".".join(base + ([imp.module] if imp.module else []))


def stars(mods, name, seen=()):
    """names 'from name import *' binds"""
    m = mods.get(name)
    if m is None or name in seen:
        return set()
    a = exported(m)
    if a is not None:
        return set(a)
    return {n for n in bound(mods, name, seen + (name,)) if not n.startswith("_")}


def exported(m):
    names = None
    for s in m.tree.body:
        t = s.targets[0] if isinstance(s, ast.Assign) else s.target if isinstance(s, ast.AugAssign) else None
        if isinstance(t, ast.Name) and t.id == "__all__":
            vs = [x.value for x in ast.walk(s.value) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
            names = (names or []) + vs
    return names


def is_pkg(m):
    return m.path.endswith("__init__.py")


def bound(mods, name, seen=()):
    """names of a module after its import (guarded imports succeed)"""
    m = mods[name]
    out = {"__file__", "__name__", "__doc__", "__all__", "__version__"} & set()
    loc = defassign.Locals()
    for s in m.tree.body:
        loc.visit(s)
    out |= loc.bound
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            out |= set(n.names)
    for s in toplevel(m.tree):
        if isinstance(s, ast.ImportFrom):
            t = target(name, s, is_pkg(m))
            if any(a.name == "*" for a in s.names):
                out.discard("*")
                out |= stars(mods, t, seen)
    if is_pkg(m):  # submodules imported anywhere become attributes
        out |= {x[len(name) + 1:].split(".")[0] for x in mods if x.startswith(name + ".") and imported(mods, x)}
    return out


def imported(mods, x):
    for n, m in mods.items():
        for s in toplevel(m.tree):
            if isinstance(s, ast.ImportFrom):
                t = target(n, s, is_pkg(m))
                if t == x or any("%s.%s" % (t, a.name) == x for a in s.names):
                    return True
            if isinstance(s, ast.Import) and any(a.name == x for a in s.names):
                return True
    return False


def native(ctx, name):
    """a Cython module of the package"""
    return os.path.exists(os.path.join(ctx.p.repo, name.replace(".", "/") + ".pyx"))


def run(ctx, rep):
    rep.rule("every name in an __all__ list is bound in its module; every name imported from a module of the package is bound there")
    rep.rule("the modules that 'import ot' loads import nothing but NumPy, SciPy and the standard library outside a guard for ImportError")
    rep.assume("the order in which modules of an import cycle are loaded inside a cycle is not modelled")
    mods = ctx.p.mods
    nexp = nimp = 0
    B = {n: bound(mods, n) for n in mods}
    for n, m in mods.items():
        ex = exported(m)
        for x in ex or []:
            nexp += 1
            if x not in B[n]:
                rep.violation("%s:%s:export" % (n, x), "%s.__all__ lists %s, which does not exist" % (n, x), m.path)
        for s in ast.walk(m.tree):
            if not isinstance(s, ast.ImportFrom):
                continue
            t = target(n, s, is_pkg(m))
            if t.split(".")[0] != "ot":
                continue
            for a in s.names:
                nimp += 1
                if a.name == "*" and t in mods:
                    continue
                sub = "%s.%s" % (t, a.name)
                if t in mods:
                    if a.name not in B[t] and sub not in mods and not native(ctx, sub):
                        rep.violation("%s:%s:import" % (n, a.name), "%s imports %s from %s, which does not define it" % (n, a.name, t), "%s:%d" % (m.path, s.lineno))
                elif not native(ctx, t):
                    rep.violation("%s:%s:import" % (n, t), "%s imports from %s, which does not exist" % (n, t), "%s:%d" % (m.path, s.lineno))
    # what import ot loads
    todo, seen = ["ot"], set()
    while todo:
        n = todo.pop()
        if n in seen or n not in mods:
            continue
        seen.add(n)
        m = mods[n]
        if "." in n:
            todo.append(n.rsplit(".", 1)[0])
        g = guarded(m.tree)
        for s in toplevel(m.tree):
            if isinstance(s, ast.Import):
                names = [(a.name, a.name.split(".")[0]) for a in s.names]
            elif isinstance(s, ast.ImportFrom):
                t = target(n, s, is_pkg(m))
                names = [(t, t.split(".")[0])]
                if t.split(".")[0] == "ot":
                    names += [("%s.%s" % (t, a.name), "ot") for a in s.names]
            else:
                continue
            for full, root in names:
                if id(s) in g and root != "ot":
                    continue
                if root == "ot":
                    todo.append(full)
                elif root not in REQUIRED and root not in sys.stdlib_module_names:
                    rep.violation("%s:%s:required" % (n, root), "'import ot' loads %s, which needs %s" % (n, root), "%s:%d" % (m.path, s.lineno))
    rep.cover("modules loaded by import ot", seen)
    rep.count("exported names", nexp)
    rep.count("names imported inside the package", nimp)
    rep.need(nexp >= 200 and len(seen) >= 30, "only %d exports, %d modules" % (nexp, len(seen)))


"""Loads /repo/ot as syntax trees and resolves names: modules, functions, classes, exports.

Nothing of the analysed package is imported or executed."""

import ast
import glob
import os
import re

REPO = os.environ.get("POTSA_REPO", "/repo")


class AnalysisBroken(Exception):
    """The analysed tree lacks something the rules are anchored on (an error exit)."""


class FuncInfo:
    __slots__ = (
        "fid", "name", "node", "module", "cls", "parent", "nested", "params", "doc",
        "kind", "locals_", "free", "is_gen", "global_names", "nonlocal_names",
        "body_loads", "defaults", "_isinst",
    )

    def __init__(self, fid, node, module, cls, parent):
        self.fid = fid
        self.name = getattr(node, "name", "<lambda>")
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.nested = {}
        a = node.args
        self.params = (
            [x.arg for x in a.posonlyargs]
            + [x.arg for x in a.args]
            + ([a.vararg.arg] if a.vararg else [])
            + [x.arg for x in a.kwonlyargs]
            + ([a.kwarg.arg] if a.kwarg else [])
        )
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        self.defaults = {}
        for n, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.defaults[n] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[x.arg] = d
        self.doc = ast.get_docstring(node) if not isinstance(node, ast.Lambda) else None
        self.kind = "plain"
        if not isinstance(node, ast.Lambda):
            for d in node.decorator_list:
                t = ast.unparse(d)
                if t in ("property", "staticmethod", "classmethod"):
                    self.kind = t
        self.is_gen = False
        self.locals_ = set(self.params)
        self.global_names = set()
        self.nonlocal_names = set()
        self.free = None
        self.body_loads = set()
        self._isinst = None

    @property
    def isinst(self):
        """names tested with isinstance in the body -> type names"""
        if self._isinst is None:
            r = {}
            for n in ast.walk(self.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2 \
                        and isinstance(n.args[0], ast.Name):
                    t = n.args[1]
                    r.setdefault(n.args[0].id, set()).update(
                        ast.unparse(x).split(".")[-1] for x in (t.elts if isinstance(t, ast.Tuple) else [t]))
            self._isinst = {k: frozenset(v) for k, v in r.items()}
        return self._isinst

    @property
    def pos_params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]

    @property
    def kwonly(self):
        return [x.arg for x in self.node.args.kwonlyargs]

    @property
    def vararg(self):
        return self.node.args.vararg.arg if self.node.args.vararg else None

    @property
    def kwarg(self):
        return self.node.args.kwarg.arg if self.node.args.kwarg else None

    def where(self, node=None):
        n = node if node is not None else self.node
        return "%s:%s" % (self.module.path, getattr(n, "lineno", "?"))

    def is_public(self):
        return not any(p.startswith("_") and not p.startswith("__") for p in self.fid.split("::")[1].split("."))

    def __repr__(self):
        return "<F %s>" % self.fid


class ClassInfo:
    def __init__(self, cid, node, module, parent=None):
        self.cid = cid
        self.name = node.name
        self.node = node
        self.module = module
        self.methods = {}
        self.bases = []  # expressions
        self.attrs = {}  # class level name -> expr

    def __repr__(self):
        return "<C %s>" % self.cid


class ModInfo:
    def __init__(self, name, path, tree, src, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.is_pkg = is_pkg
        self.names = {}  # top level name -> ('func', FuncInfo) | ('class', ClassInfo) | ('import', dotted) | ('from', mod, name) | ('expr', node)
        self.funcs = {}
        self.classes = {}


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.funcs = {}
        self.classes = {}
        self.node_fid = {}
        files = sorted(glob.glob(os.path.join(self.repo, "ot/**/*.py"), recursive=True))
        if len(files) < 30:
            raise AnalysisBroken("only %d python files under %s/ot" % (len(files), self.repo))
        for f in files:
            rel = os.path.relpath(f, self.repo)
            src = open(f, encoding="utf-8").read()
            tree = ast.parse(src, rel)
            name = rel[:-3].replace("/", ".")
            is_pkg = name.endswith(".__init__")
            if is_pkg:
                name = name[: -len(".__init__")]
            m = ModInfo(name, rel, tree, src, is_pkg)
            self.mods[name] = m
        for m in self.mods.values():
            self._index_module(m)

    # ------------------------------------------------------------------ index
    def _index_module(self, m):
        self._index_block(m.tree.body, m, None, None, m.names, "")

    def _add_func(self, node, m, cls, parent, prefix):
        fid = "%s::%s%s" % (m.name, prefix, getattr(node, "name", "<lambda@%d>" % node.lineno))
        k = 2
        base = fid
        while fid in self.funcs:
            fid = "%s#%d" % (base, k)
            k += 1
        fi = FuncInfo(fid, node, m, cls, parent)
        self.funcs[fid] = fi
        self.node_fid[node] = fi
        self._scan(fi)
        return fi

    def _scan(self, fi):
        """local names, nested functions, free variables"""
        m = fi.module
        body = fi.node.body if not isinstance(fi.node, ast.Lambda) else [fi.node.body]
        prefix = fi.fid.split("::")[1] + "."
        locals_, loads = fi.locals_, fi.body_loads
        inner = []

        def walk(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                locals_.add(n.name)
                g = self._add_func(n, m, None, fi, prefix)
                fi.nested[n.name] = g
                inner.append(g)
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x] + n.decorator_list:
                    walk(d)
                return
            if isinstance(n, ast.Lambda):
                g = self._add_func(n, m, None, fi, prefix)
                inner.append(g)
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    walk(d)
                return
            if isinstance(n, ast.ClassDef):
                locals_.add(n.name)
                self._add_class(n, m, prefix, fi)
                return
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load):
                    loads.add(n.id)
                else:
                    locals_.add(n.id)
            elif isinstance(n, ast.Global):
                fi.global_names.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                fi.nonlocal_names.update(n.names)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                locals_.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    locals_.add((al.asname or al.name).split(".")[0])
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                fi.is_gen = True
            for c in ast.iter_child_nodes(n):
                walk(c)

        for b in body:
            walk(b)
        locals_ -= fi.global_names
        locals_ -= fi.nonlocal_names
        free = set(loads) - locals_
        for g in inner:
            free |= g.free - locals_
        free |= fi.nonlocal_names
        fi.free = free

    def _add_class(self, node, m, prefix, parent=None):
        cid = "%s::%s%s" % (m.name, prefix, node.name)
        k = 2
        base = cid
        while cid in self.classes:
            cid = "%s#%d" % (base, k)
            k += 1
        ci = ClassInfo(cid, node, m)
        ci.bases = node.bases
        self.classes[cid] = ci
        self.node_fid[node] = ci
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = self._add_func(s, m, ci, parent, cid.split("::")[1] + ".")
                ci.methods[s.name] = fi
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                ci.attrs[s.target.id] = s.value
        return ci

    def _index_block(self, body, m, cls, parent, names, prefix):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = self._add_func(s, m, None, None, prefix)
                names.setdefault(s.name, []).append(("func", fi))
                m.funcs[s.name] = fi
            elif isinstance(s, ast.ClassDef):
                ci = self._add_class(s, m, prefix)
                names.setdefault(s.name, []).append(("class", ci))
                m.classes[s.name] = ci
            elif isinstance(s, ast.Import):
                for al in s.names:
                    if al.asname:
                        names.setdefault(al.asname, []).append(("import", al.name))
                    else:
                        top = al.name.split(".")[0]
                        names.setdefault(top, []).append(("import", top))
            elif isinstance(s, ast.ImportFrom):
                base = self.abs_module(m, s)
                for al in s.names:
                    names.setdefault(al.asname or al.name, []).append(("from", base, al.name))
            elif isinstance(s, ast.Assign):
                for n in ast.walk(s.value):
                    if isinstance(n, ast.Lambda):
                        self._add_func(n, m, None, None, prefix)
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            names.setdefault(n.id, []).append(("expr", s.value if isinstance(t, ast.Name) else None))
            elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
                if isinstance(s.target, ast.Name):
                    names.setdefault(s.target.id, []).append(("expr", s.value))
            elif isinstance(s, (ast.If, ast.While, ast.For)):
                self._index_block(s.body, m, cls, parent, names, prefix)
                self._index_block(s.orelse, m, cls, parent, names, prefix)
            elif isinstance(s, ast.Try):
                self._index_block(s.body, m, cls, parent, names, prefix)
                for h in s.handlers:
                    self._index_block(h.body, m, cls, parent, names, prefix)
                self._index_block(s.orelse, m, cls, parent, names, prefix)
                self._index_block(s.finalbody, m, cls, parent, names, prefix)
            elif isinstance(s, ast.With):
                self._index_block(s.body, m, cls, parent, names, prefix)

    @staticmethod
    def abs_module(m, s):
        if s.level == 0:
            return s.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if s.level > 1:
            parts = parts[: -(s.level - 1)]
        return ".".join(parts + ([s.module] if s.module else []))

    # ---------------------------------------------------------------- resolve
    def lookup(self, modname, name, seen=None):
        """top level name of a module -> ('func',fi)|('class',ci)|('mod',name)|('ext',dotted)|('expr',mod,node)|None"""
        seen = seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.mods.get(modname)
        if m is None:
            return None
        ents = m.names.get(name)
        if not ents:
            sub = modname + "." + name
            if sub in self.mods:
                return ("mod", sub)
            return None
        # a real definition wins over fallbacks (try/except ImportError)
        for e in ents:
            r = self._lookup_ent(m, e, seen)
            if r is not None:
                return r
        return None

    def _lookup_ent(self, m, e, seen):
        if e[0] in ("func", "class"):
            return e
        if e[0] == "import":
            return ("mod", e[1]) if e[1] in self.mods else ("ext", e[1])
        if e[0] == "from":
            base, nm = e[1], e[2]
            if base in self.mods:
                r = self.lookup(base, nm, seen)
                if r is not None:
                    return r
                if base + "." + nm in self.mods:
                    return ("mod", base + "." + nm)
                return ("ext", base + "." + nm)
            return ("ext", base + "." + nm if base else nm)
        if e[0] == "expr":
            return ("expr", m.name, e[1])
        return None

    def mro(self, ci):
        out = [ci]
        for b in ci.bases:
            r = self.resolve_expr(ci.module, b)
            if r and r[0] == "class":
                for c in self.mro(r[1]):
                    if c not in out:
                        out.append(c)
        return out

    def method(self, ci, name):
        for c in self.mro(ci):
            if name in c.methods:
                return c.methods[name]
        return None

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.lookup(m.name, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(m, e.value)
            if r is None:
                return None
            if r[0] == "mod":
                return self.lookup(r[1], e.attr) or ("ext", r[1] + "." + e.attr)
            if r[0] == "ext":
                return ("ext", r[1] + "." + e.attr)
        return None

    def module_all(self, m):
        """names in __all__, or None"""
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in s.targets):
                try:
                    return list(ast.literal_eval(s.value))
                except ValueError:
                    return None
        return None

    def func(self, fid):
        if fid not in self.funcs:
            raise AnalysisBroken("function %s not found" % fid)
        return self.funcs[fid]

    def find_func(self, modprefix, name):
        """a module level function by name under a module prefix, wherever it was moved"""
        for fid, f in self.funcs.items():
            if f.parent is None and f.cls is None and f.name == name and f.module.name.startswith(modprefix):
                return f
        raise AnalysisBroken("no function %s under %s" % (name, modprefix))

    def public_functions(self):
        """module level functions whose name has no leading underscore, of all modules"""
        return [
            f for f in self.funcs.values()
            if f.parent is None and f.cls is None and not f.name.startswith("_")
        ]

    def top_functions(self):
        return [f for f in self.funcs.values() if f.parent is None and f.cls is None]


_PARAM = re.compile(r"^(\*{0,2}\w+(?:\s*,\s*\*{0,2}\w+)*)\s*:\s*(.*)$")


def doc_params(doc):
    """numpydoc 'Parameters' section -> {name: type text}"""
    out = {}
    if not doc:
        return out
    lines = doc.splitlines()
    i = 0
    while i < len(lines):
        if lines[i].strip() in ("Parameters", "Parameter") and i + 1 < len(lines) and set(lines[i + 1].strip()) == {"-"}:
            ind = len(lines[i]) - len(lines[i].lstrip())
            i += 2
            while i < len(lines):
                l = lines[i]
                if i + 1 < len(lines) and lines[i + 1].strip() and set(lines[i + 1].strip()) == {"-"}:
                    break
                cur = len(l) - len(l.lstrip())
                if l.strip() and cur <= ind + 1:
                    mt = _PARAM.match(l.strip())
                    if mt:
                        for n in mt.group(1).split(","):
                            out[n.strip().lstrip("*")] = mt.group(2)
                i += 1
            break
        i += 1
    return out

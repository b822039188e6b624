"""The public surface the rules quantify over, and shared interpreter runs."""

import ast
import sys

from .project import Project, AnalysisBroken
from .absint import Interp

sys.setrecursionlimit(20000)

NOT_CLASSES = ("deprecated",)
NOT_API = ("ot.backend", "ot.plot", "ot.helpers")


class Ctx:
    def __init__(self, tier="quick", repo=None):
        self.tier = tier
        self.p = Project(repo)
        self._base = None
        self.cache = {}

    def interp(self, **opts):
        return Interp(self.p, opts)

    def base(self):
        """one interpreter whose summaries are shared by the runs with unconstrained arguments"""
        if self._base is None:
            self._base = Interp(self.p)
        return self._base

    def functions(self, private=False):
        """module level functions of the public modules"""
        r = []
        for f in self.p.top_functions():
            if f.module.name in NOT_API:
                continue
            if not private and not self.public(f):
                continue
            r.append(f)
        if len(r) < 200:
            raise AnalysisBroken("only %d public functions" % len(r))
        return r

    def estimators(self):
        """classes that derive from BaseEstimator"""
        r = []
        for c in self.p.classes.values():
            names = [x.name for x in self.p.mro(c)]
            if "BaseEstimator" in names and c.name != "BaseEstimator":
                r.append(c)
        if len(r) < 8:
            raise AnalysisBroken("only %d estimator classes" % len(r))
        return r

    def other_classes(self):
        """the public classes that are no estimators (results, lazy tensors, scalers, regularizations, layers)"""
        r = []
        for c in self.p.classes.values():
            names = [x.name for x in self.p.mro(c)]
            if c.module.name in NOT_API or c.name.startswith("_") or "BaseEstimator" in names or "Exception" in [
                    ast.unparse(b) for b in c.bases] or c.name in NOT_CLASSES:
                continue
            r.append(c)
        return r

    def entries(self):
        """(function or method, class it is called on) for the whole public surface"""
        r = [(f, None) for f in self.functions()]
        for c in self.estimators() + self.other_classes():
            seen = set()
            for k in self.p.mro(c):
                for n, m in k.methods.items():
                    if n not in seen:
                        seen.add(n)
                        if not n.startswith("_") or n.startswith("__"):
                            r.append((m, c))
        return r

    def public(self, f):
        """a module level function that users are offered: advertised in an __all__, or documented with its parameters or results"""
        if f.name.startswith("_"):
            return False
        if "all" not in self.cache:
            self.cache["all"] = {x.value for m in self.p.mods.values() for s in m.tree.body if isinstance(s, (ast.Assign, ast.AugAssign))
                                 and getattr(s.targets[0] if isinstance(s, ast.Assign) else s.target, "id", "") == "__all__"
                                 for x in ast.walk(s.value) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        d = ast.get_docstring(f.node) or ""
        return f.name in self.cache["all"] or "Parameters" in d or "Returns" in d

    def internal(self, f):
        """a function that only the package itself calls"""
        if f.cls is not None:
            return f.name.startswith("_") and not f.name.startswith("__")
        return not self.public(f)

    def callers(self, f):
        """functions of the package that mention f by name"""
        if "mentions" not in self.cache:
            d = {}
            for g in self.p.funcs.values():
                if g.parent is None:
                    for n in ast.walk(g.node):
                        x = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
                        if x is not None:
                            d.setdefault(x, {})[g.fid] = g
            self.cache["mentions"] = d
        r = []
        for g in self.cache["mentions"].get(f.name, {}).values():
            if g is f:
                continue
            if f.cls is None:
                x = self.p.lookup(g.module.name, f.name)
                if x is None or x[1] is not f:
                    continue
            r.append(g)
        return r

    def held(self, f, test, seen=()):
        """test holds for f, or f is an internal helper and test holds for everything that calls it:
        exceptions are given for what users call, wherever its body is written"""
        while f.parent is not None:
            f = f.parent
        if test(f):
            return True
        if f.fid in seen or not self.internal(f):
            return False
        cs = self.callers(f)
        return bool(cs) and all(g.fid in seen or self.held(g, test, seen + (f.fid,)) for g in cs)

    def entry_name(self, f, c):
        if c is None or f.cls is c:
            return self.api_name(f)
        return self.api_name(f).rsplit(".", 2)[0] + "." + c.name + "." + f.name

    def api_name(self, f):
        """dotted public name: the shortest package path that exports the function, else its own"""
        n = f.name
        if f.cls is not None:
            n = f.cls.name + "." + n
            top = f.cls.name
        else:
            top = n
        parts = f.module.name.split(".")
        for i in range(1, len(parts) + 1):
            m = ".".join(parts[:i])
            r = self.p.lookup(m, top)
            if r is not None and (r[1] is f or r[1] is f.cls):
                return m + "." + n
        return f.module.name + "." + n

    def names(self, f, seen=()):
        """the options of f that users can set: the parameters of an internal helper count where its callers have them"""
        own = set(f.params)
        if f.parent is not None:
            up = self.names(f.parent, seen)
            return up if f.fid in seen else up | (own & up)
        if f.fid in seen:
            return set()
        if not self.internal(f):
            return own
        cs = self.callers(f)
        if not cs:
            return own
        up = set()
        for g in cs:
            up |= self.names(g, seen + (f.fid,))
        return own & up

    def key(self, rep, f, make):
        """the key of a report in f; a listed finding keeps its key when its code moves into a helper"""
        own = make(f)
        if rep.known(own):
            return own
        for h in self.p.funcs.values():
            if h is not f and rep.known(make(h)) and self.held(f, lambda x: x is h):
                return make(h)
        return own

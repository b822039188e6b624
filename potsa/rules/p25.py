"""P25 shapes: every solver works for sources and targets of different sizes and returns what it documents.

The array interpreter (arrays.py) gives every documented array parameter symbolic sizes (the names of the documentation, names that
differ are different numbers) and computes the shape of every array expression along every path. A violation is an operation whose
operands certainly do not fit (broadcasting, products, reductions over an axis that does not exist, stacking, stores, einsum, the weights given to the
exact solver), a gradient set on an input of another shape, or a result whose shape is not the documented one."""

import ast
import multiprocessing
import os

from .. import arrays
from ..project import doc_params

TITLE = "shapes fit for different sizes"

# the documentation is wrong or does not say enough: shapes as the code and its examples use them
WARM = {"params": {"b": [("array", ("dim_b",)), ("array", ("dim_b", "n_hists"))],
                   "warmstart": [("tuple", ("dim_a", "dim_b")), ("tuple", (("dim_a", "n_hists"), ("dim_b", "n_hists")))]}}
WARM2 = {"params": {"b": WARM["params"]["b"], "warmstart": []}}      # one or several potentials, as the method
DOCS = {
    "ot.lp.solver_1d.quantile_function": {"params": {"qs": [("array", ("n",)), ("array", ("n", "k"))]}},
    "ot.stochastic.loss_dual_entropic": {"params": {"wt": ("array", ("nt",)), "xt": ("array", ("nt", "d"))}},
    "ot.stochastic.loss_dual_quadratic": {"params": {"wt": ("array", ("nt",)), "xt": ("array", ("nt", "d"))}},
    "ot.stochastic.plan_dual_entropic": {"params": {"xt": ("array", ("nt", "d"))}},
    "ot.stochastic.plan_dual_quadratic": {"params": {"xt": ("array", ("nt", "d"))}},
    "ot.lp.solver_circle.roll_cols": {"params": {"shifts": ("array", ("nr", 1))}},
    "ot.gromov.format_partitioned_samples": {"params": {"rep_indices": ("array", ("npart",))}},
    "ot.gromov.fused_unbalanced_gromov_wasserstein": {"same": {"n_feature_x": "n_sample_x", "n_feature_y": "n_sample_y"}},
    "ot.gromov.fused_unbalanced_gromov_wasserstein2": {"same": {"n_feature_x": "n_sample_x", "n_feature_y": "n_sample_y"}},
    "ot.batch.loss_quadratic_samples_batch": {"params": {"C2": [("array", ("B", "m", "m")), ("array", ("B", "m", "m", "d"))]}},
    "ot.solve_gromov_batch": {"params": {"C2": [("array", ("B", "m", "m")), ("array", ("B", "m", "m", "d"))], "M": ("array", ("B", "n", "m"))}},
    "ot.batch.tensor_batch": {"params": {"C2": [("array", ("B", "m", "m")), ("array", ("B", "m", "m", "d"))]}},
    "ot.emd_1d": {"params": {"x_b": [("array", ("nt",)), ("array", ("nt", 1))]}},
    "ot.emd2_1d": {"params": {"x_b": [("array", ("nt",)), ("array", ("nt", 1))]}},
    "ot.gromov.update_barycenter_structure": {"params": {"Ts": []}},   # transposed when target=False
    "ot.gromov.update_barycenter_feature": {"params": {"Ts": []}},
    # one potential per histogram
    "ot.sinkhorn": WARM2, "ot.sinkhorn2": WARM2, "ot.bregman.sinkhorn_knopp": WARM, "ot.bregman.sinkhorn_log": WARM, "ot.bregman.greenkhorn": WARM,
    "ot.unbalanced.sinkhorn_unbalanced_translation_invariant": WARM, "ot.sinkhorn_unbalanced": WARM, "ot.sinkhorn_unbalanced2": WARM,
    "ot.unbalanced.sinkhorn_knopp_unbalanced": WARM, "ot.unbalanced.sinkhorn_stabilized_unbalanced": WARM,
    "ot.solve_sample": {"same": {"dim_a": "n_samples_a", "dim_b": "n_samples_b"}},
    "ot.bregman.empirical_sinkhorn_nystroem": {"same": {"dim_a": "n_samples_a", "dim_b": "n_samples_b"}},
    "ot.bregman.empirical_sinkhorn_nystroem2": {"same": {"dim_a": "n_samples_a", "dim_b": "n_samples_b"}},
    "ot.bregman.empirical_sinkhorn": {"same": {"dim_a": "n_samples_a", "dim_b": "n_samples_b"}},
    "ot.bregman.empirical_sinkhorn2": {"same": {"dim_a": "n_samples_a", "dim_b": "n_samples_b"}},
    "ot.bregman.empirical_sinkhorn_divergence": {"same": {"dim_a": "n_samples_a", "dim_b": "n_samples_b"}},
    # lists of the same length
    "ot.gromov.fused_gromov_wasserstein_dictionary_learning": {"same": {"#Ydict_init": "D", "#Cdict_init": "D"}},
    "ot.gromov.gromov_wasserstein_dictionary_learning": {"same": {"#Cdict_init": "D"}},
    "ot.gromov.fused_gromov_wasserstein_linear_unmixing": {"same": {"#Ydict": "#Cdict"}},
    "ot.da.JCPOTTransport.fit_transform": {"params": {"Xs": ("list", ("#K", "n_source_samples", "n_features")), "ys": ("list", ("#K", "n_source_samples"))}},
}

EXCEPTIONS = {
    # (kind, function, entry): reason
    ("shape", "ot.unbalanced._sinkhorn::sinkhorn_knopp_unbalanced", "ot.sinkhorn_unbalanced2:alt1"): "potentials for several histograms with an empty b",
    ("shape", "ot.unbalanced._sinkhorn::sinkhorn_unbalanced_translation_invariant", "ot.sinkhorn_unbalanced2:alt1"):
        "potentials for several histograms with an empty b",
    ("shape", "ot.gromov._utils::semirelaxed_init_plan", "ot.gromov.semirelaxed_fgw_barycenters"): "branch for structures of the same size",
    ("shape", "ot.utils::dist", "ot.da.JCPOTTransport.fit_transform"): "out-of-sample branch, not taken for the samples of fit",
    ("shape", "ot.utils::euclidean_distances", "ot.da.JCPOTTransport.fit_transform"): "out-of-sample branch, not taken for the samples of fit",
}
# documented results that are not what is returned by design
RESULTS = {
    # (entry, result, shape): reason
    ("ot.bregman.empirical_sinkhorn", "gamma", "(n_samples_a)"): "the first potential when isLazy",
    ("ot.bregman.empirical_sinkhorn2", "W", "()"): "a number for a single histogram",
    ("ot.sinkhorn2", "W", "()"): "a number for a single histogram",
    ("ot.sinkhorn_unbalanced2", "ot_cost", "()"): "a number for a single histogram",
    ("ot.bregman.greenkhorn", "gamma", "(dim_a, ?, n_hists)"): "the cost for several histograms",
    ("ot.sinkhorn", "gamma", "(?)"): "the cost for several histograms",
    ("ot.bregman.sinkhorn_knopp", "gamma", "(n_hists)"): "the cost for several histograms",
    ("ot.bregman.sinkhorn_log", "gamma", "(?)"): "the cost for several histograms",
    ("ot.gaussian.gaussian_gromov_wasserstein_mapping", "A", "(ds, dt)"): "documented (dt, ds), the transpose of what maps rows: xs @ A + b",
    ("ot.gaussian.gaussian_gromov_wasserstein_mapping", "b", "(dt)"): "documented (1, dt); (dt,) or (1, dt) as the means given",
    ("ot.gaussian.empirical_gaussian_gromov_wasserstein_mapping", "A", "(ds, dt)"): "documented (dt, ds), the transpose of what maps rows: xs @ A + b",
    ("ot.gromov.semirelaxed_init_plan", "T", "(ns, nt)"): "documented (ns, ns), a plan is (ns, nt)",
    ("ot.bregman.empirical_sinkhorn_divergence", "W", "()"): "documented as array (1,), a number",
    ("ot.gaussian.bures_wasserstein_mapping", "b", "(d)"): "documented (1, d); (d,) or (1, d) as the means given",
    ("ot.gromov.BAPG_fused_gromov_wasserstein2", "T", "()"): "documentation copied from the variant that returns the plan",
    ("ot.lp.solver_1d.quantile_function", "q", "(n, k)"): "documented (..., n), the quantiles are along the first axis",
    ("ot.gromov.format_partitioned_samples", "FR", "(?, p)"): "documentation names the number of features d and p",
}


def backend_aware(fi):
    names = {n.id for n in ast.walk(fi.node) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(fi.node) if isinstance(n, ast.Attribute)}
    return "nx" in names or "get_backend" in names


def documented(returns, v):
    """pairs (name, type text, returned value), matching a returned tuple with the documented results"""
    out = []
    for a in v.atoms:
        if a[0] == "t":
            rs = list(returns)
            if len(a[2]) <= len(rs):
                out += [(n, t, x) for (n, t), x in zip(rs, a[2])]
        elif returns:
            out.append((returns[0][0], returns[0][1], v))
    return out


def returned_clash(doc, dims, alias):
    d = tuple(alias.get(x, x) for x in doc)
    if len(d) != len(dims):
        return len(dims) > 0 or True
    return any(arrays.clash(p, q) or (isinstance(p, int) and isinstance(q, int) and p != q) for p, q in zip(d, dims))


class Found:
    """what the interpretation of the entries gave"""

    def __init__(self):
        self.facts, self.entries, self.rets = {}, 0, 0      # {("what", function, line, message): entries}
        self.nops, self.nchecks, self.made = 0, 0, set()

    def add(self, o):
        for k, names in o.facts.items():
            self.facts.setdefault(k, set()).update(names)
        self.entries += o.entries
        self.rets += o.rets
        self.nops += o.nops
        self.nchecks += o.nchecks
        self.made |= o.made


def analyse(ctx, only=None):
    """every report and the counters; entries of a module are interpreted by one process"""
    if "arrays" in ctx.cache and only is None:
        return ctx.cache["arrays"]
    groups = {}
    for f, c in ctx.entries():
        if only is None or only(ctx.entry_name(f, c)):
            groups.setdefault(f.module.name, []).append((f, c))
    groups = list(groups.values())
    r = Found()
    n = min(JOBS, len(groups))
    if n < 2:
        for g in groups:
            r.add(interpret(ctx, g))
    else:
        WORK[:] = [ctx, groups]
        with multiprocessing.get_context("fork").Pool(n) as pool:
            for x in pool.imap_unordered(work, sorted(range(len(groups)), key=lambda i: -len(groups[i])), 1):
                r.add(x)
    if only is None:
        ctx.cache["arrays"] = r
    return r


JOBS = int(os.environ.get("POTSA_JOBS", min(4, os.cpu_count() or 1)))
WORK = []


def work(i):
    return interpret(WORK[0], WORK[1][i])


def interpret(ctx, entries):
    r = Found()
    I = arrays.ArrayInterp(ctx.p)
    for f, c in entries:
        name = ctx.entry_name(f, c)
        types = doc_params(f.doc)
        if f.cls is not None and not types:
            types = doc_params(ast.get_docstring(f.cls.node))
        I.aware = backend_aware(f)
        r.entries += 1
        variant, n = 0, 1
        while variant < n:
            n = I.prepare(f, types, DOCS.get(name, {}), variant)
            sm = I.run_entry(f, selfcls=c)
            for x in sm.facts:
                if x[0] == "arr":
                    r.facts.setdefault(x[1:], set()).add((name, variant))
            r.rets += results(f, I, types, sm, (name, variant), r.facts)
            if I.aware:
                places(f, sm, (name, variant), r.facts)
            variant += 1
    r.nops, r.nchecks, r.made = I.nops, I.nchecks, I.made
    return r


def results(f, I, types, sm, name, facts):
    """compare the shapes of the results with the documentation; returns how many were known"""
    docs = arrays.doc_returns(f.doc)
    known = {I.alias_dims.get(s, s) for dd in I.entry_dims.values() for s in dd[1]}
    k = 0
    for v, h, ev in sm.outs if docs else ():
        for n, t, x in documented(docs, v):
            a = arrays.of(x)
            alts = [dd[1] for dd in arrays.doc_alts(t) if dd[0] == "array"]
            if not alts or a[1] is None or arrays.noarr(x):
                continue
            k += 1
            alts = [tuple(I.alias_dims.get(s, s) for s in d) for d in alts]
            if not any(fits(d, a[1], known) for d in alts):
                facts.setdefault(("result", f.fid, f.node.lineno, "returns %s of shape %s, documented as %s" % (
                    n, arrays.show(a[1]), " or ".join(arrays.show(d) for d in alts))), set()).add(name)
    return k


def places(f, sm, name, facts):
    """for P08: results that are certainly NumPy arrays or arrays with the defaults of the backend, also in the log"""
    def note(what, fid, line, msg):
        facts.setdefault((what, fid, line, msg), set()).add(name)

    def look(v, h, seen, label):
        k, d, _ = arrays.of(v)
        if "?" not in k:
            if "N" in k and "B" not in k and d:
                note("numpy", f.fid, f.node.lineno, label)
            if "D" in k and "B" not in k and "N" not in k:
                for fid, line in arrays.sites(k):
                    note("retdefault", fid, line, "returned %s" % label)
        for a in v.atoms:
            if a[0] == "t":
                for x in a[2]:
                    look(x, h, seen, label)
            if a[0] == "h" and a[1] in h and a[1] not in seen:
                seen.add(a[1])
                for key, x in h[a[1]].items if h[a[1]].kind == "dict" else ():
                    look(x, h, seen, "as entry %s of the log" % (key,))

    for v, h, ev in sm.outs:
        look(v, h, set(), "as result")


def fits(doc, dims, known):
    if len(doc) != len(dims):
        return False
    bind = {}
    for p, q in zip(doc, dims):
        if isinstance(p, int) and isinstance(q, int) and p != q:
            return False
        if arrays.is_sym(p) and p not in known and q is not None:
            if bind.setdefault(p, q) != q:
                return False
        elif arrays.clash(p, q) and p in known and q in known:
            return False
    return True


def run(ctx, rep):
    rep.rule("sizes that the documentation names differently are different numbers; under this reading no operation gets operands that "
             "do not fit (broadcasting, products, reductions, stacking, stores, einsum, masks, weights of the exact solver)")
    rep.rule("a gradient set on an input has the shape of that input")
    rep.rule("a result whose shape is known has the documented shape")
    rep.assume("an array whose shape the interpreter does not know fits everywhere")
    rep.assume("documented shapes are those of the arguments; sizes are larger than one")
    r = analyse(ctx)
    for (what, fid, line, msg), names in sorted(r.facts.items()):
        if what not in ("shape", "grad", "result"):
            continue
        module, func = fid.split("::")
        where = "%s:%d" % (module, line)
        for name, variant in sorted(names):
            alt = name + (":alt%d" % variant if variant else "")
            if what == "result":
                if any(msg.startswith("returns %s of shape %s, " % (n, sh)) for e, n, sh in RESULTS if e == name):
                    continue
            f = ctx.p.funcs[fid]
            if ctx.held(f, lambda h: (what, h.fid, name) in EXCEPTIONS or (what, h.fid, alt) in EXCEPTIONS):
                continue
            key = ctx.key(rep, f, lambda h: "%s:%s%s" % (what, h.fid.replace("::", ":"), ":alt%d" % variant if variant else ""))
            rep.violation(key, "%s %s (called through %s)" % (func, msg, name), where)
    rep.count("public entry points", r.entries)
    rep.count("array operations interpreted", r.nops)
    rep.count("operations with operands of known shape compared", r.nchecks)
    rep.count("results of known shape compared with the documentation", r.rets)
    rep.need(r.nchecks >= 50000 and r.rets >= 100, "only %d shape comparisons and %d results" % (r.nchecks, r.rets))
    for k, why in list(EXCEPTIONS.items()) + list(RESULTS.items()):
        rep.assume("%s -- %s" % (" ".join(k), why))

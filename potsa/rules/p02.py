"""P02: an option or a weight given to a function reaches the solver that does the work.

Argument flow over every call between functions of the package, on every path the interpreter finds feasible."""

import ast
import re

INNER = "the inner problem has its own budget and tolerance; the option is that of the outer loop"
NOEFFECT = "without the argument it weighs (no features are given here) the parameter has no effect"
# (caller, called function, parameter): why the option need not be handed on
EXCEPTIONS = {
    ("bregman._barycenter::free_support_sinkhorn_barycenter", "sinkhorn", "numItermax"): INNER,
    ("bregman._barycenter::free_support_sinkhorn_barycenter", "sinkhorn", "stopThr"): INNER,
    ("bregman._screenkhorn::screenkhorn", "restricted_sinkhorn", "max_iter"): INNER,
    ("bregman._sinkhorn::sinkhorn_epsilon_scaling", "sinkhorn_stabilized", "numItermax"): INNER,
    ("bregman._sinkhorn::sinkhorn_epsilon_scaling", "sinkhorn_stabilized", "print_period"): "messages only",
    ("bregman._empirical::empirical_sinkhorn_divergence", "empirical_sinkhorn2", "a"): "the two debiasing terms compare a measure with itself",
    ("bregman._empirical::empirical_sinkhorn_divergence", "empirical_sinkhorn2", "b"): "the two debiasing terms compare a measure with itself",
    ("coot::co_optimal_transport", "emd", "potentials_init"): "warmstart are four potentials of the alternating solver, handed on as warm starts of Sinkhorn only",
    ("da::sinkhorn_lpl1_mm", "sinkhorn", "numItermax"): INNER,
    ("dr::ewca", "sinkhorn", "stopThr"): INNER,
    ("dr::ewca", "sinkhorn", "method"): "method is that of the Stiefel optimisation; Sinkhorn gets sinkhorn_method",
    ("factored::factored_optimal_transport", "emd", "numItermax"): INNER,
    ("factored::factored_optimal_transport", "sinkhorn", "numItermax"): INNER,
    ("factored::factored_optimal_transport", "sinkhorn", "stopThr"): INNER,
    ("gaussian::bures_wasserstein_barycenter", "bures_barycenter_gradient_descent", "batch_size"): "batch_size is that of the stochastic methods",
    ("gaussian::bures_wasserstein_barycenter", "bures_barycenter_gradient_descent", "step_size"): "step_size is that of the gradient descent; the stochastic methods have a decreasing step",
    ("gromov._bregman::entropic_fused_gromov_barycenters", "entropic_fused_gromov_wasserstein", "tol"): INNER,
    ("gromov._bregman::entropic_gromov_barycenters", "entropic_gromov_wasserstein", "tol"): INNER,
    ("gromov._bregman::entropic_fused_gromov_barycenters", "update_barycenter_feature", "loss_fun"): "features are always compared with the square loss",
    ("gromov._gw::fgw_barycenters", "update_barycenter_feature", "loss_fun"): "features are always compared with the square loss",
    ("gromov._semirelaxed::semirelaxed_fgw_barycenters", "update_barycenter_feature", "loss_fun"): "features are always compared with the square loss",
    ("gromov._bregman::entropic_fused_gromov_wasserstein", "sinkhorn", "warmstart"): "here warmstart is a switch; Sinkhorn starts from the potentials of the round before",
    ("gromov._bregman::entropic_gromov_wasserstein", "sinkhorn", "warmstart"): "here warmstart is a switch; Sinkhorn starts from the potentials of the round before",
    ("gromov._estimators::sampled_gromov_wasserstein", "emd", "numItermax"): INNER,
    ("gromov._estimators::sampled_gromov_wasserstein", "sinkhorn", "numItermax"): INNER,
    ("gromov._partial::entropic_partial_fused_gromov_wasserstein", "entropic_partial_wasserstein", "numItermax"): INNER,
    ("gromov._partial::entropic_partial_fused_gromov_wasserstein", "entropic_partial_wasserstein", "stopThr"): INNER,
    ("gromov._partial::entropic_partial_gromov_wasserstein", "entropic_partial_wasserstein", "numItermax"): INNER,
    ("gromov._partial::entropic_partial_gromov_wasserstein", "entropic_partial_wasserstein", "stopThr"): INNER,
    ("gromov._quantized::quantized_fused_gromov_wasserstein", "get_graph_partition", "alpha"): NOEFFECT,
    ("gromov._quantized::quantized_fused_gromov_wasserstein", "format_partitioned_graph", "alpha"): NOEFFECT,
    ("gromov._quantized::quantized_fused_gromov_wasserstein_samples", "format_partitioned_samples", "alpha"): NOEFFECT,
    ("gromov._semirelaxed::semirelaxed_fgw_barycenters", "semirelaxed_init_plan", "alpha"): NOEFFECT,
    ("lp._barycenter_solvers::free_support_barycenter", "emd", "numItermax"): INNER,
    ("lp._barycenter_solvers::free_support_barycenter_generic_costs", "emd", "numItermax"): INNER,
    ("lp._barycenter_solvers::free_support_barycenter_generic_costs", "NorthWestMMGluing", "a"): "None asks for the weights that the plans imply",
    ("lp._barycenter_solvers::free_support_barycenter_generic_costs", "_clean_discrete_measure", "tol"): "the threshold below which a mass counts as zero",
    ("lp.solver_1d::emd_1d_dual_backprop", "wasserstein_1d", "u_weights"): "the inner function names the weights a and b",
    ("lp.solver_1d::emd_1d_dual_backprop", "wasserstein_1d", "v_weights"): "the inner function names the weights a and b",
    ("lp.solver_circle::linear_circular_ot", "linear_circular_embedding", "u_weights"): "each measure is embedded by itself",
    ("mapping::joint_OT_mapping_kernel", "cg", "numItermax"): INNER,
    ("mapping::joint_OT_mapping_linear", "cg", "numItermax"): INNER,
    ("mapping::joint_OT_mapping_kernel", "cg", "numItermaxEmd"): INNER,
    ("mapping::joint_OT_mapping_linear", "cg", "numItermaxEmd"): INNER,
    ("mapping::joint_OT_mapping_kernel", "cg", "stopThr"): INNER,
    ("mapping::joint_OT_mapping_linear", "cg", "stopThr"): INNER,
    ("mapping::joint_OT_mapping_kernel", "emd", "numItermax"): INNER,
    ("mapping::joint_OT_mapping_linear", "emd", "numItermax"): INNER,
    ("optim::cg", "emd", "numItermax"): INNER,
    ("optim::gcg", "sinkhorn", "numItermax"): INNER,
    ("optim::gcg", "sinkhorn", "stopThr"): INNER,
    ("partial.partial_solvers::entropic_partial_gromov_wasserstein", "entropic_partial_wasserstein", "numItermax"): INNER,
    ("partial.partial_solvers::entropic_partial_gromov_wasserstein", "entropic_partial_wasserstein", "stopThr"): INNER,
    ("partial.partial_solvers::partial_gromov_wasserstein", "emd", "numItermax"): INNER,
    ("sgot::sgot_cost_matrix", "_delta_matrix_1d", "eps"): "eps is documented for the Martin metric only",
    ("smooth::projection_simplex", "projection_simplex", "axis"): "the other axes are reduced to axis 1 by a transposition",
    ("utils::projection_sparse_simplex", "projection_sparse_simplex", "axis"): "the other axes are reduced to axis 1 by a transposition",
    ("solvers::solve", "cg", "numItermaxEmd"): INNER,
    ("solvers::solve", "lbfgsb_unbalanced", "method"): "method selects among the solvers of the package, not SciPy's optimiser",
    ("solvers::solve", "smooth_ot_dual", "method"): "method selects among the solvers of the package, not SciPy's optimiser",
    ("solvers::solve", "smooth_ot_dual", "reg_type"): "the call is made for reg_type l2, the default of the called function",
    ("solvers::solve_sample", "OTResult.__init__", "batch_size"): "the size of the batches a result object computes its plan in",
    ("unbalanced._sinkhorn::barycenter_unbalanced", "barycenter_unbalanced", "method"): "falls back to the default method, with a warning",
    ("unbalanced._solver_1d::uot_1d", "emd_1d_dual_backprop", "require_sort"): "the samples are sorted once, before the loop",
    ("unbalanced._solver_1d::uot_1d", "wasserstein_1d", "require_sort"): "the samples are sorted once, before the loop",
    ("batch._quadratic::solve_gromov_batch", "bregman_log_projection_batch", "max_iter"): INNER,
    ("batch._quadratic::solve_gromov_batch", "bregman_log_projection_batch", "tol"): INNER,
    ("gromov._unbalanced::fused_unbalanced_across_spaces_divergence", "solve", "max_iter"): INNER,
    ("gromov._unbalanced::fused_unbalanced_across_spaces_divergence", "solve", "tol"): INNER,
    ("gromov._unbalanced::fused_unbalanced_across_spaces_divergence", "solve", "reg_type"): "reg_type tells how the entropies of the two plans are joined; the inner problems get the divergence",
    ("gromov._semirelaxed::semirelaxed_fgw_barycenters", "semirelaxed_fused_gromov_wasserstein", "G0"): "G0 names the initialisation; the plans it stands for are handed on",
    ("gromov._semirelaxed::semirelaxed_gromov_barycenters", "semirelaxed_gromov_wasserstein", "G0"): "G0 names the initialisation; the plans it stands for are handed on",
}
# (caller, called function, parameter, name of the value given to it)
SWAPS = {
    ("bregman._barycenter::free_support_sinkhorn_barycenter", "sinkhorn", "a", "b"): "b are the weights of the barycenter, the source here",
    ("bregman._empirical::empirical_sinkhorn_divergence", "empirical_sinkhorn2", "X_t", "X_s"): "a measure compared with itself",
    ("bregman._empirical::empirical_sinkhorn_divergence", "empirical_sinkhorn2", "X_s", "X_t"): "a measure compared with itself",
    ("bregman._empirical::empirical_sinkhorn_divergence", "empirical_sinkhorn2", "a", "b"): "a measure compared with itself",
    ("bregman._empirical::empirical_sinkhorn_divergence", "empirical_sinkhorn2", "b", "a"): "a measure compared with itself",
    ("gromov._estimators::pointwise_gromov_wasserstein", "emd_1d", "a", "p"): "p are the weights of the first space",
    ("gromov._lowrank::lowrank_gromov_wasserstein_samples", "compute_lr_sqeuclidean_matrix", "X_t", "X_s"): "distances inside one space",
    ("gromov._lowrank::lowrank_gromov_wasserstein_samples", "compute_lr_sqeuclidean_matrix", "X_s", "X_t"): "distances inside one space",
    ("lowrank::_init_lr_sinkhorn", "sinkhorn", "a", "b"): "the plan R goes from the target (weights b) to the rank",
    ("lp._barycenter_solvers::free_support_barycenter", "emd", "a", "b"): "b are the weights of the barycenter, the source here",
    ("optim::gcg", "generic_conditional_gradient", "reg1", "reg2"): "the generic solver numbers the regularisations the other way round",
    ("solvers::solve_sample", "__init__", "value", "value_linear"): "without regularisation the value is the linear part",
}
# (function, parameter) that is never read
UNUSED = {
    ("bregman._sinkhorn::greenkhorn", "verbose"): "greenkhorn prints nothing",
    ("stochastic::batch_grad_dual", "batch_size"): "the batches are given by the caller",
    ("utils::parmap", "nprocs"): "deprecated name",
    ("NearestBrenierPotential", "seed"): "the starting point of the solver is not random",
}

# the same option under two names
ROLES = (
    ("budget", re.compile(r"(?i)(max_?(inner_?)?iter|itmax|num_?iter|^n_?iters?$|iter_?max)")),
    ("tol", re.compile(r"(?i)(^stopThr$|^tol$)")),
    ("threads", re.compile(r"^(numThreads|n_threads|n_jobs)$")),
    ("seed", re.compile(r"^(random_state|seed|rng)$")),
    ("start", re.compile(r"^(warmstart|potentials_init)$")),
)
# options whose forwarding other properties decide (log, messages, warnings), and the backend object
ELSEWHERE = ("log", "verbose", "warn", "nx")


def role(n):
    for r, x in ROLES:
        if x.search(n):
            return r
    return n


def chain(f):
    while f is not None:
        yield f
        f = f.parent


def isnum(d):
    if isinstance(d, ast.UnaryOp):
        d = d.operand
    return isinstance(d, ast.Constant) and isinstance(d.value, (int, float))


def mentions(e, names):
    return any(isinstance(n, ast.Name) and n.id in names or isinstance(n, ast.Attribute) and n.attr in names for n in ast.walk(e))


def guarded(f, g, q, opts, ln, col):
    """the value handed on is chosen by a test of the option"""
    chosen = set()
    for F in chain(f):
        for n in ast.walk(F.node):
            if isinstance(n, ast.If) and mentions(n.test, opts):
                chosen |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            elif isinstance(n, ast.Assign) and any(isinstance(x, ast.IfExp) and mentions(x.test, opts) for x in ast.walk(n.value)):
                chosen |= {x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
    for c in callnodes(f).get((ln, col), ()):
        for a in list(c.args) + [k.value for k in c.keywords if k.arg in (q, None)]:
            if any(isinstance(x, ast.IfExp) and mentions(x.test, opts) for x in ast.walk(a)):
                return True
        for k in c.keywords:
            if k.arg == q and mentions(k.value, chosen):
                return True
        pos = g.pos_params[1:] if g.cls is not None and g.kind != "staticmethod" else g.pos_params
        if q in pos and pos.index(q) < len(c.args) and mentions(c.args[pos.index(q)], chosen):
            return True
    return False


def captured(ctx, I, f, deps):
    """the names of f (and of the functions it is nested in) that values depend on"""
    r, todo, seen = set(), [(f, x) for x in deps], set()
    while todo:
        f, x = todo.pop()
        if (f.fid, x) in seen:
            continue
        seen.add((f.fid, x))
        r.add(x[5:] if x.startswith("self.") else x.lstrip("^"))
        if f.parent is not None:
            todo += [(f.parent, y) for y in I.capdeps.get((f.fid, x), ())]
    return r


def short(f):
    return f.fid.replace("ot.", "", 1)


def run(ctx, rep):
    rep.rule("a call inside the package hands on every option, under the same name or as the same kind of option (iteration budget, tolerance, "
             "threads, seed, starting potentials), that both the calling function and the called one have; what is handed on derives from the caller's option")
    rep.rule("an estimator hands its constructor parameters on in the same way")
    rep.rule("a value named like one parameter of the called function is not given to another parameter of it")
    rep.rule("a keyword argument that lands in **kwargs is read, or handed on to a function that reads it")
    rep.rule("a parameter of a public function is read")
    p = ctx.p
    I = ctx.interp(record_calls=True)
    for f, c in ctx.entries():
        rep.cover("entry points", [ctx.entry_name(f, c)])
        I.run_entry(f, selfcls=c)
    pairs = 0
    for (cf, ln, col, gf), d in sorted(I.callsites.items()):
        f, g = p.funcs[cf], p.funcs[gf]
        if f.module.name == "ot.backend" or g.module.name in ("ot.backend", "ot.plot"):
            continue
        where = "%s:%d" % (f.module.path, ln)
        opts = ctx.names(f) - {"self"}
        attrs = set()
        top = f
        while top.parent is not None:
            top = top.parent
        if top.cls is not None and p.method(top.cls, "__init__") is not None and top.name == "fit":
            attrs = set(p.method(top.cls, "__init__").params) - {"self"}
        for q, (deps, passed, consts) in sorted(d.items()):
            if q not in g.defaults or q in ELSEWHERE or q.startswith("_"):
                continue
            same = {o for o in opts if o == q} or {o for o in opts if role(o) == role(q) and role(q) != q}
            mine = {o for o in attrs if o == q} or {o for o in attrs if role(o) == role(q) and role(q) != q}
            if not same and not mine:
                continue
            pairs += 1
            given = True in passed or "maybe" in passed
            if q == "p" and not (isnum(g.defaults.get("p")) and all(isnum(F.defaults.get("p")) for F in chain(f) if "p" in F.params)):
                continue        # the weights p of one and the exponent p of the other
            src = captured(ctx, I, f, deps)
            bad = None
            if not given:
                bad = "is not handed on"
            elif not src & (same | mine) and not (mine and not same and "self" in src and f is not top) and "maybe" not in passed and not guarded(f, g, q, same | mine, ln, col):
                bad = "does not decide what is handed on"
            if bad is None:
                continue
            key = (short(top), g.name if g.cls is None else g.cls.name + "." + g.name, q)
            if ctx.held(f, lambda h: (short(h),) + key[1:] in EXCEPTIONS):
                continue
            rep.violation("%s:%s:%s" % key, "%s calls %s, but its option %s %s as %s" % (short(f), g.name, "/".join(sorted(same or mine)), bad, q), where)
    rep.count("options of a caller and a called function compared", pairs)
    rep.need(pairs >= 800, "only %d option pairs" % pairs)
    slots(ctx, rep, I)
    kw(ctx, rep, I)
    unused(ctx, rep)
    for t in (EXCEPTIONS, SWAPS, UNUSED):
        for k, why in t.items():
            rep.assume("%s: %s" % (" -> ".join(k), why))


def callnodes(f, cache={}):
    if f.node not in cache:
        d = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                d.setdefault((n.lineno, n.col_offset), []).append(n)
        cache[f.node] = d
    return cache[f.node]


def nodes_of(ctx, I):
    for cf, ln, col, gf in sorted(I.callsites):
        f, g = ctx.p.funcs[cf], ctx.p.funcs[gf]
        if f.module.name == "ot.backend" or g.module.name == "ot.backend":
            continue
        for n in callnodes(f).get((ln, col), ()):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None)
            if len(callnodes(f)[(ln, col)]) > 1 and name != g.name:
                continue
            yield f, g, n


def slots(ctx, rep, I):
    n = 0
    for f, g, call in nodes_of(ctx, I):
        pos = g.pos_params
        if g.cls is not None and g.kind != "staticmethod":
            pos = pos[1:]
        bound = []
        for q, a in zip(pos, call.args):
            if isinstance(a, ast.Starred):
                break
            bound.append((q, a))
        bound += [(k.arg, k.value) for k in call.keywords if k.arg]
        for q, a in bound:
            x = a.id if isinstance(a, ast.Name) else a.attr if isinstance(a, ast.Attribute) and getattr(a.value, "id", "") == "self" else None
            if x is None:
                continue
            n += 1
            key = (short(list(chain(f))[-1]), g.name, q, x)
            if x != q and x in g.params and not ctx.held(f, lambda h: (short(h),) + key[1:] in SWAPS):
                rep.violation("%s:%s:%s:%s" % key, "%s gives its %s to the parameter %s of %s, which has a parameter %s" % (short(f), x, q, g.name, x),
                              "%s:%d" % (f.module.path, call.lineno))
    rep.count("named arguments placed", n)


def kw(ctx, rep, I):
    """keywords that fall into **kwargs and are never looked at"""
    fwd = {}
    for f, g, call in nodes_of(ctx, I):
        if any(k.arg is None and isinstance(k.value, ast.Name) for k in call.keywords):
            for k in call.keywords:
                if k.arg is None and isinstance(k.value, ast.Name):
                    fwd.setdefault((f.fid, k.value.id), set()).add(g.fid)

    def reads(g, seen):
        """keywords some function behind g's ** parameter reads; None: unknown, all"""
        r = set(g.params)
        if not g.kwarg or g.fid in seen:
            return r
        seen = seen | {g.fid}
        for n in ast.walk(g.node):
            if isinstance(n, ast.Name) and n.id == g.kwarg:
                r.add(("use",))
        plain = 0
        for n in ast.walk(g.node):
            if isinstance(n, ast.Name) and n.id == g.kwarg and isinstance(n.ctx, ast.Load):
                plain += 1
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg is None and isinstance(k.value, ast.Name) and k.value.id == g.kwarg:
                        plain -= 1
                        tg = targets(g, n)
                        if not tg:
                            return None
                        for h in tg:
                            sub = reads(h, seen)
                            if sub is None:
                                return None
                            r |= sub
        return None if plain > 0 else r

    by = {}
    for cf, ln, col, gf in I.callsites:
        by.setdefault((cf, ln, col), set()).add(gf)

    def targets(f, n):
        out = set()
        for cf in [f.fid] + [x for x in ctx.p.funcs if x.startswith(f.fid + ".")]:
            out |= by.get((cf, n.lineno, n.col_offset), set())
        return [ctx.p.funcs[x] for x in out]

    n = 0
    for f, g, call in nodes_of(ctx, I):
        if not g.kwarg:
            continue
        ok = None
        for k in call.keywords:
            if k.arg is None or k.arg in g.params:
                continue
            n += 1
            if ok is None:
                ok = reads(g, frozenset()) or True
            if ok is not True and k.arg not in ok:
                key = ctx.key(rep, f, lambda h: "%s:%s:%s:swallowed" % (short(h), g.name, k.arg))
                rep.violation(key, "%s gives %s to %s, which ignores it (it lands in **%s unread)" % (
                    short(f), k.arg, g.name, g.kwarg), "%s:%d" % (f.module.path, call.lineno))
    rep.count("keyword arguments that land in **kwargs", n)


def unused(ctx, rep):
    n = 0
    rep.assume("out_of_sample_map has one documented value only, so estimators need not read it")
    for f, c in ctx.entries():
        if c is not None and f.name != "__init__":
            continue        # the methods share their parameters with the estimator interface
        if refuses(f.node):
            continue
        read = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        if "locals" in read:
            continue
        for q in f.params:
            n += 1
            if q in read or q in ("self", "cls") or q.startswith("_") or q in (f.vararg, f.kwarg):
                continue
            key = (short(f), q)
            if key not in UNUSED:
                rep.violation("%s:%s:unused" % key, "%s never reads its parameter %s" % (short(f), q), f.where())
    for c in ctx.estimators():
        init = ctx.p.method(c, "__init__")
        if init is None:
            continue
        read = set()
        for k in ctx.p.mro(c):
            for m in k.methods.values():
                if m.name != "__init__" and ctx.p.method(c, m.name) is m or m.name == "fit":
                    read |= {x.attr for x in ast.walk(m.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)}
        for q in init.params[1:]:
            n += 1
            if q not in read and (c.name, q) not in UNUSED and q != "out_of_sample_map":
                rep.violation("%s:%s:unused" % (c.name, q), "no method of %s reads its parameter %s" % (c.name, q), init.where())
    rep.count("parameters of public functions and estimators", n)


def refuses(node):
    body = [s for s in node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Raise, ast.Pass)) for s in body)

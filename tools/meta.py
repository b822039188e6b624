#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one place to keep them in step)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA, CHECKS = [], [], []
TRUST = ("Trusted: Python's ast, the interpreter in potsa/ and its models of NumPy/SciPy/backend calls. Approximates values, "
         "follows calls inside the package, closures, **kwargs and dispatch through the backend; says nothing about numerical values.")


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CHECKS.append(dict(property=id, quick_cmd="python3 check.py %s" % id, thorough_cmd="python3 check.py %s --tier thorough" % id,
                           technique=technique, level="other", level_note=(note + " " if note else "") + TRUST))


prop("P01", "Arguments are never modified in place",
     "Calling any public function or estimator method leaves every array, list and mapping passed to it exactly as it was: "
     "no solver normalises, centres, masks, sorts, rescales or otherwise writes into memory owned by the caller.",
     ["inputs", "configurations"], "every public function and estimator method, every argument, every option and path, "
     "including memory shared through views, reshapes and backend conversions",
     "Tests rarely compare an argument before and after a call, and a write is reached only for particular options, sizes or "
     "backends (views of NumPy arrays, CPU tensors).",
     ["ot/utils.py", "ot/bregman", "ot/gromov", "ot/lp", "ot/da.py", "ot/gmm.py", "ot/dr.py", "ot/optim.py", "ot/partial", "ot/unbalanced", "ot/sliced"],
     [("copies before in-place updates", "nx.copy / arithmetic that allocates in every solver"), ("list_to_array, from_numpy, to_numpy may share memory", "ot/utils.py, ot/backend.py")],
     "interprocedural alias and side-effect analysis (abstract interpretation of the syntax trees)",
     "Decides that no store can reach memory a parameter may share.")
prop("P04", "An unknown choice is refused, never silently replaced",
     "When a string argument selects a method, loss, regulariser, metric, initialisation or mode, a value that is none of the "
     "supported names makes the call raise an error; it never falls through to some default algorithm or to an undefined result.",
     ["inputs", "configurations"], "every public function, every string-valued option, every string that is no supported name",
     "Tests try one or two bad names on a few functions; the statement covers every option on every path that looks at it.",
     ["ot/solvers.py", "ot/bregman", "ot/gromov", "ot/unbalanced", "ot/lp", "ot/da.py", "ot/batch", "ot/utils.py", "ot/gmm.py"],
     [("terminal else: raise", "dispatchers such as ot.sinkhorn, ot.solve, ot.solve_gromov, init_matrix")],
     "abstract interpretation with one option bound to a string equal to no literal",
     "Decides that no path that has compared the option with its choices returns normally.")
prop("P09", "Randomness comes only from the given seed",
     "A function that accepts a seed or random state draws every random number from it, so equal seeds give equal results; no call "
     "ever reseeds or disturbs the process-wide generators of NumPy, Python's random module or PyTorch; a function without a seed "
     "argument is deterministic.",
     ["inputs", "histories", "configurations"], "every public function and estimator, every option, any state of the global generators before the call",
     "A test with a fixed global seed cannot tell a seeded generator from the global one, and does not look at the global state afterwards.",
     ["ot/utils.py", "ot/datasets.py", "ot/stochastic.py", "ot/gromov", "ot/sliced", "ot/lowrank.py", "ot/gmm.py", "ot/dr.py"],
     [("check_random_state", "ot/utils.py"), ("nx.seed before nx.rand/randn/randperm", "ot/lowrank.py, ot/sliced/_utils.py")],
     "taint analysis from seed parameters to generators, with call-graph reachability of global generators",
     "Decides which parameter each draw depends on and that no process-wide generator is drawn from or reseeded.")
prop("P10", "A call leaves no state behind",
     "Results depend on the arguments of the call only: no public function or estimator method stores anything in module variables, "
     "classes, functions, default arguments, caches or settings of other packages that a later call could observe.",
     ["histories"], "every sequence of calls of public functions and estimator methods",
     "Tests run each function from a fresh state or in one fixed order; leaked state shows only in particular histories.",
     ["ot"], [("no module-level mutable state", "all modules of ot")],
     "effect analysis: stores to module, class, function and default-argument state over the call graph",
     "Decides that no such store is reachable.")
prop("P11", "Nothing is printed unless verbose is set",
     "With verbosity left off, no public function or estimator method writes to standard output or standard error; diagnostics are "
     "given as warnings or in the returned log.",
     ["inputs", "configurations"], "every public function and estimator method, all arguments with verbose=False, every path including non-convergence and numerical errors",
     "Tests do not capture output, and the messages sit on rarely taken paths.",
     ["ot"], [("if verbose: print", "all iterative solvers"), ("warnings.warn", "all solvers")],
     "reachability analysis of print effects with the verbosity switches bound to False",
     "Decides that no print is reachable from Python code; messages of the compiled solvers are outside.")
exec(open(os.path.join(ROOT, "tools", "more.py")).read())

prop("P90", "Transport plans satisfy their marginal constraints",
     "A balanced solver returns a nonnegative plan whose row and column sums equal the given weights up to the stated tolerance; partial and unbalanced solvers meet their relaxed constraints.",
     ["inputs"], "all weights, costs, regularisations", "Tests sample a few random problems.", ["ot/lp", "ot/bregman", "ot/partial", "ot/unbalanced"],
     [("network simplex, Sinkhorn scaling", "ot/lp/network_simplex_simple.h, ot/bregman/_sinkhorn.py")],
     na="the statement is about floating-point sums of solver output; no static argument in reach bounds them (the simplex and the scaling iterations would have to be verified numerically)")
prop("P91", "Exact solvers return an optimal plan and dual certificate",
     "ot.emd and ot.emd2 return the minimum transport cost, and the returned dual potentials are feasible and attain it.",
     ["inputs"], "all weights and costs", "Tests compare a few instances with closed forms.", ["ot/lp"], [("network simplex", "ot/lp/network_simplex_simple.h")],
     na="optimality of the computed plan is a numerical property of the simplex run; a static analysis of the C++ source cannot establish it")
prop("P92", "Transport distances obey the metric and invariance axioms",
     "Wasserstein, sliced and Gromov-Wasserstein costs are nonnegative, symmetric, zero on identical inputs, and invariant under permutations and isometries as documented.",
     ["inputs"], "all measures", "Tests sample few inputs.", ["ot/lp", "ot/sliced", "ot/gromov"], [("cost definitions", "ot/gromov/_utils.py, ot/lp/solver_1d.py")],
     na="a statement about computed real values for all inputs; out of reach of source-level analysis")
prop("P93", "All backends and lazy/dense/batched variants agree numerically",
     "The same problem gives the same value, up to rounding, on every backend and through the dense, lazy, sparse and batched variants.",
     ["inputs", "configurations"], "all inputs, backends and variants", "Tests compare a few instances on the installed backends.", ["ot/backend.py", "ot/solvers.py", "ot/batch"],
     [("backend methods with one specification", "ot/backend.py")],
     na="equality of floating-point results of different implementations; only the structural part (same surface and signatures) can be decided statically and is claimed separately")
prop("P94", "Gradients equal the derivative of the returned value",
     "With an automatic-differentiation backend the gradient of a returned loss with respect to every differentiable input is the derivative of that loss.",
     ["inputs"], "all differentiable inputs", "Tests check finite values or a few directions.", ["ot/lp", "ot/gromov", "ot/solvers.py"],
     [("nx.set_gradients", "ot/backend.py")],
     na="equality of derivatives is a numerical statement about envelope formulas; only the pairing of inputs with supplied gradients is structural")
prop("P95", "Regularised solutions approach the unregularised ones",
     "As the regularisation goes to zero (or the mass relaxation to infinity) the value converges to the exact or balanced one.",
     ["inputs"], "all problems, sequences of regularisations", "Tests try one small value.", ["ot/bregman", "ot/unbalanced"], [("solver formulas", "ot/bregman, ot/unbalanced")],
     na="a limit statement over real sequences; not decidable from the shape of the code")

P.sort(key=lambda p: p["id"]); NA.sort(key=lambda p: p["property"]); CHECKS.sort(key=lambda p: p["property"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
json.dump(dict(version=1, setup_cmd="python3 -c \"import ast\"", checks=CHECKS, not_applicable=NA,
               notes="Static analysis only: check.py parses /repo/ot on every run (see DESIGN.md). known_findings.txt lists recorded and repaired defects."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(CHECKS), "checks")

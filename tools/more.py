prop("P03", "Asking for a log, messages or warnings does not change the result",
     "The options log, verbose and warn only observe: with any of them switched on or off a function computes and returns the same "
     "values. With log=True the result is followed by one dictionary with the log as the last item; with log=False there is no log.",
     ["inputs", "configurations"], "every function with a log, verbose or warn option, all values of the other arguments, every path including early returns",
     "Tests compare both modes on a few problems; a computation done only under 'if log' or 'if verbose' changes results on particular iterations and options.",
     ["ot/bregman", "ot/gromov", "ot/lp", "ot/unbalanced", "ot/partial", "ot/optim.py", "ot/gmm.py", "ot/sliced", "ot/mapping.py", "ot/coot.py"],
     [("if log: log[...] = ...; if log: return x, log", "all iterative solvers"), ("if verbose: print", "all iterative solvers")],
     "value numbering of each function over its syntax tree (gated terms for branches and loops) with the option on and off, equality of the terms of the results; shape analysis of returned values",
     "Decides that the result is the same term of the arguments with the option on and off. The callables a user passes are outside.")
prop("P06", "Solvers say when they did not converge, and warn=False silences it",
     "An iterative solver with a warn option that ends without meeting its tolerance issues a warning when warn is True, on every "
     "path and also when it is called through another solver; with warn=False no convergence warning is issued.",
     ["inputs", "configurations"], "every solver with a warn option and a tolerance, every method, option and path",
     "Tests trigger non-convergence for few solvers and options.",
     ["ot/bregman", "ot/unbalanced", "ot/lowrank.py", "ot/gromov", "ot/partial", "ot/solvers.py"],
     [("for/else: if warn: warnings.warn", "ot/bregman/_sinkhorn.py, ot/unbalanced/_sinkhorn.py"), ("warn forwarded", "ot.sinkhorn, ot.bregman.empirical_sinkhorn")],
     "abstract interpretation with an unattainable tolerance: a typestate 'warned' must hold at every return",
     "Decides that no return is reached unwarned when no tolerance is met.")
prop("P17", "No call fails because of the package's own wiring",
     "On every path of every public function and method, local variables are assigned before they are read, names exist, an optional "
     "argument left at None is not used as a value, and every internal call fits the signature of its callee and takes its result "
     "apart correctly: no supported combination of options dies of UnboundLocalError, NameError, TypeError or AttributeError in the package's own code.",
     ["inputs", "configurations"], "every public function and method, every combination of options and branches",
     "The combinations of options are far more than the tests run; such an error hides on any line they do not execute.",
     ["ot"], [("dispatch between solvers", "ot/solvers.py, ot/bregman, ot/gromov, ot/da.py")],
     "path-sensitive definite assignment and None tracking, interprocedural signature and unpacking checks by abstract interpretation",
     "Decides the listed error kinds; errors inside NumPy or a backend for unsuitable values are outside.")
prop("P02", "An option given to a function reaches the solver that does the work",
     "Whatever a caller sets - weights, regularisation, tolerance, iteration budget, method, warm start, number of threads, seed, verbosity - "
     "is handed on, unchanged and under the right name, to the internal solvers that have the same option; no documented option is silently "
     "ignored, replaced by the inner default, swallowed by **kwargs, or handed to a different option.",
     ["inputs", "configurations"], "every call between functions and estimators of the package, on every feasible path, for every option both sides have",
     "A dropped option leaves the default in force: results stay plausible, and tests with default options cannot see it.",
     ["ot/solvers.py", "ot/bregman", "ot/gromov", "ot/unbalanced", "ot/partial", "ot/da.py", "ot/lp", "ot/coot.py", "ot/mapping.py", "ot/factored.py", "ot/smooth.py"],
     [("option forwarding in dispatchers", "ot.solve, ot.solve_gromov, ot.solve_sample, ot.sinkhorn, ot.barycenter"), ("estimator options used in fit", "ot/da.py")],
     "interprocedural argument-flow (dependence) analysis over all call sites, with role tables for options of different names",
     "Decides the flow of options from parameter to call argument and that every parameter is read; the pairs of functions whose "
     "options have different meanings are listed with reasons in the rule.")
prop("P05", "The iteration budget is honoured and every loop ends",
     "A solver with an iteration budget makes at most that many iterations (a first one may always be made), and every loop of the package ends "
     "after finitely many passes whatever the data: also when a tolerance cannot be met, or when errors or step sizes become NaN.",
     ["inputs", "configurations"], "every loop of every function, all data including non-finite values, all budgets and tolerances",
     "Non-termination needs degenerate data (NaN, unattainable tolerances), which a test suite cannot enumerate and does not time.",
     ["ot/bregman", "ot/gromov", "ot/unbalanced", "ot/lp", "ot/optim.py", "ot/partial", "ot/mapping.py", "ot/sliced", "ot/coot.py", "ot/stochastic.py"],
     [("for/while with numItermax", "all iterative solvers"), ("bounded searches", "ot/optim.py, ot/lp/solver_circle.py")],
     "loop analysis: ranking by counter variables against the budget, path-sensitive in NaN comparisons, and absence of unbounded recursion",
     "Decides a bound by a monotone counter for every while loop, and that the bound is the budget; the loops bounded otherwise are listed "
     "with reasons. C++ loops are outside.")
prop("P07", "All backends offer the same operations",
     "Every operation the package asks of a backend exists on every backend, with the same parameters in the same order and the same defaults, "
     "honours each of them, and returns a value on every path; an operation a backend lacks is refused with NotImplementedError.",
     ["configurations"], "every backend (NumPy, PyTorch, JAX, CuPy, TensorFlow), every operation, every parameter, every call of an operation in the package",
     "Only the installed backends are tested (CuPy needs a GPU), and a parameter that one backend ignores is seen only by the call that sets it.",
     ["ot/backend.py"], [("class Backend and its subclasses", "ot/backend.py"), ("nx.<operation> calls", "all solvers")],
     "cross-checking of sibling classes: signatures, use of parameters and returns against the abstract class and against all resolved call sites",
     "Decides the common surface; equality of the values returned by two backends is P93.")
prop("P12", "Estimators keep their constructor parameters and can be fitted again",
     "The constructor stores each parameter unchanged under its own name; fit changes none of them, reads no state left by an earlier fit, and "
     "returns the estimator; the other methods read only what the constructor or fit stores. Fitting twice therefore equals fitting once.",
     ["histories", "configurations"], "every estimator class, every sequence of fit, transform, fit_transform, inverse_transform and label methods, every option",
     "Tests fit a fresh estimator once; refitting with other data or options is a history they do not contain.",
     ["ot/da.py", "ot/utils.py", "ot/gnn"], [("BaseEstimator.get_params/set_params", "ot/utils.py"), ("fit stores coupling_, xs_, xt_, ...", "ot/da.py")],
     "typestate and effect analysis of object attributes by abstract interpretation of constructors and methods",
     "Decides which attributes are stored, with which value, and which are read before they are stored.")
prop("P16", "Every advertised name exists and optional libraries stay optional",
     "import ot and import of each of its modules work with only NumPy and SciPy installed; every name in __all__ and every name a module imports "
     "from another module of the package exists; only missing optional features fail, at the time they are used.",
     ["configurations"], "every module, every name, every subset of the optional libraries installed",
     "Tests run in one environment with a fixed set of libraries, and import few names through __all__.",
     ["ot"], [("try: import ... except ImportError", "ot/backend.py, ot/__init__.py, ot/dr.py"), ("__all__", "all modules")],
     "import-graph and name-resolution analysis of module top levels",
     "Decides the imports and names at module level.")
prop("P25", "Every solver works for sources and targets of different sizes, and returns the documented shapes",
     "Whatever the numbers of samples, features, histograms, atoms or batch entries, no operation combines arrays that do not fit: weights, costs, "
     "plans, potentials and gradients keep the axis they belong to. A result has the shape the documentation gives it, a gradient the shape of its input.",
     ["inputs", "configurations"], "every public function and method with documented array shapes, all sizes at once (symbolic), every option and path",
     "Tests use a few sizes, often equal for source and target, for which a swapped axis or a transposed plan goes unnoticed.",
     ["ot"], [("plans of shape (ns, nt), potentials of shape (ns,) and (nt,)", "all solvers"), ("nx.set_gradients", "ot/lp, ot/gromov, ot/bregman")],
     "abstract interpretation with symbolic array shapes taken from the documentation",
     "Decides operations whose operand shapes follow from the documented ones; sizes of different names are taken to differ. Operands of unknown shape are not judged.")
prop("P08", "Results live on the backend, dtype and device of the inputs",
     "Given arrays of a backend, every function returns arrays of that backend, with the dtype and on the device of the inputs, also in its log: no "
     "internal array is made with the default dtype or device and combined with the inputs or returned, and no NumPy array is returned in place of one of the backend.",
     ["inputs", "configurations"], "every public function and method with array arguments, every backend, dtype and device, every option and path",
     "Tests run on the CPU, most in the default dtype, with values compared to a tolerance: a constant on the CPU or in another precision goes unnoticed, and many options are tested with NumPy only.",
     ["ot"], [("nx.zeros/ones/from_numpy(..., type_as=...)", "all solvers"), ("nx.to_numpy ... nx.from_numpy around NumPy solvers", "ot/lp, ot/gromov, ot/partial, ot/unbalanced/_lbfgs.py")],
     "abstract interpretation with a provenance lattice for arrays (input, default, NumPy)",
     "Decides where arrays made without type_as or by NumPy end up. Integer index arrays and arrays of unknown origin are not judged; the conversions inside the backends are trusted.")

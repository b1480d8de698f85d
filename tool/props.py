prop("C01", "A failed user evaluation is never turned into success",
     "If a problem callback (problem data, starting point, objective, gradient, constraints, Jacobian or Hessian) reports failure, the layer that asked for it reports failure upwards (or raises an error); it never returns success. No result is stored for reuse, and asking again for the same quantity at the same point after a failure does not report success without calling back. This holds in the C++, C, Fortran, Java and AMPL interfaces; only documented fallbacks (scaling, warm start, full-rank assumption, post-solve reports) are exempt.",
     ["fault_sequences", "histories"], "every callback, every point at which it can fail and every later request",
     "tests never let a callback fail at a chosen evaluation; each (callback, history) pair needs its own fault",
     ["src/Interfaces/IpTNLPAdapter.cpp", "src/Interfaces/IpStdInterfaceTNLP.cpp", "src/Interfaces/IpStdFInterface.c", "src/Interfaces/IpStdJInterface.cpp", "src/Algorithm/IpOrigIpoptNLP.cpp", "src/Apps/AmplSolver/AmplTNLP.cpp"],
     [("bool results propagated, IpoptNLP::Eval_Error thrown", "IpOrigIpoptNLP.cpp"), ("tags reset before evaluation", "TNLPAdapter::internal_eval_g/jac_g, update_local_x")],
     [("x_tag_for_g_, x_tag_for_jac_g_", "point at which the cached constraint/Jacobian values were computed")],
     "path-sensitive property simulation over the syntax tree, with bottom-up summaries",
     "every path of every function that asks the problem for something, in all interface layers (callees that report failures are used as summaries, others inlined); decides the report, not what a caller of the library does with it")
prop("C02", "Non-finite evaluation results are evaluation errors, never used silently",
     "When the problem delivers a NaN or infinite objective value, objective gradient or constraint vector, the evaluation counts as failed: an evaluation error is raised and the value is neither returned nor stored for reuse. With check_derivatives_for_naninf the same holds for constraint Jacobians and the Hessian, and the validity test of every vector and matrix class examines all of its numeric components. A trial point at which an evaluation failed is never accepted by the line search.",
     ["inputs", "fault_sequences"], "every evaluation, every component that may be NaN/Inf, every path of the line search after an evaluation error",
     "tests never return NaN at a chosen evaluation or component",
     ["src/Algorithm/IpOrigIpoptNLP.cpp", "src/LinAlg/IpCompoundMatrix.cpp", "src/LinAlg/TMatrices/IpGenTMatrix.cpp", "src/LinAlg/IpVector.hpp", "src/Algorithm/IpBacktrackingLineSearch.cpp"],
     [("finiteness guard before caching", "OrigIpoptNLP::f/grad_f/c/d/jac_c/jac_d/h"), ("HasValidNumbersImpl", "matrix classes")],
     technique="path-sensitive property simulation; component-coverage query over matrix classes",
     note="norms/sums of values are assumed non-finite iff a value is; values of wrapped matrices are judged by their own class")
prop("C04", "A remembered result is reused only for the inputs it was computed from",
     "A function, derivative or derived quantity (slacks, constraint and complementarity violations, Lagrangian gradients, barrier and penalty functions and their derivatives, error measures, matrix factorizations and products, vector norms) that is remembered for reuse is handed out again only if everything it was computed from, including the barrier parameter where the objective depends on it, is unchanged; otherwise it is computed anew. It is looked up under the same inputs it was filed under, the value returned is the one remembered, and stores that are consulted for one another (current and trial point) hold the same quantity. A factorization counts as current only if none of the matrices, diagonal terms and perturbations it was made from changed since the last successful one.",
     ["inputs", "histories"], "every use of the result caches and change tags, for every history of iterates, barrier parameters and restoration calls",
     "a stale value appears only for particular sequences of iterate changes (mu update without step, restoration, watchdog), and then mostly only slows convergence down or shifts the result slightly",
     ["src/Common/IpCachedResults.hpp", "src/Algorithm/IpIpoptCalculatedQuantities.cpp", "src/Algorithm/IpOrigIpoptNLP.cpp", "src/Algorithm/IpPDFullSpaceSolver.cpp", "src/Algorithm/IpStdAugSystemSolver.cpp", "src/Algorithm/IpLowRankAugSystemSolver.cpp", "src/LinAlg/IpVector.hpp", "src/contrib/CGPenalty/IpCGPenaltyCq.cpp"],
     [("result caches", "CachedResults, DependentResult; every GetCachedResult/AddCachedResult"), ("change detectors", "StdAugSystemSolver::AugmentedSystemRequiresChange"), ("lazily kept norms", "Vector::Nrm2, Copy, Scal")],
     technique="symbolic terms of every cached value over all paths; dependency completeness by term decomposition; path facts of tag comparisons",
     note="decides dependencies and reuse, not the formulas; that every change of an object renews its tag is a separate matter (C05)")
prop("C05", "Every change of a vector or matrix invalidates what was derived from it",
     "Every public operation that changes a vector, matrix or other tagged object, or that hands out access through which its content can be changed, gives the object a new change tag, never used before, before it returns, and all results that registered interest in the object are told. Results that observe an object and objects that are observed keep complete lists of each other: registering, withdrawing and destruction of either side are mirrored, and a notification reaches every registered observer.",
     ["inputs", "histories"], "every non-const public operation of every tagged class, for all operands and sequences of operations",
     "a forgotten notification is harmless until some remembered quantity depends on exactly that object between two evaluations; tests then see at most different iterates",
     ["src/Common/IpTaggedObject.hpp", "src/Common/IpTaggedObject.cpp", "src/Common/IpObserver.hpp", "src/LinAlg/IpVector.hpp", "src/LinAlg/IpDenseVector.hpp", "src/LinAlg/IpDenseVector.cpp", "src/LinAlg/IpCompoundVector.hpp", "src/LinAlg/IpSumSymMatrix.cpp", "src/LinAlg/TMatrices/IpSymTMatrix.cpp", "src/Algorithm/IpIteratesVector.hpp"],
     [("change marks", "TaggedObject::ObjectChanged and every class derived from TaggedObject"), ("bookkeeping", "Observer::RequestAttach/RequestDetach/ProcessNotification, Subject::Notify")],
     technique="path-sensitive effect analysis of all mutating operations over their whole call trees inside the class; must-call analysis of the observer lists",
     note="an operation may mark the object before or after the change, as long as both happen in the same call; changes made through access that was handed out earlier are outside")
prop("C11", "Every option has the documented type, range, default and effect",
     "Every option the program reads is registered under that name and type, and every registered option is read and kept in the parameter that belongs to it, under the prefix of the component that reads it. Type, bounds (including strictness), settings and default of every documented option agree with the option reference, defaults are admissible, and no option is registered twice. A setting of an option with a fixed list of settings selects the behaviour it names.",
     ["inputs"], "all registrations and reads of options in the program, for every option and setting",
     "a test sets a few options; a misspelt name throws only when that component is built, and a swapped parameter, shifted setting or changed default only alters behaviour quietly",
     ["src/Common/IpRegOptions.cpp", "src/Common/IpOptionsList.cpp", "src/Algorithm/IpAlgBuilder.cpp", "src/Algorithm/IpFilterLSAcceptor.cpp", "src/Algorithm/IpIpoptAlg.cpp", "src/Interfaces/IpTNLPAdapter.cpp", "src/Interfaces/IpIpoptApplication.cpp", "doc/options.dox"],
     [("registration", "RegisteredOptions::Add*Option calls"), ("reading", "OptionsList::Get*Value calls"), ("enumerations", "casts of GetEnumValue results")],
     technique="whole-program agreement analysis of option registrations, reads, enumerations and the option reference",
     note="components compiled only with WSMP, SPRAL or MKL are not analysed; defaults that depend on the build (orderings, library names) are not compared")
prop("C12", "Option values are validated before they are stored, and found again",
     "An option value is stored only if the option is registered with that type, the value lies within the registered bounds (strict or not) or matches a registered setting in any case, and the value present may be replaced; a refused value leaves the list unchanged and is reported. Reading an option gives the stored value, the one set with the prefix first, or else the registered default of the right type; a string setting maps to the registered setting it matches and to its position. Values from an options file are parsed completely (Fortran exponents included) and set with the registered type, and reading stops with an error if one is refused; registering records type, default, bounds and settings as given and refuses a name that is taken.",
     ["inputs"], "every path of every function that registers, sets, removes, reads or parses an option, for every name, value and flag",
     "tests set a few valid values; a bound that is not checked for one combination of bounds, a protected value that is replaced, or a refused line of an options file that is passed over needs invalid or unusual input",
     ["src/Common/IpOptionsList.cpp", "src/Common/IpOptionsList.hpp", "src/Common/IpRegOptions.cpp", "src/Common/IpRegOptions.hpp"],
     [("setting", "OptionsList::Set*Value, UnsetValue"), ("validity", "RegisteredOption::IsValid*Setting, MapStringSetting"), ("reading", "OptionsList::Get*Value, find_tag, ReadFromStream")],
     technique="path-sensitive symbolic facts at every store, result and output of the option functions; case analysis of the validity predicates",
     note="the text form of a number (six digits), values too large for the integer type, and NaN are not covered")
prop("C18", "A step is accepted only by the documented acceptance tests",
     "The filter or penalty line search hands over a trial point exactly if the documented conditions hold (switching and Armijo condition, sufficient reduction, bound on the constraint violation, acceptability to every filter entry; or actual against predicted reduction of the penalty function), with the reference values of the current or the watchdog iterate, except when the user asked for every step to be accepted. What enters and leaves the filter, its resets, the minimal step size, the penalty parameter, tiny steps and soft restoration steps follow their definitions. Restoration ends with success only for a point that is sufficiently less infeasible and acceptable to the original line search.",
     ["inputs", "histories"], "every path of every acceptance test, filter operation and line search loop, for every iterate, filter content and option value",
     "converging test problems accept almost every first trial point; a condition that is wrong for a later filter entry, after an evaluation error, in the watchdog or near feasibility shows only on particular histories",
     ["src/Algorithm/IpFilterLSAcceptor.cpp", "src/Algorithm/IpFilter.hpp", "src/Algorithm/IpFilter.cpp", "src/Algorithm/IpPenaltyLSAcceptor.cpp", "src/Algorithm/IpBacktrackingLineSearch.cpp", "src/Algorithm/IpRestoConvCheck.cpp", "src/Algorithm/IpRestoFilterConvCheck.cpp", "src/Algorithm/IpRestoPenaltyConvCheck.cpp"],
     [("filter tests", "FilterLSAcceptor::CheckAcceptabilityOfTrialPoint, IsFtype, ArmijoHolds, IsAcceptableTo*, Filter, FilterEntry"), ("penalty tests", "PenaltyLSAcceptor::CheckAcceptabilityOfTrialPoint, CalcPred, InitThisLineSearch"), ("search", "BacktrackingLineSearch::DoBacktrackingLineSearch, DetectTinyStep, TrySoftRestoStep, TrySecondOrderCorrection, TryCorrector"), ("end of restoration", "RestoConvergenceCheck::CheckConvergence, TestOrigProgress")],
     technique="every path's result, facts and handed-over values compared with the documented conditions in polynomial normal form",
     note="the line search of the CG penalty option, and when the watchdog and restoration start, are not covered")
prop("C16", "Linear solver interfaces report and use what the solver told them",
     "The linear solver interfaces report success only if the library reported no error, a singular matrix when and only when the library did, and compare the inertia requested with the number of negative eigenvalues found by the factorization just made, which is also the number they report. A changed matrix, pivot tolerance or scaling leads to a new factorization with the current values before the next solve, and a higher quality is announced only if the pivot tolerance rises within its maximum. The system handed over is the given matrix, scaled by rows and columns together with the right-hand sides and solutions if and only if scaling is on, and solutions are stored on success only.",
     ["inputs", "histories"], "every path of every built linear solver interface and of the triplet driver, for every sequence of codes the library may return",
     "the tests run one solver, whose error codes, memory retries, stale factorizations and wrong-inertia counts hardly occur; six interfaces are never run because the libraries are not installed",
     ["src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp", "src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp", "src/Algorithm/LinearSolvers/IpMa27TSolverInterface.cpp", "src/Algorithm/LinearSolvers/IpMa57TSolverInterface.cpp", "src/Algorithm/LinearSolvers/IpMa77SolverInterface.cpp", "src/Algorithm/LinearSolvers/IpMa86SolverInterface.cpp", "src/Algorithm/LinearSolvers/IpMa97SolverInterface.cpp", "src/Algorithm/LinearSolvers/IpPardisoSolverInterface.cpp"],
     [("interfaces", "MultiSolve, Factorization, Backsolve, Solve, NumberOfNegEVals, IncreaseQuality of each *SolverInterface"), ("driver", "TSymLinearSolver::MultiSolve, GiveMatrixToSolver, IncreaseQuality")],
     technique="typestate over all paths with versioned terms for what each library call writes, judged at every return",
     note="the calls' other arguments, structure setup and the iterative mode of PARDISO are not covered; solvers that are not built here are not analysed")
prop("C35", "Regularization of the step systems follows the documented scheme",
     "The perturbations of the Hessian and of the constraint blocks start, grow, shrink, are limited and are given up as the inertia correction scheme documents, including the detection of structural degeneracy. Every system of the step computation is solved with the perturbation chosen for it, and its solution is used only if the solver succeeded and the number of negative eigenvalues equals the number of constraints (or, if that is requested, the curvature test along the step passes). Singular systems and too few or too many negative eigenvalues each get their own documented remedy, and the perturbation that is stored and printed is the one used.",
     ["inputs", "histories"], "every path of the perturbation handler and of the solution of one step system, for every sequence of answers of the linear solver",
     "the test problems rarely need more than one perturbation; degeneracy tests, limits, fallbacks and the curvature test are hardly ever taken",
     ["src/Algorithm/IpPDPerturbationHandler.cpp", "src/Algorithm/IpPDFullSpaceSolver.cpp"],
     [("scheme", "PDPerturbationHandler::ConsiderNewSystem, PerturbForSingularity, PerturbForWrongInertia, CurrentPerturbation"), ("use", "PDFullSpaceSolver::SolveOnce")],
     technique="symbolic final values of the handler's state on every path compared with a reference of the documented scheme; typestate of the solution loop over every answer of solver and handler",
     note="the outer loop (iterative refinement) and the Chen-Goldfarb variant of the handler are not covered")
prop("C15", "A new solve starts without state or settings of an earlier one",
     "When an algorithm object is used for another solve, or for another call of the restoration phase, its initialization sets anew all counters, flags, filters, stored points and option values that the algorithm changes and uses again, and initializes all parts the algorithm consists of, on every path on which it succeeds. Timers, evaluation counters, statistics and the data of the iterates start anew as well.",
     ["histories"], "every object of the algorithm and every path of its initialization, for every sequence of solves",
     "tests solve once per object, or the same problem twice; a counter that is not reset matters only if an earlier solve left a value that the later one reaches",
     ["src/Algorithm/IpBacktrackingLineSearch.cpp", "src/Algorithm/IpFilterLSAcceptor.cpp", "src/Algorithm/IpOptErrorConvCheck.cpp", "src/Algorithm/IpIpoptAlg.cpp", "src/Algorithm/IpIpoptData.cpp", "src/Algorithm/IpAdaptiveMuUpdate.cpp", "src/Algorithm/IpOrigIpoptNLP.cpp", "src/Interfaces/IpIpoptApplication.cpp"],
     [("initialization", "InitializeImpl of every AlgorithmStrategyObject; IpoptData/IpoptCalculatedQuantities/OrigIpoptNLP::Initialize"), ("entry points", "IpoptApplication::call_optimize, MinC_1NrmRestorationPhase::PerformRestoration")],
     technique="interprocedural must-assign and exposed-read dataflow per class, over the syntax tree",
     note="values that are guarded by another reset value (watchdog data, tags, reference values set at the start of each line search), caches and linear solver structure (C04, C16) are not obligations")
prop("C19", "Scaling is applied and undone consistently",
     "When variables, constraints or the objective are scaled, the algorithm works on functions evaluated at the user's point in the user's units and multiplied by the scaling factors, with bounds, starting point and initial multipliers converted by the matching factors (each part if and only if it was requested), and bounds relaxed outwards by the documented amount. The final point, multipliers, constraint and objective values, and the current iterate and violations available during the solve (also in the restoration phase), are converted back with exactly the inverse factors. Scaled Jacobians and Hessians act as the unscaled ones with rows and columns multiplied by the corresponding factors.",
     ["inputs"], "every conversion between user and algorithm units, for every scaling method, factor, point and multiplier, with and without each kind of scaling",
     "tests use the default scaling on problems whose factors are one; a wrong direction of one multiplier's conversion shows only with user scaling and a warm start, or in values handed out during the restoration phase",
     ["src/Algorithm/IpNLPScaling.cpp", "src/Algorithm/IpOrigIpoptNLP.cpp", "src/Interfaces/IpTNLP.cpp", "src/LinAlg/IpScaledMatrix.cpp", "src/LinAlg/IpSymScaledMatrix.cpp"],
     [("factors", "StandardScalingBase, NLPScalingObject"), ("start and end", "OrigIpoptNLP::InitializeStructures, FinalizeSolution"), ("evaluations", "OrigIpoptNLP::f, grad_f, c, d, jac_c, jac_d, h"), ("current point", "static functions of IpTNLP.cpp"), ("matrices", "ScaledMatrix, SymScaledMatrix")],
     technique="symbolic terms of results, handed-over arguments and final objects over all paths, judged against a table of conversions with their conditions",
     note="how the scaling factors are chosen (gradient-based, equilibration) is not an obligation; neither is TNLPAdapter's mapping of the user's factors to parts (C02)")
prop("C31", "Vector operations mean the same in every storage form and for every factor",
     "Every operation on dense vectors gives each element (or the computed norm, product, extremum or step length) exactly the documented value, whether the vectors involved store their elements individually or as one value for all, and for every special case of the factors, also when a vector is combined with itself. Operations on compound vectors apply the same operation to each of their parts and combine the parts' results into that of the whole.",
     ["inputs"], "every path of every operation, for every combination of storage forms, factors and element signs, over all vector lengths and contents",
     "the tests reach few combinations of storage form and factor; a wrong special case of the 64 in the two-vector update, or an operation that forgets that a vector is stored as one value, needs just that combination",
     ["src/LinAlg/IpDenseVector.cpp", "src/LinAlg/IpVector.cpp", "src/LinAlg/IpCompoundVector.cpp"],
     [("dense vectors", "DenseVector::*Impl, CopyToPos, CopyFromPos"), ("default operations", "Vector::AddTwoVectorsImpl"), ("compound vectors", "CompoundVector::*Impl")],
     technique="abstract interpretation of the element loops (one generic element, reduction terms for accumulators) for every combination of storage forms, compared with the documented terms",
     note="rounding, and values outside an operation's domain, are not modelled; BLAS routines are trusted")
prop("C36", "Products with elementary matrices and their row maxima equal their definitions",
     "For sparse general and symmetric matrices, expansion, diagonal and scaled identity matrices, a matrix-vector product (plain or transposed) yields exactly alpha times matrix times vector plus beta times the old result, and the combined operations X += alpha M Z/S and X = (R + alpha Z M^T D)/S equal their formulas, each for every storage form of the vectors and special case of the factors. An entry of a symmetric matrix off the diagonal counts for both of its positions, one on the diagonal once. Row and column maxima are the largest absolute entries and keep the maxima they are combined with.",
     ["inputs"], "every path of every operation, for every combination of storage forms, factors and positions of an entry, over all dimensions and numbers of entries",
     "the test problems use few of the combinations of storage form and factor, and equilibrated or combined maxima only with one matrix per row",
     ["src/LinAlg/TMatrices/IpGenTMatrix.cpp", "src/LinAlg/TMatrices/IpSymTMatrix.cpp", "src/LinAlg/IpExpansionMatrix.cpp", "src/LinAlg/IpDiagMatrix.cpp", "src/LinAlg/IpIdentityMatrix.cpp", "src/LinAlg/IpMatrix.cpp"],
     [("products", "*::MultVectorImpl, TransMultVectorImpl"), ("combined operations", "AddMSinvZImpl, SinvBlrmZMTdBrImpl"), ("maxima", "ComputeRowAMaxImpl, ComputeColAMaxImpl")],
     technique="abstract interpretation of the loops over matrix entries (one generic entry, its additions recorded by index term) for every combination of storage forms, compared with the documented terms",
     note="matrices built from others (compound, sum, scaled, low-rank) and dense matrices are not covered; rounding is not modelled")
prop("C34", "Steps stay on the computed direction and inside the bounds",
     "Every trial point is the current point plus a step size times the corresponding part of one computed step, and the primal step size never exceeds the fraction-to-the-boundary step size of that same step (backtracking and corrections included); bound multipliers move by their own fraction-to-the-boundary step size and equality multipliers by the step size the option alpha_for_y selects. An accepted correction hands over exactly the step and step size of its trial point. The fraction-to-the-boundary parameter stays between 0 and 1 and the barrier parameter follows the documented update of the active mode, within its minimum, target and maximum.",
     ["inputs"], "every path through line search, corrections, soft and full restoration, and barrier updates, for every iterate and option value",
     "tests converge with almost any step rule; a bound that uses another step, a dropped safeguard or a swapped multiplier part needs particular options, corrections or iterates to show",
     ["src/Algorithm/IpIpoptData.cpp", "src/Algorithm/IpBacktrackingLineSearch.cpp", "src/Algorithm/IpFilterLSAcceptor.cpp", "src/Algorithm/IpPenaltyLSAcceptor.cpp", "src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp", "src/Algorithm/IpRestoMinC_1Nrm.cpp", "src/Algorithm/IpMonotoneMuUpdate.cpp", "src/Algorithm/IpAdaptiveMuUpdate.cpp"],
     [("trial points", "IpoptData::SetTrial*FromStep and their callers"), ("corrections", "TryCorrector, TrySecondOrderCorrection"), ("parameters", "UpdateBarrierParameter, CalcNewMuAndTau")],
     technique="symbolic terms of call arguments and handed-over values over all paths, judged by an inductive step-size bound and documented formulas",
     note="later rounds of second-order corrections repeat the first; the magic-step heuristic and convergence are not covered; values of the barrier parameter in free mode are judged up to the merging of paths")
prop("C33", "Steps solve the documented linear systems with the right data",
     "Every search direction, affine, centering, corrector and second-order correction step is obtained from the primal-dual equations with the documented right-hand side (Lagrangian gradients, constraint residuals and complementarities at the current point, with the documented corrections). The primal-dual system is reduced to the augmented system with its own Hessian, Jacobians, barrier diagonals and perturbations in their places, the eliminated multipliers are recovered with the right sign, side and slack, and the residual used in iterative refinement is that of the perturbed system that was solved. The restoration phase's system is reduced to, and its solution recovered from, that of the original problem, and the least-square estimates of primal variables, slacks and multipliers solve their documented systems.",
     ["inputs"], "every path of every function that sets up, reduces or recovers one of these systems, for every iterate and problem",
     "a wrong sign, side or perturbation in a block that is empty or zero for the test problems (upper bounds on inequalities, dual regularization, corrector steps) is hidden by iterative refinement and line search",
     ["src/Algorithm/IpPDFullSpaceSolver.cpp", "src/Algorithm/IpStdAugSystemSolver.cpp", "src/Algorithm/IpAugRestoSystemSolver.cpp", "src/Algorithm/IpPDSearchDirCalc.cpp", "src/Algorithm/IpFilterLSAcceptor.cpp", "src/Algorithm/IpLeastSquareMults.cpp", "src/Algorithm/IpDefaultIterateInitializer.cpp", "src/Algorithm/IpQualityFunctionMuOracle.cpp"],
     [("right-hand sides", "PDSearchDirCalculator::ComputeSearchDirection, TrySecondOrderCorrection, TryCorrector"), ("reduction", "PDFullSpaceSolver::SolveOnce, ComputeResiduals"), ("matrix", "StdAugSystemSolver::CreateAugmentedSystem")],
     technique="symbolic terms of call arguments and results over all paths, brought to normal form and compared with the documented systems",
     note="second and later rounds of second-order corrections, the quality of the factorization, and the low-rank solvers' internal algebra are not covered")
prop("C32", "The quantities the algorithm works with equal their definitions",
     "At every iterate, current and trial: slacks are distances to the bounds (corrected only when too small), complementarities slack times multiplier, barrier objective and its gradient f - mu sum ln(slack) with the damping terms, Lagrangian gradients, Jacobian products, primal and dual infeasibility, (unscaled) error measures with their scaling factors, primal-dual diagonals, step-to-the-boundary factors, centrality and average complementarity, each from all of its parts, with right sign, side and point. The scaled problem functions are the user's functions at the unscaled point, scaled by their own factors; the restoration problem's functions are those documented (constraints with n and p added and subtracted, weighted objective with proximity term), and its variables are eliminated from the linear system by the documented formulas. Parts of an iterate are read and written at their own position.",
     ["inputs"], "every path of every function that computes one of these quantities, for every iterate and problem",
     "a wrong sign or side in a term that is empty or tiny for the test problems (upper bounds on inequalities, damping, slack correction, unscaled errors) only slows convergence or shifts a tolerance",
     ["src/Algorithm/IpIpoptCalculatedQuantities.cpp", "src/Algorithm/IpOrigIpoptNLP.cpp", "src/Algorithm/IpRestoIpoptNLP.cpp", "src/Algorithm/IpAugRestoSystemSolver.cpp", "src/Algorithm/IpIteratesVector.hpp", "src/contrib/CGPenalty/IpCGPenaltyCq.cpp"],
     [("formulas", "IpoptCalculatedQuantities::curr_*, trial_*"), ("scaling", "OrigIpoptNLP::f, grad_f, c, d, jac_c, jac_d, h"), ("elimination", "AugRestoSystemSolver::Neg_Omega_*, Sigma_tilde_*, Rhs_*")],
     technique="symbolic terms of computed values over all paths, brought to normal form and compared with a table of definitions",
     note="exact in the algebra of vector operations; rounding is not considered, and the operations themselves are C02")
prop("C06", "Every way a run can end is reported with its own status code",
     "Each documented way of ending a run (solved, acceptable, infeasible, restoration failure, tiny step, diverging, iteration/CPU/wall time limit, user stop, invalid option, invalid number, too few degrees of freedom, insufficient memory, internal error, ...) is passed unchanged through the main loop, the restoration phase and the application to its documented return code, for every exception type the library throws. The codes have the same numbers and names in C++, C, Fortran and Java, and the C, Fortran, Java and AMPL interfaces hand on the code they received.",
     ["fault_sequences"], "every solver status and exception type, at every nesting of the restoration phase",
     "most endings (time limits inside restoration, allocation failures, internal errors) cannot be provoked by the test problems",
     ["src/Interfaces/IpIpoptApplication.cpp", "src/Algorithm/IpIpoptAlg.cpp", "src/Algorithm/IpRestoMinC_1Nrm.cpp", "src/Interfaces/IpReturnCodes_inc.h", "src/Interfaces/Ipopt.java", "src/Apps/AmplSolver/AmplTNLP.cpp", "contrib/sIPOPT/src/SensApplication.cpp"],
     [("status switch and catch clauses", "IpoptApplication::call_optimize"), ("catch clauses", "IpoptAlgorithm::Optimize, MinC_1NrmRestorationPhase::PerformRestoration")],
     technique="scenario dataflow: every status/exception is pushed through the functions that map it; cross-language constant comparison",
     note="decides the mapping of statuses and exceptions, not whether the status is numerically justified; std::exception subclasses other than bad_alloc thrown by user callbacks are not modelled")
prop("C07", "Success is reported only at points that pass every tolerance test",
     "\"Optimal\" is reported only at a point where the scaled optimality error passed tol and the unscaled dual infeasibility, constraint violation and complementarity (with respect to mu_target) each passed their own tolerance, or, if no variables are left, at a point feasible within constr_viol_tol; \"acceptable\" only after acceptable_iter consecutive points that each passed all acceptable_* tests. Stopping early at an acceptable point needs a current or stored point that passed those tests, and the restoration phase ends successfully only at a point with reduced infeasibility that the original line search accepts (or a feasible point of a square problem). The optimality errors tested aggregate dual infeasibility, constraint violation and complementarity, each over all of its parts.",
     ["inputs", "histories"], "every iterate at which a run can stop with success, for every combination of tolerances",
     "test problems converge far below all tolerances at once, so a dropped or swapped tolerance test never shows",
     ["src/Algorithm/IpOptErrorConvCheck.cpp", "src/Algorithm/IpRestoConvCheck.cpp", "src/Algorithm/IpRestoFilterConvCheck.cpp", "src/Algorithm/IpBacktrackingLineSearch.cpp", "src/Algorithm/IpIpoptCalculatedQuantities.cpp"],
     [("tolerance tests", "OptimalityErrorConvergenceCheck::CheckConvergence, CurrentIsAcceptable"), ("acceptable point store", "BacktrackingLineSearch::StoreAcceptablePoint")],
     technique="path-sensitive symbolic facts on option members and calculated quantities (guard dominance)",
     note="decides which comparisons dominate each successful return, not that the quantities are numerically accurate")
prop("C08", "Iteration, time and user-stop limits are honoured after every step",
     "The iteration limit, the CPU and wall-clock time limits and the user's request to stop (intermediate callback) are each examined at every convergence check, also while restoration runs (which gets the remaining time budget and continues the iteration count), and nothing but convergence may be reported instead. Each of these endings is reported only when its own limit is reached or the user asked for it. Every interface layer hands the intermediate callback's arguments, in order, and its answer on unchanged.",
     ["inputs", "schedules", "fault_sequences"], "every check for termination, at every value of clock, counter and callback answer",
     "tests do not run into time limits nor stop from the callback inside restoration; time is a runtime quantity",
     ["src/Algorithm/IpOptErrorConvCheck.cpp", "src/Algorithm/IpRestoConvCheck.cpp", "src/Algorithm/IpRestoMinC_1Nrm.cpp", "src/Algorithm/IpIpoptAlg.cpp", "src/Interfaces/IpTNLPAdapter.cpp", "src/Interfaces/IpStdInterfaceTNLP.cpp"],
     [("limit tests", "OptimalityErrorConvergenceCheck::CheckConvergence, RestoConvergenceCheck::CheckConvergence"), ("remaining budget", "MinC_1NrmRestorationPhase::PerformRestoration")],
     technique="path-sensitive symbolic facts on clock/counter comparisons; argument-forwarding dataflow across interface layers",
     note="the granularity of the clock and the duration of one iteration are not bounded")
prop("C09", "The final point reaches the user exactly once, complete and in place",
     "However a run ends, if there is a current point it is handed to the user exactly once (unless suppressed by option), with the point's own variables, constraint values, objective value, constraint multipliers and bound multipliers, for every ending that leaves an actual final point, including recovered multipliers of fixed variables. Every layer in between hands each part on in its own place, never mixed with another part. The C, Fortran, Java, R and AMPL interfaces deliver each part to the argument, array, list element or solution-file entry their caller reads.",
     ["inputs", "fault_sequences"], "every ending and exception, every layer, every part of the final point",
     "tests compare few final values on successful runs only; swapped or missing parts show only for other endings, scalings or interfaces",
     ["src/Interfaces/IpIpoptApplication.cpp", "src/Algorithm/IpOrigIpoptNLP.cpp", "src/Interfaces/IpTNLPAdapter.cpp", "src/Interfaces/IpStdInterfaceTNLP.cpp", "src/Interfaces/IpStdJInterface.cpp", "contrib/RInterface/src/IpoptRNLP.cpp", "src/Apps/AmplSolver/AmplTNLP.cpp", "contrib/sIPOPT/src/SensApplication.cpp"],
     [("FinalizeSolution / finalize_solution chain", "IpoptApplication::call_optimize ... StdInterfaceTNLP::finalize_solution")],
     technique="interprocedural provenance (dataflow) of every forwarded argument; scenario dataflow over all endings with delivery counting",
     note="decides which data ends up where, not the numerical values; nothing is handed over when no point exists or the outcome is an internal error")
prop("C10", "Errors come back as return codes, not as exceptions crossing an interface",
     "Whatever fails inside, no exception of the library leaves a solve call of the application or any function of the C, Fortran, Java or R interface (including the calls a user makes from inside a callback): failures are reported through the return value. The solve calls also turn memory errors and, unless rethrowing was requested, exceptions thrown by the user's own problem callbacks into return codes. Only documented misuse (no problem given, re-solving before or with something else than the first solve) raises an exception; destroying an object never does.",
     ["fault_sequences"], "every throw expression and every call path from an entry point to it",
     "most exceptions need a failing library, evaluation or allocation at one particular call",
     ["src/Interfaces/IpIpoptApplication.cpp", "src/Interfaces/IpStdCInterface.cpp", "src/Interfaces/IpStdFInterface.c", "src/Interfaces/IpStdJInterface.cpp", "contrib/RInterface/src/ipoptr.cpp"],
     [("catch clauses", "IpoptApplication::OptimizeNLP, ReOptimizeNLP, call_optimize, IpoptSolve")],
     technique="whole-program exception-escape fixpoint over the call graph (virtual calls: all overriders)",
     note="exceptions of the standard library other than explicit throws and failing new-expressions are not modelled; reading a registered option is assumed not to throw")
prop("C40", "Regular smooth problems are solved to a first-order optimal point",
     "From any starting point of a sufficiently smooth, regular problem the iterates converge to a point satisfying the first-order optimality conditions, fast close to the solution.",
     ["inputs"], "all problems satisfying the assumptions of the convergence theory",
     "each test is one problem",
     ["src/Algorithm/IpIpoptAlg.cpp"], [("main loop", "IpoptAlgorithm::Optimize")],
     na="global convergence depends on the values of user functions over an unbounded sequence of iterates and on rounding; no static argument in reach bounds them. The structural conditions the theory needs (acceptance tests, step rules, systems, stopping tests) are C07, C18, C32-C35.")
prop("C41", "Computed steps solve their linear systems to the promised accuracy",
     "Unless a lesser accuracy was accepted explicitly, the residual of every step relative to its system does not exceed the configured ratio in floating-point arithmetic.",
     ["inputs"], "all matrices and right-hand sides",
     "tests see a few well-conditioned systems",
     ["src/Algorithm/IpPDFullSpaceSolver.cpp"], [("iterative refinement", "PDFullSpaceSolver::Solve")],
     na="the residual is a rounding-dependent runtime quantity of third-party factorizations; that the residual computed is that of the system solved, is C33, and which systems are accepted is C35/C16.")
prop("C42", "The derivative checker reports exactly the wrong derivatives",
     "A first or second derivative is reported as wrong if and only if it differs from the derivative of the function it belongs to.",
     ["inputs"], "all functions and points",
     "tests use a few functions",
     ["src/Interfaces/IpTNLPAdapter.cpp"], [("checker", "TNLPAdapter::CheckDerivatives")],
     na="the verdict compares finite differences of user functions with a tolerance; truncation and cancellation errors depend on the function's values and higher derivatives, which no static analysis of this code bounds.")
prop("C43", "Quasi-Newton matrices stay bounded and satisfy the secant condition",
     "The limited-memory approximation represented by its factors satisfies the secant equation of the latest update and has the curvature properties of its update formula.",
     ["histories"], "all sequences of steps and gradient changes",
     "tests run a few problems with a limited-memory Hessian",
     ["src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp"], [("updates", "LimMemQuasiNewtonUpdater::UpdateHessian")],
     na="the representation is the outcome of numerical factorizations (Cholesky, eigenvalues) of small dense matrices inside loops over the history; the relation to the secant equation is an identity of matrix products and inverses of run-time size that the term language here does not express.")
prop("C44", "Repeated runs produce identical iterates",
     "Two runs with the same input, options and build produce bit-wise identical iterates and results.",
     ["schedules"], "all inputs and schedules",
     "repeating a test samples one machine and one thread count",
     ["src/Algorithm/IpIpoptAlg.cpp"], [("main loop", "IpoptAlgorithm::Optimize")],
     na="the order of floating-point operations is decided inside third-party libraries (BLAS, MUMPS, HSL, OpenMP) whose sources are not part of the repository.")

D={}
D["C01"]="""Call sites of every callback (evaluation, structure, bounds, starting point, scaling, warm start) in TNLPAdapter, OrigIpoptNLP, the interfaces and the derivative checker are enumerated; every path after a failing call is followed to its return/exception (R1), through a second request for the same quantity (R2: tag/caching state) and to every cache store (R3). Reaches failure points no test produces (each callback failing at each call). Exempt with reason: values only printed, `TNLPReducer::finalize_solution`."""
D["C02"]="""Dominance of every return/cache store of an evaluation by a test that fails for NaN/Inf (R1/R2); boolean structure of every `HasValidNumbersImpl` (R3: conjunction over parts, loops exit early only with false); coverage of the components used in products (R4); the finiteness test itself (R5); the trial-point loop after `Eval_Error` (R6)."""
D["C04"]="""For every `CachedResults` store: the symbolic term of the value over all paths is decomposed into the mutable inputs it reads; all must be among object/scalar dependencies or be functions of them (R1); lookups and stores agree (R2); caches that are looked up for each other contain the same term (R3). Tag protocol of TNLPAdapter, matrices and linear solvers (R4) and `CachedResults`/`DependentResult` themselves (R5)."""
D["C05"]="""Effect analysis: for every public non-const member function of a TaggedObject, every path that may write content (over its call tree) also calls `ObjectChanged` (R1); `ObjectChanged` assigns a fresh tag and notifies on every path (R2); attach/detach/destructors keep both lists (R3)."""
D["C06"]="""Every `switch`/handler chain that maps SolverReturn / exceptions / convergence states is evaluated for every enumerator and exception class of the hierarchy and compared with the documented mapping (R1-R4, R7, R8); constants of C, Fortran, Java headers compared by value (R5); wrappers forward (R6)."""
D["C07"]="""Guard obligations: facts known on every path to `return CONVERGED…`, to counting an acceptable iterate, to storing/restoring an acceptable point, to leaving restoration (R1-R5); the error is the max of its parts (R6); the norm functions are taken over all parts (R7)."""
D["C08"]="""Typestate of the main loop (R3), guard obligations of `CheckConvergence` of both checks (R1/R2), hand-over chains of the callback's result and arguments (R4), time budget of the restoration phase (R5), clock (R6)."""
D["C09"]="""Counting typestate of finalize_solution over every exit of `call_optimize`, including exceptions (R1); argument chains through all layers (R2, R4: C, Fortran, Java, R, AMPL); for each SolverReturn, which iterate and which multipliers reach the user (R3)."""
D["C10"]="""Exception-escape analysis: per function, the set of exception types that can leave it (throws, callees incl. virtual targets, `new`, std containers, user callbacks; minus handlers), at every entry point and destructor. Conservative about what may throw; what is thrown by `std::bad_alloc` etc. is included."""
D["C11"]="""All `Add*Option` registrations and all `Get*Value` reads are collected with constant arguments (prefixes, enumerations) and matched; enumerations in order of settings (R2), value flows into the parameter (R3), prefix (R4), defaults in range (R5), comparison with the option reference shipped in the repository (R6), string comparisons (R7)."""
D["C12"]="""Path facts at each store in OptionsList and each answer of the validity predicates (decided by case analysis over orderings), registration, retrieval with prefix, and file parsing."""
D["C15"]="""Per class: the set of fields that a solve writes and may read before writing (exposed reads over the call graph inside the class) must be assigned on every successful path of its initialization. The set of confirmed obligations is frozen in `checks/c15_fields.txt` (an obligation can vanish only with its field) and extended by newly found ones of the same kind; exempt are values guarded by another reset value."""
D["C16"]="""Typestate over `MultiSolve`/`Factorization`/`Solve` of MUMPS, MA27, MA57, MA77, MA86, MA97, Pardiso and the TSymLinearSolver driver: each library call writes fresh versions of its status outputs; at every return the facts about the newest version must justify the status reported (R1-R5); quality, inertia, scaling and matrix-copy rules (R6-R9)."""
D["C18"]="""The conditions on every path of filter/penalty acceptors are normalized to polynomials and compared with the documented definitions in both directions (accepted => conditions hold; refused => one fails)."""
D["C19"]="""Symbolic results of all apply/unapply functions judged against the inverse pair table (R1); construction and products of scaled matrices (R2); 16 scenarios (which scalings exist, objective factor, which parts are requested) of `InitializeStructures`, final values of every part (R3); arguments handed to finalize_solution (R4); static functions behind get_curr_iterate/violations, each with/without restoration and scaling (R5); evaluations (R6)."""
D["C32"]="""For 118 cached/calculated quantities the symbolic value on every path is compared with a definition written in the DSL, including in which case which alternative applies; compositions go through the other quantities' names, so each function is judged by its own definition."""
D["C33"]="""Terms of right-hand sides, sub-blocks, coefficients and unknowns at each solve call; eliminated parts; residuals; augmented matrix blocks; restoration reduction; least-square multipliers: each compared with the documented equations."""
D["C34"]="""Terms of every trial point and step size; inductive bound alpha <= alpha_max of the same step over line search, corrections and restoration; parameters in (0,1); mu updates."""
D["C35"]="""Reference model of the inertia-correction scheme is replayed against the symbolic final state of the handler on every path (R1-R4); typestate of `SolveOnce`/augmented system loop over every sequence of answers of solver and handler (R5-R8)."""
D["C31"]="""`sa/elem.py` interprets each operation abstractly on a generic element: an array is the term of its i-th element plus its allocation state, a loop (any form that visits all elements: index, pointer, `while`, standard algorithm, BLAS call) is interpreted once, and a variable accumulated in a loop becomes a sum or extremum term over all elements. Every operation runs in every combination of storage forms of its operands (one value for all / one value with memory allocated / array), and aliased with itself; branches on factors or element signs split paths. On every path the resulting element (R1), computed value (R2), array handed out (R4) must equal the documented term, which is a table in `checks/c31.py` written from the class documentation. For compound vectors the parts take the role of the elements (R3): same operation, matching parts, results combined. Three genuine defects came out of it."""
D["C36"]="""The interpreter of C31 with several dimensions (rows, columns, nonzeros): loops over a dimension are interpreted for one generic entry, accesses to arrays of another dimension are errors, and a store at the position an index array gives is recorded as (index term, new value in terms of the old one). On every path the start of the result (beta y, 0, or the maxima so far) and the recorded additions must be those of the definition; for symmetric matrices separately for entries on and off the diagonal. Default implementations of the base class and all vector operations are interpreted too, in every combination of storage forms. Two genuine defects came out of it."""

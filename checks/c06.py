"""C06: the reason for stopping arrives unchanged at the caller, in every interface."""
import os, re
from sa.engine import Engine
from sa.db import AnalysisError, REPO
from sa.model import walk, deref, show
from sa.scenario import Scenario, enum_values, calls_named

# documented meaning of the algorithm's results (IpReturnCodes / TNLP::finalize_solution documentation)
APP = {
    "SUCCESS": "Solve_Succeeded", "MAXITER_EXCEEDED": "Maximum_Iterations_Exceeded",
    "CPUTIME_EXCEEDED": "Maximum_CpuTime_Exceeded", "WALLTIME_EXCEEDED": "Maximum_WallTime_Exceeded",
    "STOP_AT_TINY_STEP": "Search_Direction_Becomes_Too_Small", "STOP_AT_ACCEPTABLE_POINT": "Solved_To_Acceptable_Level",
    "FEASIBLE_POINT_FOUND": "Feasible_Point_Found", "DIVERGING_ITERATES": "Diverging_Iterates",
    "RESTORATION_FAILURE": "Restoration_Failed", "ERROR_IN_STEP_COMPUTATION": "Error_In_Step_Computation",
    "LOCAL_INFEASIBILITY": "Infeasible_Problem_Detected", "USER_REQUESTED_STOP": "User_Requested_Stop",
    "INVALID_NUMBER_DETECTED": "Invalid_Number_Detected", "TOO_FEW_DEGREES_OF_FREEDOM": "Not_Enough_Degrees_Of_Freedom",
    "INTERNAL_ERROR": "Internal_Error", "UNASSIGNED": "Internal_Error",
}
# exception out of the algorithm object -> (application status, solver status for finalize_solution or None = any failure)
APP_EXC = {
    "Ipopt::TOO_FEW_DOF": ("Not_Enough_Degrees_Of_Freedom", "TOO_FEW_DEGREES_OF_FREEDOM"),
    "Ipopt::OPTION_INVALID": ("Invalid_Option", "INVALID_OPTION"),
    "Ipopt::DYNAMIC_LIBRARY_FAILURE": ("Invalid_Option", None),
    "Ipopt::INCONSISTENT_BOUNDS": ("Invalid_Problem_Definition", "LOCAL_INFEASIBILITY"),
    "Ipopt::IpoptNLP::Eval_Error": ("Unrecoverable_Exception", None),
    "Ipopt::IpoptException": ("Unrecoverable_Exception", None),
    "std::bad_alloc": ("Insufficient_Memory", "OUT_OF_MEMORY"),
    "std::overflow_error": ("Insufficient_Memory", "OUT_OF_MEMORY"),
    "SomeForeignException": ("NonIpopt_Exception_Thrown", None),
}
NLP_EXC = {
    "Ipopt::OPTION_INVALID": "Invalid_Option", "Ipopt::IpoptException": "Unrecoverable_Exception",
    "std::bad_alloc": "Insufficient_Memory", "std::overflow_error": "Insufficient_Memory",
    "SomeForeignException": "NonIpopt_Exception_Thrown",
}
CONV = {
    "CONVERGED": "SUCCESS", "CONVERGED_TO_ACCEPTABLE_POINT": "STOP_AT_ACCEPTABLE_POINT",
    "MAXITER_EXCEEDED": "MAXITER_EXCEEDED", "CPUTIME_EXCEEDED": "CPUTIME_EXCEEDED", "WALLTIME_EXCEEDED": "WALLTIME_EXCEEDED",
    "DIVERGING": "DIVERGING_ITERATES", "USER_STOP": "USER_REQUESTED_STOP", "FAILED": "INTERNAL_ERROR",
}
ALG_EXC = {
    "Ipopt::TINY_STEP_DETECTED": {"STOP_AT_TINY_STEP"},
    "Ipopt::ACCEPTABLE_POINT_REACHED": {"STOP_AT_ACCEPTABLE_POINT"},
    "Ipopt::LOCALLY_INFEASIBLE": {"LOCAL_INFEASIBILITY"},
    "Ipopt::RESTORATION_CONVERGED_TO_FEASIBLE_POINT": {"FEASIBLE_POINT_FOUND", "RESTORATION_FAILURE"},
    "Ipopt::RESTORATION_FAILED": {"RESTORATION_FAILURE"},
    "Ipopt::RESTORATION_MAXITER_EXCEEDED": {"MAXITER_EXCEEDED"},
    "Ipopt::RESTORATION_CPUTIME_EXCEEDED": {"CPUTIME_EXCEEDED"},
    "Ipopt::RESTORATION_WALLTIME_EXCEEDED": {"WALLTIME_EXCEEDED"},
    "Ipopt::RESTORATION_USER_STOP": {"USER_REQUESTED_STOP"},
    "Ipopt::STEP_COMPUTATION_FAILED": {"ERROR_IN_STEP_COMPUTATION"},
    "Ipopt::IpoptNLP::Eval_Error": {"INVALID_NUMBER_DETECTED"},
    "Ipopt::FEASIBILITY_PROBLEM_SOLVED": {"FEASIBLE_POINT_FOUND"},
    "Ipopt::TOO_FEW_DOF": {"TOO_FEW_DEGREES_OF_FREEDOM"},
    "Ipopt::INTERNAL_ABORT": {"INTERNAL_ERROR"},
}
# result of the inner solve of the restoration phase -> possible ways to leave
RESTO = {
    "SUCCESS": {"true", "Ipopt::FEASIBILITY_PROBLEM_SOLVED"},
    "MAXITER_EXCEEDED": {"Ipopt::RESTORATION_MAXITER_EXCEEDED"},
    "CPUTIME_EXCEEDED": {"Ipopt::RESTORATION_CPUTIME_EXCEEDED"},
    "WALLTIME_EXCEEDED": {"Ipopt::RESTORATION_WALLTIME_EXCEEDED"},
    "STOP_AT_TINY_STEP": {"Ipopt::RESTORATION_CONVERGED_TO_FEASIBLE_POINT", "Ipopt::LOCALLY_INFEASIBLE"},
    "STOP_AT_ACCEPTABLE_POINT": {"Ipopt::RESTORATION_CONVERGED_TO_FEASIBLE_POINT", "Ipopt::LOCALLY_INFEASIBLE", "Ipopt::FEASIBILITY_PROBLEM_SOLVED"},
    "LOCAL_INFEASIBILITY": {"Ipopt::LOCALLY_INFEASIBLE"},
    "USER_REQUESTED_STOP": {"Ipopt::RESTORATION_USER_STOP"},
    "RESTORATION_FAILURE": {"Ipopt::RESTORATION_FAILED"},
    "ERROR_IN_STEP_COMPUTATION": {"Ipopt::RESTORATION_FAILED"},
}
RESTO_DEFAULT = {"false"}
# AMPL solve_result_num classes
AMPL = {"SUCCESS": (0, 99), "STOP_AT_ACCEPTABLE_POINT": (0, 199), "FEASIBLE_POINT_FOUND": (0, 199), "LOCAL_INFEASIBILITY": (200, 299),
        "DIVERGING_ITERATES": (300, 399), "MAXITER_EXCEEDED": (400, 499), "CPUTIME_EXCEEDED": (400, 499),
        "WALLTIME_EXCEEDED": (400, 499), "USER_REQUESTED_STOP": (400, 499)}
AMPL_DEFAULT = (500, 599)
# names of the return codes outside C++ (Fortran without IP_, Java)
FOREIGN = {
    "SOLVE_SUCCEEDED": "Solve_Succeeded", "ACCEPTABLE_LEVEL": "Solved_To_Acceptable_Level",
    "INFEASIBLE_PROBLEM": "Infeasible_Problem_Detected", "SEARCH_DIRECTION_TOO_SMALL": "Search_Direction_Becomes_Too_Small",
    "DIVERGING_ITERATES": "Diverging_Iterates", "USER_REQUESTED_STOP": "User_Requested_Stop",
    "FEASIBLE_POINT_FOUND": "Feasible_Point_Found", "ITERATION_EXCEEDED": "Maximum_Iterations_Exceeded",
    "RESTORATION_FAILED": "Restoration_Failed", "ERROR_IN_STEP_COMPUTATION": "Error_In_Step_Computation",
    "CPUTIME_EXCEEDED": "Maximum_CpuTime_Exceeded", "WALLTIME_EXCEEDED": "Maximum_WallTime_Exceeded",
    "NOT_ENOUGH_DEGREES_OF_FRE": "Not_Enough_Degrees_Of_Freedom", "INVALID_PROBLEM_DEFINITION": "Invalid_Problem_Definition",
    "INVALID_OPTION": "Invalid_Option", "INVALID_NUMBER_DETECTED": "Invalid_Number_Detected",
    "UNRECOVERABLE_EXCEPTION": "Unrecoverable_Exception", "NON_IPOPT_EXCEPTION": "NonIpopt_Exception_Thrown",
    "INSUFFICIENT_MEMORY": "Insufficient_Memory", "INTERNAL_ERROR": "Internal_Error",
}
# documented values (the binary interface of the C, Fortran and Java libraries)
VALUES = {"Solve_Succeeded": 0, "Solved_To_Acceptable_Level": 1, "Infeasible_Problem_Detected": 2, "Search_Direction_Becomes_Too_Small": 3,
          "Diverging_Iterates": 4, "User_Requested_Stop": 5, "Feasible_Point_Found": 6, "Maximum_Iterations_Exceeded": -1,
          "Restoration_Failed": -2, "Error_In_Step_Computation": -3, "Maximum_CpuTime_Exceeded": -4, "Maximum_WallTime_Exceeded": -5,
          "Not_Enough_Degrees_Of_Freedom": -10, "Invalid_Problem_Definition": -11, "Invalid_Option": -12, "Invalid_Number_Detected": -13,
          "Unrecoverable_Exception": -100, "NonIpopt_Exception_Thrown": -101, "Insufficient_Memory": -102, "Internal_Error": -199}


def outcomes_of(m, f, cl, setup=None, cap=64, r=None):
    """{scenario: {(kind, value, prop extra): trace}}"""
    eng = Engine(m, cl, cap=cap)
    rets, thr = eng.run(f, (None, None), setup=setup)
    if r is not None:
        r.analysed([f] + [m.fns[u] for u in eng.visited_fns])
    out = {}
    for st, v in rets:
        if st.prop[0] is not None:
            out.setdefault(st.prop[0], {}).setdefault(("ret", eng.norm(st, v), st.prop[1]), st)
    for t, st in thr:
        if st.prop[0] is not None:
            out.setdefault(st.prop[0], {}).setdefault(("throw", t, st.prop[1]), st)
    if not cl.hits:
        raise AnalysisError("%s no longer contains the call whose result is followed" % f.f)
    return out


def const(v, what):
    if v[0] != 'c':
        raise AnalysisError("result of %s is not a known constant: %s" % (what, str(v)[:80]))
    return v[1]


def run(m, r):
    r.rule("R1", "every result of the algorithm is turned into its documented application status, and is the status given to finalize_solution")
    r.rule("R2", "every exception leaving the algorithm or the setup is turned into its documented application status")
    r.rule("R3", "every convergence-check outcome and every algorithm exception is turned into the matching algorithm result")
    r.rule("R4", "every result of the solve inside the restoration phase leaves the restoration phase as the matching exception or report")
    r.rule("R5", "the return-code constants of the C, Fortran and Java interfaces agree with the C++ enumeration, value by value")
    r.rule("R6", "the wrappers of the C, Fortran, Java and C++ entry points hand the application status through unchanged")
    r.rule("R7", "every algorithm result gets an AMPL result number of its documented class, distinct results distinct numbers")
    r.rule("R8", "the sensitivity add-on translates every application status back to the algorithm result it came from")
    sr = enum_values(m, "Ipopt::SolverReturn")
    ar = enum_values(m, "Ipopt::ApplicationReturnStatus")
    cs = enum_values(m, "Ipopt::ConvergenceCheck::ConvergenceStatus")
    srn = {v: k for k, v in sr.items()}
    arn = {v: k for k, v in ar.items()}

    def observe_finalize(eng, st, n, args):
        if n["k"] == "call" and n.get("f", "").endswith("OrigIpoptNLP::FinalizeSolution"):
            if eng is None:
                return True
            v = eng.norm(st, args[0])
            return [(x.withprop((x.prop[0], v)), w) for x, w in eng.havoc_call(st, n, eng.m.targets(n), None, args, eng.ptypes(n, eng.m.targets(n)))]
        return None

    # ---- R1/R2: call_optimize
    f = m.fn("Ipopt::IpoptApplication::call_optimize")
    oc = [(k, ('val', v)) for k, v in sr.items()] + [(t, ('throw', t)) for t in APP_EXC]
    cl = Scenario(m, calls_named("IpoptAlgorithm::Optimize"), oc, observe=observe_finalize, types=("SolverReturn", "ApplicationReturnStatus"), inline_file=f.file)
    out = outcomes_of(m, f, cl, r=r)
    for k in list(sr) + list(APP_EXC):
        if k in sr:
            want, fin, rule = ar[APP.get(k, "Internal_Error")], sr[k], "R1"
        else:
            want, fin, rule = ar[APP_EXC[k][0]], (sr[APP_EXC[k][1]] if APP_EXC[k][1] else None), "R2"
        bad = None
        got = out.get(k, {})
        if not got:
            raise AnalysisError("no path of call_optimize survives scenario " + k)
        for (kind, v, fv), st in got.items():
            if kind == "throw":
                if k == "SomeForeignException" and v == k:
                    continue        # option rethrow_nonipoptexception
                bad = bad or ("exception %s escapes" % v, st)
                continue
            v = const(v, "call_optimize")
            if v != want:
                bad = bad or ("reports %s instead of %s" % (arn.get(v, v), arn[want]), st)
            if fv is not None:
                fv = const(fv, "FinalizeSolution's status")
                if fin is not None and fv != fin:
                    bad = bad or ("finalize_solution is told %s instead of %s" % (srn.get(fv, fv), srn[fin]), st)
                if fin is None and srn.get(fv) in APP and ar[APP[srn[fv]]] >= 0:
                    bad = bad or ("finalize_solution is told %s after an exception" % srn[fv], st)
        r.check(bad is None, rule, "call_optimize(%s)" % k, f.at(), "outcome %s of the algorithm: %s" % (k, bad[0] if bad else ""), bad[1].path() if bad else None)

    # ---- R2: OptimizeNLP
    fs = [g for g in m.by_name.get("Ipopt::IpoptApplication::OptimizeNLP", []) if any(calls_named("IpoptApplication::call_optimize")(n) for n in g.nodes())]
    if len(fs) != 1:
        raise AnalysisError("anchor function not found: IpoptApplication::OptimizeNLP")
    f = fs[0]
    cl = Scenario(m, calls_named("IpoptApplication::call_optimize"), [(k, ('val', v)) for k, v in ar.items()] + [(t, ('throw', t)) for t in NLP_EXC],
                  types=("ApplicationReturnStatus",), inline_file=None)
    out = outcomes_of(m, f, cl, r=r)
    for k in list(ar) + list(NLP_EXC):
        want = ar[k] if k in ar else ar[NLP_EXC[k]]
        bad = None
        for (kind, v, fv), st in out.get(k, {}).items():
            if kind == "throw":
                if not (k == "SomeForeignException" and v == k):
                    bad = bad or ("exception %s escapes" % v, st)
                continue
            if const(v, "OptimizeNLP") != want:
                bad = bad or ("reports %s instead of %s" % (arn.get(v[1], v[1]), arn[want]), st)
        r.check(bad is None, "R6" if k in ar else "R2", "OptimizeNLP(%s)" % k, f.at(), "outcome %s: %s" % (k, bad[0] if bad else ""), bad[1].path() if bad else None)

    # ---- R3: the algorithm's main loop
    f = m.fn("Ipopt::IpoptAlgorithm::Optimize")
    conv = calls_named("ConvergenceCheck::CheckConvergence")
    oc = [(k, (('go' if k == "CONTINUE" else 'val'), v)) for k, v in cs.items()] + [(t, ('throw', t)) for t in ALG_EXC]
    cl = Scenario(m, lambda n: conv(n) or (n["k"] == "call" and n.get("f", "").endswith("OptimalityErrorConvergenceCheck::CheckConvergence")), oc,
                  types=("ConvergenceStatus", "SolverReturn"), inline_file=f.file)
    out = outcomes_of(m, f, cl, cap=96, r=r)
    for k in list(cs) + list(ALG_EXC):
        if k == "CONTINUE":
            continue
        want = {sr[CONV[k]]} if k in CONV else {sr[x] for x in ALG_EXC[k]} if k in ALG_EXC else None
        if want is None:
            raise AnalysisError("unknown convergence status %s: its meaning has to be stated in the check" % k)
        bad = None
        got = out.get(k, {})
        if not got:
            raise AnalysisError("no path of IpoptAlgorithm::Optimize survives scenario " + k)
        for (kind, v, fv), st in got.items():
            if kind == "throw":
                bad = bad or ("exception %s escapes" % v, st)
            elif const(v, "Optimize") not in want:
                bad = bad or ("returns %s instead of %s" % (srn.get(v[1], v[1]), "/".join(srn[w] for w in want)), st)
        r.check(bad is None, "R3", "Optimize(%s)" % k, f.at(), "outcome %s: %s" % (k, bad[0] if bad else ""), bad[1].path() if bad else None)

    # ---- R4: restoration phase
    f = m.fn("Ipopt::MinC_1NrmRestorationPhase::PerformRestoration")
    cl = Scenario(m, calls_named("IpoptAlgorithm::Optimize"), [(k, ('val', v)) for k, v in sr.items()], types=("SolverReturn",), inline_file=f.file)
    out = outcomes_of(m, f, cl, r=r)
    for k in sr:
        want = RESTO.get(k, RESTO_DEFAULT)
        bad = None
        got = out.get(k, {})
        if not got:
            raise AnalysisError("no path of PerformRestoration survives scenario " + k)
        for (kind, v, fv), st in got.items():
            if kind == "ret":
                t = v
                if t[0] != 'c':
                    raise AnalysisError("PerformRestoration: result not a known constant in scenario " + k)
                v = "true" if t[1] else "false"
            if v not in want:
                bad = bad or ("leaves with %s, documented: %s" % (v, "/".join(sorted(want))), st)
        r.check(bad is None, "R4", "PerformRestoration(%s)" % k, f.at(), "inner result %s: %s" % (k, bad[0] if bad else ""), bad[1].path() if bad else None)

    # ---- R5: constants
    car = None
    for key, lst in m.enums.items():
        if key == "ApplicationReturnStatus":
            car = {v["n"]: v["v"] for v in lst[0]["vals"]}
    if car is None:
        raise AnalysisError("C enumeration ApplicationReturnStatus not found")
    for k, v in VALUES.items():
        r.check(ar.get(k) == v, "R5", "C++:" + k, "src/Interfaces/IpReturnCodes_inc.h", "%s is %s, the documented code is %d" % (k, ar.get(k), v))
        r.check(car.get(k) == v, "R5", "C:" + k, "src/Interfaces/IpReturnCodes_inc.h", "%s is %s, the documented code is %d" % (k, car.get(k), v))
    inc = "src/Interfaces/IpReturnCodes.inc"
    txt = "\n".join(l for l in open(os.path.join(REPO, inc), errors="replace") if l[:1] not in "Cc*!")
    fort = {a.upper(): int(b) for a, b in re.findall(r"PARAMETER\s*\(\s*IP_(\w+)\s*=\s*(-?\d+)\s*\)", txt, re.I)}
    jav = "src/Interfaces/Ipopt.java"
    txt = re.sub(r"/\*.*?\*/|//[^\n]*", " ", open(os.path.join(REPO, jav), errors="replace").read(), flags=re.S)
    java = {a: int(b) for a, b in re.findall(r"\bfinal\s+(?:static\s+)?int\s+(\w+)\s*=\s*(-?\d+)\s*;", txt)}
    if len(fort) < 10 or len(java) < 10:
        raise AnalysisError("return-code constants not found in %s / %s" % (inc, jav))
    for k, c in FOREIGN.items():
        r.check(fort.get(k) == VALUES[c], "R5", "Fortran:" + k, inc, "IP_%s is %s, %s is %d" % (k, fort.get(k), c, VALUES[c]))
        r.check(java.get(k) == VALUES[c], "R5", "Java:" + k, jav, "%s is %s, %s is %d" % (k, java.get(k), c, VALUES[c]))

    # ---- R6: wrappers
    WR = [("Ipopt::IpoptApplication::OptimizeTNLP", "IpoptApplication::OptimizeNLP"),
          ("Ipopt::IpoptApplication::ReOptimizeTNLP", "IpoptApplication::ReOptimizeNLP"),
          ("Ipopt::IpoptApplication::ReOptimizeNLP", "IpoptApplication::call_optimize"),
          ("IpoptSolve", "IpoptApplication::OptimizeTNLP"),
          ("ipsolve_", "IpoptSolve"),
          ("Java_org_coinor_Ipopt_OptimizeTNLP", "IpoptApplication::OptimizeTNLP")]
    for name, callee in WR:
        f = m.fn(name)
        des = calls_named(callee)
        if name == "IpoptSolve":
            re_ = calls_named("IpoptApplication::ReOptimizeTNLP")
            d0 = des
            des = lambda n, d0=d0: d0(n) or re_(n)
        fc = f.file.endswith(".c")
        cl = Scenario(m, des, [(k, ('val', v)) for k, v in ar.items()], types=("ApplicationReturnStatus",), inline_file=f.file)
        out = outcomes_of(m, f, cl, r=r)
        for k in ar:
            bad = None
            if not out.get(k):
                raise AnalysisError("no path of %s survives scenario %s" % (name, k))
            for (kind, v, fv), st in out[k].items():
                if kind == "ret" and const(v, name) != ar[k]:
                    bad = bad or ("returns %s" % arn.get(v[1], v[1]), st)
            r.check(bad is None, "R6", "%s(%s)" % (f.f, k), f.at(), "status %s: %s" % (k, bad[0] if bad else ""), bad[1].path() if bad else None)

    # ---- R7: AMPL
    f = m.fn("Ipopt::AmplTNLP::finalize_solution")
    seen = {}
    for k, c in sr.items():
        class Q(Scenario):
            hits = 1
        cl = Q(m, lambda n: False, [], types=("SolverReturn",), inline_file=f.file)
        cl.hits = 1

        def setup(eng, st, c=c):
            st = st.copy()
            p = [p for p in f.p if "SolverReturn" in p["t"]][0]
            st.env[('v', (), p["id"])] = ('c', c)
            return st
        eng = Engine(m, cl, cap=64)
        written = set()

        def on_assign(e, st, lv, v, node, written=written):
            if lv[0] == 'f' and lv[2].rsplit("::", 1)[-1] == "solve_code_":
                return st.withprop((st.prop[0], e.norm(st, v)))
            return st
        cl.on_assign = on_assign
        rets, thr = eng.run(f, (k, None), setup=setup)
        r.analysed([f])
        lo, hi = AMPL.get(k, AMPL_DEFAULT)
        bad = None
        for st, v in rets:
            num = st.prop[1]
            if num is None:
                bad = bad or ("no result number is set", st)
                continue
            num = const(num, "solve_result_num")
            if not lo <= num <= hi:
                bad = bad or ("result number %d, documented class %d-%d" % (num, lo, hi), st)
            elif seen.setdefault(num, k) != k:
                bad = bad or ("result number %d is already used for %s" % (num, seen[num]), st)
        if not rets:
            raise AnalysisError("AmplTNLP::finalize_solution never returns for " + k)
        r.check(bad is None, "R7", "ampl(%s)" % k, f.at(), "%s: %s" % (k, bad[0] if bad else ""), bad[1].path() if bad else None)

    # ---- R8: sIPOPT
    f = m.fn("Ipopt::AppReturn2SolverReturn")
    inv = {APP[k]: k for k in APP if k not in ("UNASSIGNED",)}
    inv.update({"Invalid_Option": "INVALID_OPTION", "Insufficient_Memory": "OUT_OF_MEMORY"})
    for k, c in ar.items():
        if k not in inv:
            continue
        cl = Scenario(m, lambda n: False, [], types=("SolverReturn",), inline_file=f.file)

        def setup(eng, st, c=c):
            st = st.copy()
            st.env[('v', (), f.p[0]["id"])] = ('c', c)
            return st
        eng = Engine(m, cl, cap=64)
        rets, thr = eng.run(f, (k, None), setup=setup)
        r.analysed([f])
        got = {const(eng.norm(st, v), "AppReturn2SolverReturn") for st, v in rets}
        r.check(got == {sr[inv[k]]}, "R8", "sens(%s)" % k, f.at(), "%s becomes %s, not %s" % (k, [srn.get(g, g) for g in got], inv[k]))
    r.floor("R1", 14, "algorithm results")
    r.floor("R3", 16, "outcomes")
    r.floor("R4", 12, "inner results")
    r.floor("R5", 40, "constants")
    r.floor("R6", 60, "wrappers x statuses")
    r.floor("R7", 14, "AMPL results")
    r.assume += ["exceptions are considered at the calls that run the algorithm / the convergence test",
                 "documented meanings of the codes as tabulated in checks/c06.py (from IpReturnCodes_inc.h, TNLP::finalize_solution, AMPL solve_result_num classes)"]

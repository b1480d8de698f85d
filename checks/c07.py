"""C07: success is reported only at points that pass all tolerance tests."""
from sa.engine import Engine, Client, TRUE, FALSE
from sa.guards import Guard, engine, facts, field, is_opt, is_pure, chain, options, short
from sa.scenario import enum_values
from sa.model import walk, show, deref
from sa.db import AnalysisError

CV = "Ipopt::OptimalityErrorConvergenceCheck"


def le(F, a, b):
    return any(op in ('<', '<=') and a(x) and b(y) for op, x, y in F)


def quantity(m, v, name, norm=None, mu=None):
    """v is IpCq().name([mu_target,] NORM_MAX)"""
    if not is_pure(v, name):
        return False
    args = v[4:]
    if norm is not None and (not args or args[-1] != ('c', norm)):
        return False
    if mu and not any(is_opt(m, x, mu) for x in args):
        return False
    return True


def levels(m, F, acceptable, NMAX):
    """tests not known to have passed"""
    pre = "acceptable_" if acceptable else ""
    tol = (lambda v: is_opt(m, v, "acceptable_tol")) if acceptable else (lambda v: is_pure(v, "tol") or is_opt(m, v, "tol"))
    opt = lambda o: (lambda v: is_opt(m, v, pre + o))
    miss = []
    if not le(F, lambda v: quantity(m, v, "curr_nlp_error"), tol):
        miss.append("the scaled optimality error against " + pre + "tol")
    if not le(F, lambda v: quantity(m, v, "unscaled_curr_dual_infeasibility", NMAX), opt("dual_inf_tol")):
        miss.append("the unscaled dual infeasibility against " + pre + "dual_inf_tol")
    if not le(F, lambda v: quantity(m, v, "unscaled_curr_nlp_constraint_violation", NMAX), opt("constr_viol_tol")):
        miss.append("the unscaled constraint violation against " + pre + "constr_viol_tol")
    if not le(F, lambda v: quantity(m, v, "unscaled_curr_complementarity", NMAX, "mu_target"), opt("compl_inf_tol")):
        miss.append("the unscaled complementarity against " + pre + "compl_inf_tol")
    return miss


def run(m, r):
    r.rule("R1", "CONVERGED is returned only after the scaled error passed tol and the unscaled dual infeasibility, constraint violation and complementarity passed their own tolerances")
    r.rule("R2", "a point counts as acceptable only if it passes all acceptable_* tolerances")
    r.rule("R3", "the acceptable status needs acceptable_iter acceptable points in a row: counted up only at acceptable points, reset at others")
    r.rule("R4", "termination at an acceptable point elsewhere needs an acceptable current point or a stored acceptable point; points are stored only if acceptable")
    r.rule("R5", "the restoration phase is left as successful only at a point with reduced infeasibility accepted by the original line search, or at a feasible point of a square problem")
    r.rule("R6", "the optimality error is the maximum of dual infeasibility, constraint violation and complementarity")
    r.rule("R7", "every residual norm that enters a tolerance test is taken over all its parts")
    cs = enum_values(m, "ConvergenceCheck::ConvergenceStatus")
    inv = {v: k for k, v in cs.items()}
    NMAX = enum_values(m, "ENormType")["NORM_MAX"]

    f = m.fn(CV + "::CheckConvergence")
    acc = [g for g in m.fns.values() if g.name() == "CurrentIsAcceptable" and g.c and m.is_a(g.c, "Ipopt::ConvergenceCheck")]

    def loc(g):
        return lambda h: (h.c and m.is_a(g.c, h.c) and m.is_a(h.c, "Ipopt::ConvergenceCheck") and h.name() not in ("CurrentIsAcceptable", "TestOrigProgress")) or \
            (h.c is None and h.file == g.file)

    # ---------------- R2
    for g in acc:
        cl = Guard(m, inline=loc(g))
        eng = engine(m, cl, cap=400)
        rets, thr = eng.run(g, None)
        r.analysed([g])
        bad = None
        for st, v in rets:
            t = eng.truth(st, v)
            if t is False:
                continue
            x = st if t else eng.assume(st, v, True)
            if x is None:
                continue
            F = facts(x)
            miss = levels(m, F, True, NMAX)
            if not any(op in ('<', '<=') and is_opt(m, b, "acceptable_obj_change_tol") for op, a, b in F):
                miss.append("the objective change against acceptable_obj_change_tol")
            if miss:
                bad = bad or ("a point can count as acceptable without testing " + miss[0], x)
        if not rets:
            raise AnalysisError(g.f + " has no result")
        r.check(bad is None, "R2", g.f, g.at(), bad[0] if bad else "", bad[1].path() if bad else None)

    # ---------------- R1, R3
    counter = None

    def observe(eng, st, n, fns, obj, args):
        if n["k"] == "call" and short(n) == "CurrentIsAcceptable":
            return [(st.withprop("acc"), TRUE), (st.withprop("not"), FALSE)]
        if n["k"] == "call" and short(n) in ("IntermediateCallBack",):
            return [(st, TRUE)]
        return None
    cl = Guard(m, inline=loc(f), observe=observe)
    eng = engine(m, cl, cap=1000)
    rets, thr = eng.run(f, None)
    r.analysed([f])
    bad = {}
    seen = set()
    zero = lambda v: v == ('c', 0)
    for st, v in rets:
        v = eng.norm(st, v)
        if v[0] != 'c' or v[1] not in inv:
            raise AnalysisError("status of %s not recognised" % f.f)
        name = inv[v[1]]
        seen.add(name)
        F = facts(st)
        if name == "CONVERGED":
            miss = levels(m, F, False, NMAX)
            novar = any((op == '==' or t) and is_pure(a, "Dim") and "x" in chain(a) for op, a, b, t in
                        [(o, a, b, False) for o, a, b in F] + [("", k, None, True) for k, val in st.bind.items() if val == 0])
            if miss and not (novar and "constraint violation" not in " ".join(miss)):
                bad.setdefault("R1", ("CONVERGED without testing " + miss[0], st))
        # counter: the field compared with acceptable_iter
        cnt = [x for x in st.env if x[0] == 'f' and x[1] == ('this',) and "counter" in x[2].lower()]
        if name == "CONVERGED_TO_ACCEPTABLE_POINT":
            if st.prop != "acc":
                bad.setdefault("R3acc", ("acceptable termination although the current point was not found acceptable", st))
            if not any(op in ('<', '<=') and is_opt(m, a, "acceptable_iter") and (b[0] == 's' or (b[0] == 'e' and b[1] == '+')) for op, a, b in F):
                bad.setdefault("R3cnt", ("acceptable termination without acceptable_iter acceptable points", st))
        if name in ("CONTINUE",) and st.prop != "acc":
            if not any(st.env[k] == ('c', 0) for k in cnt):
                bad.setdefault("R3reset", ("the count of acceptable points is not reset at a point that is not acceptable", st))
    for k in ("CONVERGED", "CONVERGED_TO_ACCEPTABLE_POINT", "CONTINUE"):
        if k not in seen:
            raise AnalysisError("%s no longer returns %s" % (f.f, k))
    b = bad.get("R1")
    r.check(b is None, "R1", f.f, f.at(), b[0] if b else "", b[1].path() if b else None)
    for k in ("R3acc", "R3cnt", "R3reset"):
        b = bad.get(k)
        r.check(b is None, "R3", f.f + ":" + k[2:], f.at(), b[0] if b else "", b[1].path() if b else None)

    # ---------------- R4
    class Acc(Client):
        """prop: (current point known acceptable, acceptable point restored)"""
        max_depth = 2

        def __init__(s):
            s.stores = []
            s.throws_ = []

        def inline(s, fn, depth):
            return fn.c == "Ipopt::BacktrackingLineSearch" and fn.name() not in ("RestoreAcceptablePoint", "StoreAcceptablePoint", "CurrentIsAcceptable") and \
                any(short(n) in ("RestoreAcceptablePoint", "StoreAcceptablePoint", "CurrentIsAcceptable") for n in fn.calls())

        def on_call(s, eng, st, n, fns, obj, args):
            b = short(n)
            if b in ("CurrentIsAcceptable", "RestoreAcceptablePoint"):
                return [(st.withprop(st.prop | {b}).step("%s: %s() is true" % (eng.loc(n), b)), TRUE), (st.withprop(st.prop - {b}), FALSE)]
            if b == "StoreAcceptablePoint":
                s.stores.append((eng.loc(n), st))
            mod = eng.modsets()
            if any("Ipopt::IpoptData::curr_" in mod.get(t.u, ()) for t in fns):
                return [(x.withprop(frozenset()), v) for x, v in eng.havoc_call(st, n, fns, obj, args, eng.ptypes(n, fns))]
            return None

        def skip_loop(s, eng, node):
            return not any(x["k"] in ("return", "throw", "try") or (x["k"] == "call" and short(x) in ("CurrentIsAcceptable", "RestoreAcceptablePoint", "StoreAcceptablePoint")) for x in walk(node))
    users = [g for g in m.fns.values() if any(n["k"] == "throw" and "ACCEPTABLE_POINT_REACHED" in (n.get("t") or "") for n in g.nodes()) or
             any(short(n) == "StoreAcceptablePoint" for n in g.calls())]
    if not users:
        raise AnalysisError("nobody terminates at acceptable points any more")
    callers = m.callers()
    for g in sorted(users, key=lambda g: g.f):
        cl = Acc()
        eng = Engine(m, cl, cap=96)
        if cl.inline(g, 0) and any(m.fns[c].c == g.c for c in callers.get(g.u, ())) and not g.virt:
            continue
        rets, thr = eng.run(g, frozenset())
        r.analysed([g])
        bad = None
        nt = 0
        for t, st in thr:
            if "ACCEPTABLE_POINT_REACHED" in t:
                nt += 1
                if not st.prop:
                    bad = bad or ("terminates at an 'acceptable' point although no acceptable point is at hand", st)
        r.check(bad is None, "R4", g.f + ":throw", g.at(), bad[0] if bad else "", bad[1].path() if bad else None)
        b = next((x for x in cl.stores if "CurrentIsAcceptable" not in x[1].prop), None)
        r.check(b is None, "R4", g.f + ":store", b[0] if b else g.at(), "stores a point as acceptable without testing it", b[1].path() if b else None)
    for g in m.fns.values():
        if g.name() == "RestoreAcceptablePoint" and g.body is not None:
            # true only with a stored point made current
            class Rst(Client):
                def on_call(s, eng, st, n, fns, obj, args):
                    if short(n) == "AcceptTrialPoint":
                        return [(st.withprop(True), ('void',))]
                    return None
            eng = Engine(m, Rst())
            rets, thr = eng.run(g, False)
            b = next((st for st, v in rets if eng.truth(st, v) is not False and not st.prop), None)
            r.check(b is None, "R4", g.f, g.at(), "says an acceptable point is restored although none is", b.path() if b else None)

    # ---------------- R5
    rf = m.fn("Ipopt::RestoConvergenceCheck::CheckConvergence")

    def obs(eng, st, n, fns, obj, args):
        if n["k"] != "call":
            return None
        b = short(n)
        if b == "IntermediateCallBack":
            return [(st, TRUE)]
        if b == "TestOrigProgress":
            return [(st.withprop(("progress", False)).step("%s: progress for the original problem" % eng.loc(n)), ('c', cs["CONVERGED"])), (st.withprop(("no", False)), ('c', cs["CONTINUE"]))]
        if b == "CheckConvergence" and len(args) == 1:
            return [(st.withprop((st.prop[0], True)), ('c', cs[k])) for k in ("CONVERGED", "CONVERGED_TO_ACCEPTABLE_POINT", "CONTINUE", "DIVERGING", "CPUTIME_EXCEEDED")]
        if b == "IsSquareProblem":
            return [(st, ('e', 'pure', ('c', 'square')))]
        return None
    cl = Guard(m, inline=lambda h: (h.c == rf.c and h.name() not in ("TestOrigProgress", "CheckConvergence")) or (h.c is None and h.file == rf.file), observe=obs)
    cl.types = ("ConvergenceStatus",)
    base = cl.merge_key
    want = ("trial_primal_infeasibility",)
    cl.merge_key = lambda eng, st: (base(eng, st), frozenset(k for k, t in st.cons.items() if any(mentions_pure(x, "trial_primal_infeasibility") for x in k[2:]) or k == ('e', 'pure', ('c', 'square')) or (k[0] == 'r' and "first" in str(k))))
    eng = engine(m, cl, cap=400)
    rets, thr = eng.run(rf, ("none", False))
    r.analysed([rf])
    bad = {}
    n = 0
    infpr = lambda v: is_pure(v, "trial_primal_infeasibility")

    def reduced(b):
        """the bound on the new infeasibility: zero, or related to the infeasibility where restoration started"""
        return b in (('c', 0), ('c', 0.0)) or mentions_pure(b, "curr_primal_infeasibility") or b[0] == 'c' and str(b[1]) in ("0", "0.", "0.0")
    for st, v in rets:
        v = eng.norm(st, v)
        if v[0] != 'c' or v[1] not in inv:
            raise AnalysisError("status of %s not recognised: %s" % (rf.f, v))
        name = inv[v[1]]
        F = facts(st)
        if name in ("CONVERGED", "CONVERGED_TO_ACCEPTABLE_POINT"):
            n += 1
            square = st.cons.get(('e', 'pure', ('c', 'square'))) is True
            feas = square and any(op in ('<', '<=') and infpr(a) and (is_opt(m, b, "constr_viol_tol") or (is_pure(b, "Min") and any(is_opt(m, x, "constr_viol_tol") for x in b[3:]))) for op, a, b in F)
            red = st.prop[0] == "progress" and any(op in ('<', '<=') and infpr(a) and reduced(b) for op, a, b in F)
            if not (feas or (red and name == "CONVERGED")):
                bad.setdefault(name, ("the restoration phase ends with %s at a point that is neither accepted by the original line search with reduced infeasibility nor feasible for a square problem" % name, st))
    if n < 2:
        raise AnalysisError("%s: successful statuses not found" % rf.f)
    for k in ("CONVERGED", "CONVERGED_TO_ACCEPTABLE_POINT"):
        b = bad.get(k)
        r.check(b is None, "R5", rf.f + ":" + k, rf.at(), b[0] if b else "", b[1].path() if b else None)
    for g in sorted([g for g in m.fns.values() if g.name() == "TestOrigProgress" and g.body is not None], key=lambda g: g.f):
        class TP(Client):
            def on_call(s, eng, st, n, fns, obj, args):
                b = short(n)
                if b.startswith("IsAcceptableTo"):
                    return [(st.withprop(st.prop | {b}).step("%s: %s is true" % (eng.loc(n), b)), TRUE), (st.withprop(st.prop - {b}), FALSE)]
                return None
        have = {short(n) for c in m.classes.values() for n in []}
        need = {"IsAcceptableToCurrentIterate"} | ({"IsAcceptableToCurrentFilter"} if "Filter" in g.c else set())
        eng = Engine(m, TP())
        rets, thr = eng.run(g, frozenset())
        r.analysed([g])
        b = next((st for st, v in rets if v != ('c', cs["CONTINUE"]) and not need <= st.prop), None)
        r.check(b is None, "R5", g.f, g.at(), "reports progress for the original problem without %s" % sorted(need), b.path() if b else None)

    # ---------------- R6, R7
    err_formula(m, r, NMAX)
    r.floor("R1", 1, "convergence")
    r.floor("R2", 1, "acceptability")
    r.floor("R3", 3, "counter")
    r.floor("R4", 2, "acceptable terminations")
    r.floor("R5", 3, "restoration exits")
    r.floor("R6", 2, "error formulas")
    r.floor("R7", 6, "residual norms")
    r.assume += ["the values of the residuals themselves are not computed; the rules decide which tests guard which status",
                 "`!(a > b)` is taken as `a <= b` (NaN never reaches the tests, see C02)"]


def mentions_pure(v, name):
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and x[0] == 'e' and len(x) > 2 and x[1] == 'pure' and x[2] == ('c', name):
                return True
            st.extend(y for y in x if isinstance(y, tuple))
    return False


def maxparts(v):
    if is_pure(v, "Max"):
        out = []
        for x in v[3:]:
            out += maxparts(x)
        return out
    return [v]


def err_formula(m, r, NMAX):
    C = "Ipopt::IpoptCalculatedQuantities"
    for nm, parts in (("curr_nlp_error", ["curr_dual_infeasibility", "curr_nlp_constraint_violation", "curr_complementarity"]),
                      ("unscaled_curr_nlp_error", ["unscaled_curr_dual_infeasibility", "unscaled_curr_nlp_constraint_violation", "unscaled_curr_complementarity"]),
                      ("curr_barrier_error", ["curr_dual_infeasibility", "curr_primal_infeasibility", "curr_complementarity"])):
        f = m.fn(C + "::" + nm)
        got = []

        def observe(eng, st, n, fns, obj, args, got=got):
            b = short(n)
            if n["k"] != "call":
                return None
            if b.startswith("GetCachedResult"):
                return [(st, FALSE)]
            if b.startswith("AddCachedResult"):
                v = eng.norm(st, eng.read(st, args[0][1]) if args[0][0] == '&' else args[0])
                got.append((v, st, eng.loc(n)))
                return [(st, ('void',))]
            if n.get("f") == C + "::" + b and b in ALL:
                return [(st, ('e', 'pure', ('c', b), ('this',)) + tuple(cl.val(eng, st, a) for a in args))]
            return None
        ALL = set(parts) | {"curr_dual_infeasibility", "curr_primal_infeasibility", "curr_complementarity", "curr_nlp_constraint_violation"}
        cl = Guard(m, inline=lambda g: g.c == C and g.name() not in ALL and not g.name().startswith(("curr_", "trial_", "unscaled_")), observe=observe)
        eng = engine(m, cl)
        eng.run(f, None)
        r.analysed([f])
        if not got:
            raise AnalysisError(f.f + ": no result found")
        bad = None
        for v, st, loc in got:
            ps = maxparts(v)
            have = set()
            for p in ps:
                q = p[2] if p[0] == 'e' and p[1] == '/' else p
                if is_pure(q, *parts):
                    if q[-1] != ('c', NMAX):
                        bad = bad or ("%s is not measured in the maximum norm" % q[2][1], st, loc)
                    if "complementarity" in q[2][1]:
                        mu = q[4] if len(q) > 5 else None
                        if mu is None or (nm.endswith("nlp_error") and not is_opt(m, mu, "mu_target") and mu != ('c', 0)) or (nm == "curr_barrier_error" and not is_pure(mu, "curr_mu")):
                            bad = bad or ("complementarity is measured against a wrong barrier parameter", st, loc)
                    have.add(q[2][1])
            for p in parts:
                if p not in have:
                    bad = bad or ("%s does not enter %s" % (p, nm), st, loc)
        r.check(bad is None, "R6", f.f, bad[2] if bad else f.at(), bad[0] if bad else "", bad[1].path() if bad else None)
    # R7: which residuals are aggregated
    parts = {
        "dual_infeasibility": {"grad_lag_x", "grad_lag_s"},
        "primal_infeasibility": {"c", "d_minus_s"},
        "complementarity": {"compl_x_L", "compl_x_U", "compl_s_L", "compl_s_U"},
        "primal_dual_system_error": {"dual_infeasibility", "primal_infeasibility", "complementarity"},
    }
    for f in sorted([g for g in m.fns.values() if g.c == C], key=lambda g: g.f):
        nm = f.name()
        base = nm
        pre = ""
        for p in ("unscaled_curr_", "unscaled_trial_", "curr_", "trial_"):
            if nm.startswith(p):
                pre, base = p, nm[len(p):]
                break
        if base not in parts or not pre:
            continue
        called = set()
        if pre.startswith("unscaled_trial_"):
            continue
        which = "curr_" if "curr" in pre else "trial_"
        for n in f.calls():
            b = short(n)
            if n.get("f", "").startswith(C):
                if b.startswith(("curr_", "trial_", "unscaled_")):
                    called.add(b)
        # a delegating overload (more or fewer parameters of the same name) is judged through its callee
        if nm in called and len(m.by_name[f.f]) > 1 and len(called) <= 2:
            continue
        want = parts[base]
        strip = {}
        for b in called:
            x = b
            for p in ("unscaled_curr_", "unscaled_trial_", "curr_", "trial_"):
                if x.startswith(p):
                    strip.setdefault(x[len(p):], set()).add(p)
                    break
        have = set(strip)
        if base in have and len(f.p) and not (want & have):
            continue
        miss = sorted(want - have)
        r.check(not miss, "R7", "%s(%d)" % (f.f, len(f.p)), f.at(), "%s does not take %s into account" % (nm, miss[0] if miss else ""))
        wrong = sorted(b for b in called if ("trial" if which == "curr_" else "curr") in b and b not in (nm,) and not b.endswith(("_mu",)))
        # mixing current and trial values in one residual
        wrong = [b for b in wrong if b.split("_", 1)[-1] in want or b.replace("unscaled_", "").split("_", 1)[-1] in want]
        r.check(not wrong, "R7", "%s(%d):point" % (f.f, len(f.p)), f.at(), "%s is computed from %s, a value at another point" % (nm, wrong[0] if wrong else ""))

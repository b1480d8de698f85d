"""C33: the linear systems that give the steps are the documented ones."""
from sa.quant import Quant
from sa.capture import capture
from sa.guards import short
from sa.spec import (E, fn, par, mem, sv, N, T, vp, vq, ones, zero, undef, anything, canon, matches, text, cfacts, op, upd)
from sa.db import AnalysisError
from sa.engine import St

RULES = {
    "R1": "every step is computed from the right-hand side of the primal-dual equations at the current point (with the documented corrections)",
    "R2": "the primal-dual system is reduced to the augmented system with the same data and the perturbations in their documented places",
    "R3": "the parts eliminated from the primal-dual system are recovered from the solution of the augmented system",
    "R4": "the residual used for iterative refinement is that of the perturbed primal-dual system that was solved",
    "R5": "the augmented matrix is composed of the blocks it is documented to have",
    "R6": "in the restoration phase the system is reduced to the original problem's augmented system and the solution mapped back",
    "R7": "least-square estimates of multipliers and primal variables solve the documented systems",
}
PARTS = ("x", "s", "y_c", "y_d", "z_L", "z_U", "v_L", "v_U")
KEYS = ("x_L", "x_U", "s_L", "s_U")
PX = {"x_L": "Px_L", "x_U": "Px_U", "s_L": "Pd_L", "s_U": "Pd_U"}
MULT = {"x_L": "z_L", "x_U": "z_U", "s_L": "v_L", "s_U": "v_U"}
mu = fn("curr_mu")


def ca(x):
    return canon(x.t if isinstance(x, E) else ('c', x))


def with_(base, parts):
    return op("with", base, *[op("at", i, x) for i, x in enumerate(parts)])


def affine(v, D):
    """-z.*P^T dx of an earlier step: the second-order term of complementarity"""
    prim = lambda k: fn(k[0], D)
    return [sv(-1 if k[2] == "L" else 1, vp(fn(MULT[k], D), T(fn(PX[k]), prim(k)))) for k in KEYS]


def rhs(grad="curr_grad_lag_with_damping_", compl="curr_relaxed_compl_", c=None, d=None, sx=1, extra=None):
    x = [sv(sx, fn(grad + "x")), sv(sx, fn(grad + "s")), c or fn("curr_c"), d or fn("curr_d_minus_s")]
    z = [fn(compl + k) for k in KEYS]
    if extra:
        z = [a - b for a, b in zip(z, extra)]
    return with_(undef, x + z)


def find(m, cls, name, n=None):
    fs = [f for f in m.fns.values() if f.body and f.c == "Ipopt::" + cls and f.name() == name and (n is None or len(f.p) == n)]
    if not fs:
        raise AnalysisError("%s::%s not found" % (cls, name))
    return fs[0]


def some(t, p):
    """sub-term that satisfies p"""
    if isinstance(t, tuple):
        if p(t):
            yield t
        for x in t:
            yield from some(x, p)


class Sites:
    def __init__(s, m, r, q):
        s.m, s.r, s.q = m, r, q

    def calls(s, cls, name, target, until=None, what="Solve", track=(), n=None):
        f = find(s.m, cls, name, n)
        s.r.analysed([f])
        cl, eng, rets = capture(s.m, s.q, f, lambda x: x["k"] == "call" and short(x) == what and target in x.get("f", ""), until=until, track=track)
        return f, cl, eng, rets

    def judge(s, rule, inst, loc, got, alts, path, what):
        """got must be one of the alternatives"""
        g = canon(got) if got[0] in ('e', 'c', 'r', 'p', '&', 'this', 's', 'sym', 'd', 'f') else got
        for a in alts:
            if matches(g, ca(a)):
                return s.r.check(True, rule, inst, loc, what)
        best = alts[0]
        s.r.check(False, rule, inst, loc, "%s is %s, not %s" % (what, difference(g, ca(best)), "" if len(alts) == 1 else "(or another documented form)"), path)
        return False


def difference(g, w):
    """where two terms differ"""
    if g[:2] == ('op', 'with') and w[:2] == ('op', 'with'):
        a, b = {x[2]: x[-1] for x in g[3:]}, {x[2]: x[-1] for x in w[3:]}
        for k in sorted(set(a) | set(b), key=repr):
            if k not in a or k not in b or not matches(a[k], b[k]):
                i = int(k[1]) if k[0] == 'n' else -1
                return "[part %s] %s, expected %s" % (PARTS[i] if 0 <= i < 8 else k, text(a[k])[:250] if k in a else "unset", text(b[k])[:250] if k in b else "unset")
        if g[2] != w[2]:
            return "completed by %s instead of %s" % (text(g[2])[:100], text(w[2])[:100])
    return "%s, expected %s" % (text(g)[:350], text(w)[:350])


def steps(S):
    plain = rhs()
    affn = rhs("curr_grad_lag_", "curr_compl_")
    cc, dd = fn("curr_c"), fn("curr_d_minus_s")
    tc, td = fn("trial_c"), fn("trial_d_minus_s")
    al = par("alpha_primal")
    pert = fn("CurrPenaltyPert", fn("AdditionalData"))
    cur = fn("curr")
    avrg = fn("curr_avrg_compl")
    aff = fn("delta_aff")
    AD = par("actual_delta")
    center = with_(undef, [sv(-avrg, fn("grad_kappa_times_damping_x")), sv(-avrg, fn("grad_kappa_times_damping_s")), zero, zero] + [sv(avrg, ones)] * 4)
    mehrotra = rhs(extra=affine(None, aff))
    corr = with_(undef, [zero] * 4 + affine(None, aff))
    pd = []
    for k in KEYS:
        sl, z, D = fn("curr_slack_" + k), fn(MULT[k], cur), AD
        sg = -1 if k[2] == "L" else 1
        pd.append(sv(mu, ones) - vp(sl, z) - vp(sl, fn(MULT[k], D)) + sv(sg, vp(z, T(fn(PX[k]), fn(k[0], D)))) +
                  sv(sg, vp(fn(MULT[k], D), T(fn(PX[k]), fn(k[0], D)))))
    pdc = with_(undef, [zero] * 4 + pd)
    soc = [rhs(c=sv(al, cc) + tc, d=sv(al, dd) + td), rhs(c=sv(al, cc) + tc, d=sv(al, dd) + td, sx=al), AD]
    cg = rhs(c=cc - sv(pert, fn("y_c", cur)), d=dd - sv(pert, fn("y_d", cur)))
    cgsoc = rhs(c=sv(al, cc) + tc - sv(pert, fn("y_c", fn("delta"))), d=sv(al, dd) + td - sv(pert, fn("y_d", fn("delta"))))
    # (class, function, until, [(name, alpha, beta, right-hand side, start)])
    return [
        ("PDSearchDirCalculator", "ComputeSearchDirection", None, [("step", -1, 0, plain, None), ("predictor-corrector step", -1, 0, mehrotra, None)]),
        ("ProbingMuOracle", "CalculateMu", 1, [("affine step", -1, 0, affn, None)]),
        ("QualityFunctionMuOracle", "CalculateMu", 2, [("affine step", -1, 0, affn, None), ("centering step", 1, 0, center, None)]),
        ("FilterLSAcceptor", "TrySecondOrderCorrection", 1, [("second-order correction", -1, 0, x, None) for x in soc]),
        ("PenaltyLSAcceptor", "TrySecondOrderCorrection", 1, [("second-order correction", -1, 0, x, None) for x in soc]),
        ("CGPenaltyLSAcceptor", "TrySecondOrderCorrection", 1, [("second-order correction", -1, 0, cgsoc, None)]),
        ("FilterLSAcceptor", "TryCorrector", 2, [("affine step", -1, 0, affn, None), ("affine corrector", 1, 1, corr, AD), ("primal-dual corrector", 1, 1, pdc, AD)]),
        ("CGSearchDirCalculator", "ComputeSearchDirection", 2, [("step", -1, 0, plain, None), ("step with penalty perturbation", -1, 0, cg, None)]),
    ]


def stepsystems(S):
    for cls, name, until, alts in steps(S):
        f, cl, eng, rets = S.calls(cls, name, "PDSystemSolver", until=(lambda n, k=until: k if short(n) == "Solve" else 0) if until else None)
        if not cl.calls:
            raise AnalysisError("%s::%s solves no system" % (cls, name))
        used = set()
        for c in cl.calls:
            if len(c.args) < 4:
                raise AnalysisError("%s: unexpected arguments" % c.loc)
            a = [canon(x) for x in c.args]
            inst = "%s::%s" % (cls, name)
            hit = None
            for i, (nm, al, be, rh, st) in enumerate(alts):
                if a[0] == ca(al) and a[1] == ca(be) and matches(a[2], ca(rh)) and (st is None or matches(a[3], ca(st))):
                    hit = i
            if hit is None:
                # nearest: same scaling
                near = [x for x in alts if a[0] == ca(x[1]) and a[1] == ca(x[2])]
                if not near:
                    t = "the scaling of step and start is (%s, %s), documented is (%g, %g)" % (text(a[0])[:60], text(a[1])[:60], alts[0][1], alts[0][2])
                else:
                    near.sort(key=lambda x: -agree(a[2], ca(x[3])))
                    nm, al, be, rh, st = near[0]
                    t = "right-hand side of the %s: %s" % (nm, difference(a[2], ca(rh))) if not matches(a[2], ca(rh)) else \
                        "start of the %s is %s" % (nm, text(a[3])[:200])
                S.r.check(False, "R1", inst, c.loc, t, St(trace=c.trace).path())
            else:
                used.add(hit)
                S.r.check(True, "R1", "%s:%s" % (inst, alts[hit][0]), c.loc, alts[hit][0])
        names = {}
        for i, x in enumerate(alts):
            names.setdefault(x[0], []).append(i)
        for nm, ix in names.items():
            S.r.check(any(i in used for i in ix), "R1", "%s::%s has %s" % (cls, name, nm), "%s:%d" % (f.file, f.l), "the %s is not computed any more from its documented right-hand side" % nm)
    S.r.floor("R1", 16, "systems solved for steps")


def agree(g, w):
    if g[:2] != ('op', 'with') or w[:2] != ('op', 'with'):
        return -1
    b = {x[2]: x[-1] for x in w[3:]}
    return sum(1 for x in g[3:] if x[2] in b and matches(x[-1], b[x[2]]))


# ------------------------------------------------------------------ augmented system
HANDLER = ("CurrentPerturbation", "ConsiderNewSystem", "PerturbForSingularity", "PerturbForWrongInertia")
AUG = ("W", "W_factor", "D_x", "delta_x", "D_s", "delta_s", "J_c", "D_c", "delta_c", "J_d", "D_d", "delta_d", "rhs_x", "rhs_s", "rhs_c", "rhs_d",
       "sol_x", "sol_s", "sol_c", "sol_d", "check_NegEVals", "numberOfNegEVals")


def augargs(c):
    if len(c.args) != len(AUG):
        raise AnalysisError("%s: unexpected arguments" % c.loc)
    return dict(zip(AUG, c.args))


def pert(t, k):
    """perturbation number k from the handler"""
    g = canon(t)
    if g[0] in ("s", "j") or g == ("op", "undef"):
        return None                       # value after several rounds
    if g[0] == 'out' and g[1][1] in HANDLER:
        return None if g[2] == ('n', float(k)) else "perturbation %d instead of %d" % (int(g[2][1]), k)
    return "not a perturbation of the handler but %s" % (text(g)[:120]+str(g)[:100])


def solveonce(S):
    f, cl, eng, rets = S.calls("PDFullSpaceSolver", "SolveOnce", "AugSystemSolver", until=lambda n: 2 if short(n) == "Solve" else 0, track=("res",))
    R, sl = par("rhs"), {k: par("slack_" + k) for k in KEYS}
    P, Z = {k: par(PX[k]) for k in KEYS}, {k: par(MULT[k]) for k in KEYS}
    red = lambda p, a, b: fn(p, R) + N(P[a], vq(fn(MULT[a], R), sl[a])) - N(P[b], vq(fn(MULT[b], R), sl[b]))
    want = {"W": par("W"), "W_factor": 1, "D_x": par("sigma_x"), "D_s": par("sigma_s"), "J_c": par("J_c"), "D_c": 0, "J_d": par("J_d"), "D_d": 0,
            "rhs_x": red("x", "x_L", "x_U"), "rhs_s": red("s", "s_L", "s_U"), "rhs_c": fn("y_c", R), "rhs_d": fn("y_d", R)}
    k = {"delta_x": 0, "delta_s": 1, "delta_c": 2, "delta_d": 3}
    seen = set()
    neg = ca(fn("Dim", fn("y_c", R)) + fn("Dim", fn("y_d", R)))
    if not cl.calls:
        raise AnalysisError("SolveOnce solves no augmented system")
    for c in cl.calls:
        a = augargs(c)
        tr = St(trace=c.trace).path()
        for n, w in want.items():
            S.judge("R2", "SolveOnce:%s@%s" % (n, c.loc), c.loc, a[n], [w], tr, "%s of the augmented system" % n)
        for n, i in k.items():
            e = pert(a[n], i)
            S.r.check(not e, "R2", "SolveOnce:%s@%s" % (n, c.loc), c.loc, "%s of the augmented system is %s" % (n, e), tr)
        ck = canon(a["check_NegEVals"])
        if ck != ('n', 0.0):
            S.r.check(canon(a["numberOfNegEVals"]) == neg, "R2", "SolveOnce:inertia@%s" % c.loc, c.loc,
                      "number of negative eigenvalues asked for is %s, not the number of equality constraints and inequality constraints" % text(canon(a["numberOfNegEVals"]))[:150], tr)
            seen.add("inertia")
        for i, p in enumerate(("sol_x", "sol_s", "sol_c", "sol_d")):
            g = canon(a[p])
            base = g
            while base[0] == 'out' and base[1] == ('n', 'Solve'):
                ok = base[2] == ('n', float(16 + i))
                if not ok:
                    break
                base = base[-6 + i] if len(base) > 10 else ('?',)
                if base[0] != 'out':
                    break
            S.r.check(g == ('fn', PARTS[i], ('op', 'undef')) or g[0] == 'out' and g[1] == ('n', 'Solve') and g[2] == ('n', float(16 + i)) or g[0] == 's', "R2",
                      "SolveOnce:%s@%s" % (p, c.loc), c.loc, "%s of the augmented system goes to %s" % (p, text(g)[:100]), tr)
    S.r.check("inertia" in seen, "R2", "SolveOnce:inertia", "%s:%d" % (f.file, f.l), "the inertia of the factorized matrix is never checked")
    # result: res = alpha*sol + beta*res with the eliminated parts recovered
    sgn = {"x_L": -1, "x_U": 1, "s_L": -1, "s_U": 1}
    n = 0
    for t, fa, st in rets:
        if canon(t) != ('n', 1.0):
            continue
        n += 1
        v = canon(cl.term(eng, st, ('r', ('p', 'res'))))
        tr = st.path()
        old = ca(fn("initial", E(('c', 'res'))))
        terms = dict(v[1]) if v[0] == 'sum' else {}
        sol = [a for (s, a), kk in terms.items() if s == (('par', 'alpha'),) and kk == 1]
        prev = [a for (s, a), kk in terms.items() if s == (('par', 'beta'),) and kk == 1]
        ok = len(terms) == 2 and len(sol) == 1 and prev == [old] and sol[0][:2] == ('op', 'with')
        S.r.check(ok, "R3", "SolveOnce:result", "%s:%d" % (f.file, f.l), "the result is %s, not alpha times the solution plus beta times the old value" % text(v)[:200], tr)
        if not ok:
            continue
        at = {int(x[2][1]): x[-1] for x in sol[0][3:]}
        for i, p in enumerate(PARTS[:4]):
            g = at.get(i)
            S.r.check(bool(g) and (g[0] == 'out' and g[1] == ('n', 'Solve') and g[2] == ('n', 16.0 + i)), "R3", "SolveOnce:%s" % p, "%s:%d" % (f.file, f.l),
                      "%s of the solution is %s, not that of the augmented system" % (p, text(g)[:150] if g else "unset"), tr)
        for i, kk in enumerate(KEYS):
            g = at.get(4 + i)
            src = at.get(0 if kk[0] == "x" else 1)
            w = ('out', ('n', 'SinvBlrmZMTdBr'), ('n', 5.0), ca(P[kk]), ('n', float(sgn[kk])), ca(sl[kk]), ca(fn(MULT[kk], R)), ca(Z[kk]), src)
            S.r.check(bool(g) and g[:len(w)] == w, "R3", "SolveOnce:%s" % MULT[kk], "%s:%d" % (f.file, f.l),
                      "%s of the solution is %s, expected S^-1(r %s z.*P^T d%s)" % (MULT[kk], text(g)[:300] if g else "unset", "-" if sgn[kk] < 0 else "+", kk[0]), tr)
    S.r.check(n > 0, "R3", "SolveOnce:success", "%s:%d" % (f.file, f.l), "no successful path found")
    S.r.floor("R2", 20, "arguments of the augmented system")
    S.r.floor("R3", 5, "parts of the solution")


def residual(S):
    f = find(S.m, "PDFullSpaceSolver", "ComputeResiduals")
    S.r.analysed([f])
    cl, eng, rets = capture(S.m, S.q, f, lambda n: False, track=("resid",))
    res, R = par("res"), par("rhs")
    d = [E(('e', 'out', ('c', "CurrentPerturbation"), ('c', i), ('any',), ('any',), ('any',), ('any',), ('any',))) for i in range(4)]
    n = 0

    def dl(i):
        return ('dl', i)

    for t, fa, st in rets:
        v = canon(cl.term(eng, st, ('r', ('p', 'resid'))))
        fs = cfacts(fa)
        # perturbations as this path has them
        ps = {}
        for x in list(some(v, lambda y: y[:2] == ('out', ('n', 'CurrentPerturbation')))) + [y for o, a, b in fs for y in some(a, lambda z: z[:2] == ('out', ('n', 'CurrentPerturbation')))]:
            ps[int(x[2][1])] = x
        zero_ = {i for i, x in ps.items() if ('==', x, ('n', 0.0)) in fs}

        def P(i, sign, part):
            if i in zero_:
                return []
            if i not in ps:
                return [(((('missing', i),), ca(fn(part, res))), sign)]
            return [(((ps[i],), ca(fn(part, res))), sign)]

        def sm(e, extra):
            b = ca(e)
            items = dict(b[1])
            for key, kk in extra:
                items[key] = items.get(key, 0) + kk
            return ('sum', tuple(sorted(items.items(), key=repr)))
        p = lambda k: par(PX[k])
        sl = lambda k: par("slack_" + k)
        lag = lambda a, b: N(p(b), fn(MULT[b], res)) - N(p(a), fn(MULT[a], res))
        want = {
            0: sm(N(par("W"), fn("x", res)) + T(par("J_c"), fn("y_c", res)) + T(par("J_d"), fn("y_d", res)) + lag("x_L", "x_U") - fn("x", R), P(0, 1.0, "x")),
            1: sm(lag("s_L", "s_U") - fn("y_d", res) - fn("s", R), P(1, 1.0, "s")),
            2: sm(N(par("J_c"), fn("x", res)) - fn("y_c", R), P(2, -1.0, "y_c")),
            3: sm(N(par("J_d"), fn("x", res)) - fn("s", res) - fn("y_d", R), P(3, -1.0, "y_d")),
        }
        for i, k in enumerate(KEYS):
            sg = 1 if k[2] == "L" else -1
            want[4 + i] = ca(vp(fn(MULT[k], res), sl(k)) + sv(sg, vp(T(p(k), fn(k[0], res)), par(MULT[k]))) - fn(MULT[k], R))
        at = {int(x[2][1]): x[-1] for x in v[3:]} if v[:2] == ('op', 'with') else {}
        for i in range(8):
            g = at.get(i)
            n += 1
            S.r.check(g == want[i], "R4", "ComputeResiduals:%s" % PARTS[i], "%s:%d" % (f.file, f.l),
                      "residual of %s is %s, expected %s" % (PARTS[i], text(g)[:250] if g else "unset", text(want[i])[:250]), st.path())
    S.r.floor("R4", 8, "parts of the residual")


def stdaug(S):
    """blocks of the augmented matrix"""
    f = find(S.m, "StdAugSystemSolver", "CreateAugmentedSystem")
    S.r.analysed([f])
    cl, eng, rets = capture(S.m, S.q, f, lambda n: n["k"] == "call" and short(n) in ("SetComp", "SetTerm", "SetDiag", "SetFactor"))
    W = par("W")
    n = 0
    for t, fa, st in rets:
        fs = cfacts(fa)
        o = next((w for k, w in st.env.items() if k[0] == 'f' and k[1] == ('this',) and k[2].endswith("augmented_system_")), None)
        v = canon(cl.term(eng, st, o)) if o else ('?',)
        if v[:2] != ('op', 'with'):
            raise AnalysisError("composition of the augmented matrix not understood: %s" % text(v)[:200])
        at = {tuple(int(y[1]) for y in x[2:-1]): x[-1] for x in v[3:]}
        null = lambda p: ('==', ('par', p), ('n', 0.0)) in fs
        nz = lambda p: any(x == ('!=', ('par', p), ('n', 0.0)) for x in fs)

        def block(D, delta, sign, proto=None):
            if null(D):
                return [ca(sv(sign * par(delta) if sign > 0 else -par(delta), ones))]
            out = [ca(par(D) + sv(par(delta) if sign > 0 else -par(delta), ones))]
            if ('==', ('par', delta), ('n', 0.0)) in fs:
                out.append(ca(par(D)))
            return out
        diag = lambda g: g[-1] if g and g[:2] == ('upd', ('n', 'SetDiag')) else None
        where = "%s:%d" % (f.file, f.l)

        def blk(ij, D, delta, sign, g, nm):
            d = diag(g)
            ws = block(D, delta, sign)
            S.r.check(d in ws, "R5", "block %s" % nm, where, "diagonal block %s of the augmented matrix is %s, expected %s" % (nm, text(d)[:200] if d else text(g)[:200] if g else "unset", text(ws[0])), st.path())
        s00 = at.get((0, 0))
        terms = {int(x[2][1]): x[-1] for x in s00[3:]} if s00 and s00[:2] == ('op', 'with') else {}
        w = terms.get(0)
        okw = [ca(op("times", par("W_factor"), W))] if not null("W") else [ca(op("times", zero, mem("old_w_")))]
        S.r.check(w in okw, "R5", "block W", where, "the Hessian block is %s, expected %s" % (text(w)[:200] if w else "unset", text(okw[0])), st.path())
        dx = terms.get(1)
        S.r.check(bool(dx) and dx[:2] == ('op', 'times') and dx[2] == ('n', 1.0), "R5", "factor of D_x", where, "the diagonal of the Hessian block has factor %s" % (text(dx)[:100] if dx else "unset"), st.path())
        blk((0, 0), "D_x", "delta_x", 1, dx[3] if dx and dx[:2] == ('op', 'times') else None, "D_x")
        blk((1, 1), "D_s", "delta_s", 1, at.get((1, 1)), "D_s")
        blk((2, 2), "D_c", "delta_c", -1, at.get((2, 2)), "D_c")
        blk((3, 3), "D_d", "delta_d", -1, at.get((3, 3)), "D_d")
        for ij, want, nm in (((2, 0), par("J_c"), "J_c"), ((3, 0), par("J_d"), "J_d"), ((3, 1), upd("SetFactor", undef, -1), "-I")):
            S.r.check(at.get(ij) == ca(want), "R5", "block %s" % nm, where, "block %s of the augmented matrix is %s, expected %s" % (ij, text(at[ij])[:200] if ij in at else "unset", nm), st.path())
        S.r.check(set(at) == {(0, 0), (1, 1), (2, 0), (2, 2), (3, 0), (3, 1), (3, 3)}, "R5", "blocks", where, "blocks set: %s" % sorted(at), st.path())
        n += 1
    S.r.check(n > 0, "R5", "composition", "%s:%d" % (f.file, f.l), "no composition of the augmented matrix found")
    S.r.floor("R5", 8, "blocks")

class AQ(Quant):
    def opaque(s, n):
        return Quant.opaque(s, n) or n.get("f", "").startswith("Ipopt::AugRestoSystemSolver::")


def resto(S):
    f = find(S.m, "AugRestoSystemSolver", "Solve")
    S.r.analysed([f])
    cl, eng, rets = capture(S.m, AQ(S.m, False), f, lambda n: n["k"] == "call" and short(n) == "Solve" and "AugSystemSolver" in n.get("f", ""),
                            track=("sol_x", "sol_s", "sol_c", "sol_d"))
    G = lambda v, *i: fn("GetComp", v, *i)
    W, X, D, S_, C = par("W"), par("rhs_x"), par("D_x"), par("rhs_s"), par("rhs_c")
    w00 = G(W, 0, 0)
    w00d = op("dyn", anything, w00)
    hess = lambda i, k: E(('e', 'out', ('c', 'GetTerm'), ('c', k), w00d.t, ('c', i), ('any',), ('any',)))
    n = 0
    KS = ("n_c", "p_c", "n_d", "p_d")

    def null(fs, p):
        return ('==', ('par', p), ('n', 0.0)) in fs

    def nul(fs, p):
        return zero if null(fs, p) else G(par(p), 0)

    def sig(fs):
        return {v: fn("Sigma_tilde_%s_inv" % v, zero if null(fs, "D_x") else G(D, i + 1), par("delta_x"), G(X, i + 1)) for i, v in enumerate(KS)}
    for c in cl.calls:
        a = augargs(c)
        fs = cfacts(c.facts)
        sg = sig(fs)
        pdl, pdu = G(par("J_d"), 0, 3), G(par("J_d"), 0, 4)
        d0 = zero if null(fs, "D_x") else G(D, 0)
        exact = canon(a["W"])[0] == 'out'
        want = {
            "W": [hess(0, 2), w00], "W_factor": [E(('e', 'lin', ('e', 'term', ('e', 'prod', hess(0, 1).t, par("W_factor").t), ('c', 1))))] if exact else [par("W_factor")],
            "D_x": [fn("D_x_plus_wr_d", d0, hess(1, 1), fn("GetDiag", hess(1, 2)))] if exact else [d0],
            "delta_x": [par("delta_x")], "D_s": [nul(fs, "D_s")], "delta_s": [par("delta_s")], "J_c": [G(par("J_c"), 0, 0)],
            "D_c": [fn("Neg_Omega_c_plus_D_c", sg["n_c"], sg["p_c"], nul(fs, "D_c"), G(C, 0))], "delta_c": [par("delta_c")],
            "J_d": [G(par("J_d"), 0, 0)],
            "D_d": [fn("Neg_Omega_d_plus_D_d", pdl, sg["n_d"], pdu, sg["p_d"], nul(fs, "D_d"), G(par("rhs_d"), 0))], "delta_d": [par("delta_d")],
            "rhs_x": [G(X, 0)], "rhs_s": [G(S_, 0)],
            "rhs_c": [fn("Rhs_cR", G(C, 0), sg["n_c"], G(X, 1), sg["p_c"], G(X, 2))],
            "rhs_d": [fn("Rhs_dR", G(par("rhs_d"), 0), sg["n_d"], G(X, 3), pdl, sg["p_d"], G(X, 4), pdu)],
            "check_NegEVals": [par("check_NegEVals")], "numberOfNegEVals": [par("numberOfNegEVals")],
        }
        for v in "xscd":
            want["sol_" + v] = [G(fn("initial", E(('c', "sol_" + v))), 0)]
        for k, ws in want.items():
            g = canon(a[k])
            ok = any(matches(g, x) for w in ws for x in (ca(w),) if True)
            if k == "W_factor" and not ok:      # product of two numbers, in either order
                ok = g[0] == 'sum' and len(g[1]) == 1 and any(matches(y, ca(hess(0, 1))) for y in g[1][0][0][0]) and ('par', 'W_factor') in g[1][0][0][0] and g[1][0][1] == 1
            n += 1
            S.r.check(ok, "R6", "Solve:%s" % k, c.loc, "%s of the reduced system is %s, expected %s" % (k, text(g)[:250], text(ca(ws[0]))[:250]), St(trace=c.trace).path())
    S.r.floor("R6", 40, "arguments of the reduced system")
    m = 0
    for t, fa, st in rets:
        v = canon(cl.term(eng, st, ('r', ('p', 'sol_x'))))
        if v[:2] != ('op', 'with'):
            continue
        at = {int(x[2][1]): x[-1] for x in v[3:]}
        if 1 not in at:
            continue
        m += 1
        fs = cfacts(fa)
        sg = sig(fs)
        y = {}
        for i, p in ((16, "sol_x"), (18, "sol_c"), (19, "sol_d")):
            w = canon(cl.term(eng, st, ('r', ('p', p))))
            b = {int(x[2][1]): x[-1] for x in w[3:]} if w[:2] == ('op', 'with') else {}
            y[i] = b.get(0, ('?',))
            S.r.check(y[i][0] == 'out' and y[i][1] == ('n', 'Solve') and y[i][2] == ('n', float(i)), "R6", "result %s" % p, "%s:%d" % (f.file, f.l),
                      "%s is %s, not the solution of the reduced system" % (p, text(y[i])[:150]), st.path())
        yc, yd = E(('CANON', y[18])), E(('CANON', y[19]))
        for i, (k, sgn) in enumerate((("n_c", -1), ("p_c", 1), ("n_d", -1), ("p_d", -1))):
            if k[2] == "c":
                w = vp(sg[k], G(X, i + 1)) + sv(sgn, vp(sg[k], yc))
            else:
                w = vp(sg[k], G(X, i + 1)) + sv(sgn, vp(sg[k], T(G(par("J_d"), 0, i + 1), yd)))
            isnull = ('==', ca(sg[k]), ('n', 0.0)) in fs
            g = at.get(i + 1)
            ww = ('n', 0.0) if isnull else ca(w)
            S.r.check(same(g, ww), "R6", "result %s" % k, "%s:%d" % (f.file, f.l), "%s is %s, expected %s" % (k, text(g)[:300] if g else "unset", text(ww)[:300]), st.path())
    S.r.check(m > 0, "R6", "results", "%s:%d" % (f.file, f.l), "no path computes the solution of the full system")


def same(a, b):
    """equal up to the position of opaque parts"""
    return norm(a) == norm(b)


def norm(t):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'CANON':
        return norm(t[1])
    if t[0] == 'op' and t[1] == 'vprod':
        return t[:2] + tuple(sorted((norm(x) for x in t[2:]), key=repr))
    if t[0] == 'sum':
        return ('sum', tuple(sorted((norm(x) for x in t[1]), key=repr)))
    return tuple(norm(x) if isinstance(x, tuple) else x for x in t)


def leastsquares(S):
    gf = fn("curr_grad_f")
    cur = fn("curr")
    bnd = lambda a, b, y: N(fn(PX[a]), fn(MULT[a], y)) - N(fn(PX[b]), fn(MULT[b], y))
    ident = lambda a, b: sv(-1, N(fn(PX[a]), ones)) - N(fn(PX[b]), ones)
    J = {"J_c": fn("curr_jac_c"), "J_d": fn("curr_jac_d"), "W": fn("uninitialized_h"), "W_factor": 0, "D_c": 0, "D_d": 0, "delta_c": 0, "delta_d": 0}
    sites = [
        ("LeastSquareMultipliers", "CalculateMultipliers", dict(J, D_x=0, delta_x=1, D_s=0, delta_s=1, rhs_x=bnd("x_L", "x_U", cur) - gf, rhs_s=bnd("s_L", "s_U", cur), rhs_c=0, rhs_d=0,
                                                              sol_c=par("y_c"), sol_d=par("y_d")), ("y_c", "y_d"),
         {"y_c": (18, 1, None), "y_d": (19, 1, None)}),
        ("DefaultIterateInitializer", "CalculateLeastSquarePrimals", dict(J, D_x=0, delta_x=1, D_s=0, delta_s=1, rhs_x=0, rhs_s=0, rhs_c=fn("curr_c") - N(fn("curr_jac_c"), fn("x", fn("curr"))), rhs_d=fn("curr_d") - N(fn("curr_jac_d"), fn("x", fn("curr"))),
                                                                        sol_x=par("x_ls"), sol_s=par("s_ls")), ("x_ls", "s_ls"),
         {"x_ls": (16, -1, None), "s_ls": (17, -1, None)}),
        ("DefaultIterateInitializer", "CalculateLeastSquareDuals", dict(J, D_x=ident("x_L", "x_U"), delta_x=0, D_s=ident("s_L", "s_U"), delta_s=0, rhs_x=fn("trial_grad_f"), rhs_s=0, rhs_c=0, rhs_d=0,
                                                                      sol_c=par("yc_new"), sol_d=par("yd_new")), ("yc_new", "yd_new", "zL_new", "zU_new", "vL_new", "vU_new"),
         {"yc_new": (18, -1, None), "yd_new": (19, -1, None), "zL_new": (16, -1, "Px_L"), "zU_new": (16, 1, "Px_U"), "vL_new": (17, -1, "Pd_L"), "vU_new": (17, 1, "Pd_U")}),
    ]
    for cls, name, want, track, res in sites:
        f, cl, eng, rets = S.calls(cls, name, "AugSystemSolver", track=track)
        if not cl.calls:
            raise AnalysisError("%s::%s solves no system" % (cls, name))
        for c in cl.calls:
            a = augargs(c)
            for k, w in want.items():
                g = canon(a[k])
                if k.startswith("sol_"):
                    w = fn("initial", E(('c', w.t[1][1])))
                S.r.check(matches(g, ca(w)), "R7", "%s:%s" % (name, k), c.loc, "%s of the system is %s, expected %s" % (k, text(g)[:200], text(ca(w))[:200]), St(trace=c.trace).path())
        k = 0
        for t, fa, st in rets:
            if canon(t) != ('n', 1.0):
                continue
            fs = cfacts(fa)
            k += 1
            for p, (i, sg, M) in res.items():
                g = canon(cl.term(eng, st, ('r', ('p', p))))
                core, cf = g, 1
                if g[0] == 'sum' and len(g[1]) == 1 and not g[1][0][0][0]:
                    core, cf = g[1][0][0][1], g[1][0][1]
                if M and core[:3] == ('op', 'mat', ('n', 'T')):
                    ok = core[3] == ca(fn(M))
                    core = core[4]
                else:
                    ok = M is None
                ok = ok and cf == sg and core[0] == 'out' and core[1] == ('n', 'Solve') and core[2] == ('n', float(i))
                S.r.check(ok, "R7", "%s:result %s" % (name, p), "%s:%d" % (f.file, f.l), "%s is %s, expected %s times %s part %d of the solution" %
                          (p, text(g)[:200], "minus" if sg < 0 else "plus", (M + "^T ") if M else "", i - 16), st.path())
        S.r.check(k > 0, "R7", "%s:success" % name, "%s:%d" % (f.file, f.l), "no successful path")
    S.r.floor("R7", 30, "arguments and results of the estimates")


def run(m, r):
    for k, t in RULES.items():
        r.rule(k, t)
    S = Sites(m, r, Quant(m, False))
    stepsystems(S)
    solveonce(S)
    residual(S)
    stdaug(S)
    resto(S)
    leastsquares(S)

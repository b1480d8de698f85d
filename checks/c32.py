"""C32: derived quantities have their documented meaning."""
from sa.quant import Quant
from sa.spec import (E, fn, par, mem, sv, N, T, vp, vq, op, upd, rec, seq, out, ones, zero, undef, anything, smax, smin,
                     canon, matches, text, cfacts, without, expand)
from sa.engine import St
from sa.db import AnalysisError
from sa.model import walk

CQ, CG, NLP, AR = "Ipopt::IpoptCalculatedQuantities", "Ipopt::CGPenaltyCq", "Ipopt::OrigIpoptNLP", "Ipopt::AugRestoSystemSolver"
PX = {"x_L": "Px_L", "x_U": "Px_U", "s_L": "Pd_L", "s_U": "Pd_U"}
BND = {"x_L": "x_L", "x_U": "x_U", "s_L": "d_L", "s_U": "d_U"}
MULT = {"x_L": "z_L", "x_U": "z_U", "s_L": "v_L", "s_U": "v_U"}
KEYS = ("x_L", "x_U", "s_L", "s_U")
mu = fn("curr_mu")
NT = par("NormType")
FULL = 2            # NORM_MAX


def it(P, n):
    return fn(n, fn(P))


def eq(a, b=0):
    return ('==', canon_e(a), canon_e(b))


def ne(a, b=0):
    return ('!=', canon_e(a), canon_e(b))


def le(a, b):
    return ('<=', canon_e(a), canon_e(b))


def lt(a, b):
    return ('<', canon_e(a), canon_e(b))


def canon_e(x):
    return canon(x.t if isinstance(x, E) else ('c', x))


def holds(cond, facts):
    if cond is None or cond is True:
        return bool(cond)
    if cond[0] == 'or':
        return any(holds(c, facts) for c in cond[1:])
    if cond[0] == 'and':
        return all(holds(c, facts) for c in cond[1:])
    o, a, b = cond
    if cond in facts:
        return True
    if o == '==' or o == '!=':
        if (o, b, a) in facts:
            return True
    if b == ('n', 0.0):
        if o == '==' and isdim(a):
            return any(f == ('<=', a, b) or f == ('<', a, ('n', 1.0)) for f in facts)
        if o == '!=' and isdim(a):
            return ('<', b, a) in facts or ('<=', ('n', 1.0), a) in facts
    return False


def isdim(a):
    """known to be nonnegative"""
    return a[0] == 'fn' and a[1] in ("Dim", "NCols", "NRows") or a == ('sym', 'kappa_d_') or \
        a[0] == 'sum' and all(k > 0 and all(isdim(x) for x in s + ((x,) if x != ('n', 1.0) else ())) for (s, x), k in a[1])


def OR(*c):
    return ('or',) + c


def AND(*c):
    return ('and',) + c


class Subset:
    """an extremum over several items, each of which may be left out if its vector is empty"""

    def __init__(s, name, base, items):
        s.name, s.base, s.items = name, [canon_e(b) for b in base], [(canon_e(v), c) for v, c in items]

    def match(s, v, facts, z=()):
        parts = list(v[2:]) if v[:2] == ('fn', s.name) and len(v) > 3 else [v]
        for b in s.base:
            if b in parts:
                parts.remove(b)
            elif s.base:
                return "%s is missing" % text(b)
        for x, c in s.items:
            if x in parts:
                parts.remove(x)
            elif not holds(c, facts):
                return "%s is missing" % text(x)
        return "unexpected %s" % text(parts[0]) if parts else None


def damp(k):
    return out("ComputeDampingIndicators", KEYS.index(k), anything, anything, anything, anything)


kd = mem("kappa_d_")


def spec():
    """(class, function) -> [(value, condition)]"""
    S = {}

    def d(name, *alts, cls=CQ):
        S[(cls, name)] = [a if isinstance(a, tuple) else (a, None) for a in alts]
    dep = fn("objective_depends_on_mu")
    for P in ("curr", "trial"):
        q = lambda n, *a: fn(P + "_" + n, *a)
        x, s = it(P, "x"), it(P, "s")
        yc, yd = it(P, "y_c"), it(P, "y_d")
        z = {k: it(P, MULT[k]) for k in KEYS}
        sl = {k: q("slack_" + k) for k in KEYS}
        prim = {"x": x, "s": s}
        for k in KEYS:
            v = prim[k[0]]
            Pm, b = fn(PX[k]), fn(BND[k])
            base = T(Pm, v) - b if k.endswith("L") else b - T(Pm, v)
            alts = []
            for smin_, c in ((smin(1, mu) * fn("epsilon"), ne(smin(1, mu) * fn("epsilon"))), (fn("min"), eq(smin(1, mu) * fn("epsilon")))):
                pos = upd("ElementWiseMax", base, zero)
                low = -upd("ElementWiseMin", upd("ElementWiseSgn", base - sv(smin_, ones)), zero)
                new = upd("ElementWiseMax", vq(sv(mu, ones), it("curr", MULT[k])), sv(smin_, ones))
                corr = upd("ElementWiseMin", pos + upd("ElementWiseSelect", low, new - pos),
                          pos + sv(mem("slack_move_"), upd("ElementWiseMax", ones, upd("ElementWiseAbs", b))))
                alts.append((corr, AND(c, lt(fn("Min", base), smin_))))
                alts.append((base, AND(c, le(smin_, fn("Min", base)))))
            alts.append((base, eq(fn("Dim", base))))
            d(P + "_slack_" + k, *alts)
            d(P + "_compl_" + k, vp(sl[k], z[k]))
        d(P + "_f", (fn("f", x, mu), ne(dep)), (fn("f", x), eq(dep)))
        d(P + "_grad_f", (fn("grad_f", x, mu), ne(dep)), (fn("grad_f", x), eq(dep)))
        for n in ("c", "d", "jac_c", "jac_d"):
            d(P + "_" + n, fn(n, x))
        d(P + "_d_minus_s", q("d") - s)
        for n in ("c", "d"):
            d(P + "_jac_%sT_times_vec" % n, T(q("jac_" + n), par("vec")))
            d(P + "_jac_%sT_times_%s_y_%s" % (n, P, n), q("jac_%sT_times_vec" % n, it(P, "y_" + n)))
        bar = q("f") - mu * sum((fn("SumLogs", sl[k]) for k in KEYS), E(('c', 0)))
        d(P + "_barrier_obj", (bar, eq(kd)), (bar + kd * mu * sum((fn("Asum", vp(damp(k), sl[k])) for k in KEYS), E(('c', 0))), ne(kd)))
        d(P + "_grad_lag_x", q("grad_f") + q("jac_cT_times_vec", yc) + q("jac_dT_times_vec", yd) - N(fn("Px_L"), z["x_L"]) + N(fn("Px_U"), z["x_U"]))
        d(P + "_grad_lag_s", N(fn("Pd_U"), z["s_U"]) - N(fn("Pd_L"), z["s_L"]) - yd)
        norm = lambda *v: fn("CalcNormOfType", NT, *v)
        d(P + "_primal_infeasibility", norm(q("c"), q("d_minus_s")))
        d(P + "_dual_infeasibility", norm(q("grad_lag_x"), q("grad_lag_s")))
        m_ = par("mu")
        d(P + "_complementarity", (norm(*[q("compl_" + k) for k in KEYS]), eq(m_)), (norm(*[q("compl_" + k) - sv(m_, ones) for k in KEYS]), ne(m_)))
        dims = lambda *v: sum((fn("Dim", y) for y in v), E(('c', 0)))
        nb = dims(*z.values())
        d(P + "_avrg_compl", (zero, eq(nb)), (sum((fn("Dot", z[k], sl[k]) for k in KEYS), E(('c', 0))) / nb, ne(nb)))
        dl, du = fn("d_L"), fn("d_U")
        scal = lambda n, *a: fn(n, fn("NLP_scaling"), *a)
        uc = scal("unapply_vector_scaling_c", q("c"))
        dd = {"L": upd("ElementWiseMax", T(fn("Pd_L"), scal("unapply_vector_scaling_d", N(fn("Pd_L"), dl) - q("d"))), zero),
              "U": upd("ElementWiseMin", T(fn("Pd_U"), scal("unapply_vector_scaling_d", N(fn("Pd_U"), du) - q("d"))), zero)}
        alts = []
        for L in (1, 0):
            for U in (1, 0):
                c = AND(ne(fn("Dim", dl)) if L else eq(fn("Dim", dl)), ne(fn("Dim", du)) if U else eq(fn("Dim", du)))
                alts.append((norm(uc, dd["L"] if L else undef, dd["U"] if U else undef), c))
        d("unscaled_%s_nlp_constraint_violation" % P, *alts)
        viol = norm(q("c"), upd("ElementWiseMax", dl - T(fn("Pd_L"), q("d")), zero), upd("ElementWiseMin", du - T(fn("Pd_U"), q("d")), zero))
        if P == "curr":
            d("curr_nlp_constraint_violation", viol)
        # system error: averages of the three parts
        dual = q("dual_infeasibility", 0) / dims(x, s)
        prm = q("primal_infeasibility", 0) / dims(yc, yd)
        com = q("complementarity", m_, 0) / nb
        alts = []
        for a in (0, 1):
            for b in (0, 1):
                e = dual + (prm if a else 0) + (com if b else 0)
                alts.append((e, AND(ne(dims(yc, yd)) if a else eq(dims(yc, yd)), ne(nb) if b else eq(nb))))
        d(P + "_primal_dual_system_error", *alts)
    q = lambda n, *a: fn("curr_" + n, *a)
    x, s, yc, yd = (it("curr", n) for n in ("x", "s", "y_c", "y_d"))
    z = {k: it("curr", MULT[k]) for k in KEYS}
    sl = {k: q("slack_" + k) for k in KEYS}
    d("curr_exact_hessian", (fn("h", x, 1, yc, yd, mu), ne(dep)), (fn("h", x, 1, yc, yd), eq(dep)))
    for n in ("c", "d"):
        d("curr_jac_%s_times_vec" % n, N(q("jac_" + n), par("vec")))
    gb = {"x": q("grad_f"), "s": E(('c', 0))}
    for v in ("x", "s"):
        L, U = v + "_L", v + "_U"
        PL, PU = fn(PX[L]), fn(PX[U])
        g = gb[v] - sv(mu, N(PL, vq(ones, sl[L]))) + sv(mu, N(PU, vq(ones, sl[U])))
        dm = sv(kd, N(PL, damp(L))) - sv(kd, N(PU, damp(U)))
        d("curr_grad_barrier_obj_" + v, (g, eq(kd)), (g + sv(mu, dm), ne(kd)))
        d("grad_kappa_times_damping_" + v, (zero, eq(kd)), (dm, ne(kd)))
        d("curr_grad_lag_with_damping_" + v, (q("grad_lag_" + v), eq(kd)), (q("grad_lag_" + v) + sv(mu, dm), ne(kd)))
        d("curr_sigma_" + v, N(PL, vq(z[L], sl[L])) + N(PU, vq(z[U], sl[U])))
    for k in KEYS:
        d("curr_relaxed_compl_" + k, q("compl_" + k) - sv(mu, ones))
    d("curr_gradBarrTDelta", fn("Dot", q("grad_barrier_obj_x"), fn("x", fn("delta"))) + fn("Dot", q("grad_barrier_obj_s"), fn("s", fn("delta"))))
    # scaled errors
    ally = [yc, yd] + [z[k] for k in KEYS]
    sm = mem("s_max_")
    As = lambda v: sum((fn("Asum", y) for y in v), E(('c', 0)))
    Ds = lambda v: sum((fn("Dim", y) for y in v), E(('c', 0)))
    zs = [z[k] for k in KEYS]
    s_d, s_c = smax(sm, As(ally) / Ds(ally)) / sm, smax(sm, As(zs) / Ds(zs)) / sm
    for name, target, prim in (("curr_nlp_error", mem("mu_target_"), q("nlp_constraint_violation", FULL)), ("curr_barrier_error", mu, q("primal_infeasibility", FULL))):
        alts = []
        for a in (0, 1):
            for b in (0, 1):
                alts.append((smax(prim, q("dual_infeasibility", FULL) / (s_d if a else E(('c', 1))), q("complementarity", target, FULL) / (s_c if b else E(('c', 1)))),
                             AND(ne(Ds(ally)) if a else eq(Ds(ally)), ne(Ds(zs)) if b else eq(Ds(zs)))))
        d(name, *alts)
    sc = lambda n, *a: fn(n, fn("NLP_scaling"), *a)
    norm = lambda *v: fn("CalcNormOfType", NT, *v)
    gs = q("grad_lag_s")
    gx = sc("unapply_grad_obj_scaling", q("grad_lag_x"))
    one = sc("unapply_obj_scaling", 1)
    d("unscaled_curr_dual_infeasibility", (norm(gx, sv(one, sc("apply_vector_scaling_d_NonConst", gs))), None),
      (norm(gx, sc("apply_vector_scaling_d", gs)), eq(one, 1)))
    d("unscaled_curr_complementarity", sc("unapply_obj_scaling", q("complementarity", par("mu"), NT)), fn("abs", sc("unapply_obj_scaling", q("complementarity", par("mu"), NT))))
    d("unscaled_curr_nlp_error", smax(fn("unscaled_curr_dual_infeasibility", FULL), fn("unscaled_curr_nlp_constraint_violation", FULL),
                                      fn("abs", sc("unapply_obj_scaling", q("complementarity", mem("mu_target_"), FULL)))))
    # step to the boundary
    fb = lambda v, dl: fn("FracToBound", v, dl, par("tau"))
    dx, ds = par("delta_x"), par("delta_s")
    steps = {"x_L": T(fn("Px_L"), dx), "x_U": -T(fn("Px_U"), dx), "s_L": T(fn("Pd_L"), ds), "s_U": -T(fn("Pd_U"), ds)}
    S[(CQ, "primal_frac_to_the_bound")] = Subset("Min", [], [(fb(sl[k], steps[k]), eq(fn("Dim", sl[k]))) for k in KEYS] + [(E(('c', 1)), True)])
    d("dual_frac_to_the_bound", smin(*[fb(z[k], par("delta_" + MULT[k])) for k in KEYS]))
    d("uncached_dual_frac_to_the_bound", smin(*[fb(z[k], par("delta_" + MULT[k])) for k in KEYS]))
    d("uncached_slack_frac_to_the_bound", smin(*[fb(sl[k], par("delta_" + k)) for k in KEYS]))
    dl_ = fn("delta")
    d("curr_primal_frac_to_the_bound", fn("primal_frac_to_the_bound", par("tau"), fn("x", dl_), fn("s", dl_)))
    d("curr_dual_frac_to_the_bound", fn("dual_frac_to_the_bound", par("tau"), *[fn(MULT[k], dl_) for k in KEYS]))
    for P in ("curr", "trial"):
        d("unscaled_%s_f" % P, sc("unapply_obj_scaling", fn(P + "_f")))
        d("unscaled_%s_c" % P, sc("unapply_vector_scaling_c", fn(P + "_c")))
        d(P + "_constraint_violation", fn(P + "_primal_infeasibility", mem("constr_viol_normtype_")))
    d("unscaled_curr_d", sc("unapply_vector_scaling_d", q("d")))
    d("AdjustedTrialSlacks", sum((mem("num_adjusted_slack_%s_" % k) for k in KEYS), E(('c', 0))))
    # centrality
    cs = [q("compl_" + k) for k in KEYS]
    S[(CQ, "curr_centrality_measure")] = Centrality(cs)
    # violation of the bounds the user gave, and of the scaled ones
    for side in ("L", "U"):
        Px = fn("Px_" + side)
        orig = fn("orig_x_" + side)
        none = OR(eq(orig), eq(fn("NCols", Px)), eq(E(('e', 'dyn', 'Ipopt::OrigIpoptNLP *', ('r', ('f', ('this',), 'ip_nlp_'))))))
        sg = (lambda b, v: b - v) if side == "L" else (lambda b, v: v - b)
        viol = lambda b: upd("ElementWiseMax", sg(b, T(Px, par("x"))), zero)
        d("unscaled_orig_x_%s_violation" % side, (zero, none), (viol(orig), ne(orig)))
        d("orig_x_%s_violation" % side, (zero, none), (viol(sc("apply_vector_scaling_x_LU", Px, orig, anything)), ne(orig)))
    d("CalcNormOfType", (fn("Asum", par("vec1")) + fn("Asum", par("vec2")), eq(NT, 0)),
      (fn("sqrt", fn("pow", fn("Nrm2", par("vec1")), 2) + fn("pow", fn("Nrm2", par("vec2")), 2)), eq(NT, 1)),
      (smax(fn("Amax", par("vec1")), fn("Amax", par("vec2"))), eq(NT, 2)),
      (zero, AND(ne(NT, 0), ne(NT, 1), ne(NT, 2))))
    # the scaled problem: the user's functions at the unscaled point, scaled
    px = par("x")
    ux = sc("unapply_vector_scaling_x", px)
    ux = fn("get_unscaled_x", px)
    nlp = ('r', ('f', ('this',), 'nlp_'))
    o = lambda name: lambda cls, *a: None
    n = ORIG
    S[(n, "get_unscaled_x", 1)] = [(sc("unapply_vector_scaling_x", px), None)]
    S[(n, "f", 1)] = [(sc("apply_obj_scaling", out("Eval_f", 1, E(nlp), ux, anything)), None)]
    S[(n, "grad_f", 1)] = [(sc("apply_grad_obj_scaling", out("Eval_grad_f", 1, E(nlp), ux, anything)), None)]
    for v in ("c", "d"):
        none = OR(eq(fn("Dim", mem(v + "_space_"))), eq(fn("Dim", undef)))
        S[(n, v, 1)] = [(sc("apply_vector_scaling_" + v, out("Eval_" + v, 1, E(nlp), ux, anything)), None), (undef, none), (sc("apply_vector_scaling_" + v, undef), none)]
        S[(n, "jac_" + v, 1)] = [(sc("apply_jac_%s_scaling" % v, out("Eval_jac_" + v, 1, E(nlp), ux, anything)), None), (sc("apply_jac_%s_scaling" % v, undef), none)]
    S[(n, "h", 4)] = [(sc("apply_hessian_scaling", out("Eval_h", 4, E(nlp), ux, sc("apply_obj_scaling", par("obj_factor")),
                                                       sc("apply_vector_scaling_c", par("yc")), sc("apply_vector_scaling_d", par("yd")), anything)), None)]
    # the restoration problem
    n = RESTO
    comp = lambda v, i: fn("GetComp", v, i)
    rho, dr = mem("rho_"), mem("dr_x_")
    eta = mem("eta_factor_") * fn("pow", par("mu"), mem("eta_mu_exponent_"))
    x0 = comp(px, 0)
    res = vp(x0 - mem("x_ref_"), dr)
    two = [rho * (fn("Sum", px) - fn("Sum", x0)) + eta * fn("Nrm2", res) * fn("Nrm2", res) / 2,
           rho * (fn("Sum", px) - fn("Sum", x0)) + eta / 2 * fn("Nrm2", res) * fn("Nrm2", res),
           rho * (fn("Sum", px) - fn("Sum", x0)) + eta / 2 * fn("pow", fn("Nrm2", res), 2)]
    S[(n, "f", 2)] = [(v, None) for v in two]
    S[(n, "Eta", 1)] = [(eta, None)]
    S[(n, "grad_f", 2)] = [(with_(sv(rho, ones), (0, sv(eta, vp(x0 - mem("x_ref_"), mem("dr2_x_"))))), None)]
    S[(n, "c", 1)] = [(with_(undef, (0, fn("c", x0) + comp(px, 1) - comp(px, 2))), None)]
    S[(n, "d", 1)] = [(with_(undef, (0, fn("d", x0) + comp(px, 3) - comp(px, 4))), None)]
    neg = lambda i: upd("SetFactor", fn("GetComp", undef, 0, i), -1)
    S[(n, "jac_c", 1)] = [(with_(undef, (0, 0, fn("jac_c", x0)), (0, 2, neg(2))), None)]
    S[(n, "jac_d", 1)] = [(with_(undef, (0, 0, fn("jac_d", x0)), (0, 4, neg(4))), None)]
    S[(n, "h", 5)] = [(with_(undef, (0, 0, with_(fn("GetComp", undef, 0, 0), (0, times(1, fn("h", x0, 0, comp(par("yc"), 0), comp(par("yd"), 0)))),
                                                 (1, times(par("obj_factor") * eta, mem("DR2_x_")))))), None)]
    # elimination of the restoration variables from the linear system
    def subsets(name, k, base, *terms):
        """a sum of terms, each present exactly if its factor is given"""
        al = []
        for bits in range(2 ** len(terms)):
            e, cs_ = base, []
            for i, (cond, t) in enumerate(terms):
                on = bits >> i & 1
                cs_.append(ne(cond) if on else eq(cond))
                e = e + t if on else e
            al.append((e, AND(*cs_)))
        S[(AR, name, k)] = al
    P_ = par
    snc, spc, snd, spd = (P_("sigma_tilde_%s_inv" % v) for v in ("n_c", "p_c", "n_d", "p_d"))
    Z = E(('c', 0))
    subsets("Neg_Omega_c_plus_D_c", None, Z, (P_("D_c"), P_("D_c")), (snc, -snc), (spc, -spc))
    subsets("Neg_Omega_d_plus_D_d", None, Z, (P_("D_d"), P_("D_d")), (snd, -N(P_("Pd_L"), snd)), (spd, N(P_("neg_Pd_U"), spd)))
    for v in ("n_c", "p_c", "n_d", "p_d"):
        sg_, dx_ = P_("sigma_" + v), P_("delta_x")
        S[(AR, "Sigma_tilde_%s_inv" % v, None)] = [
            (upd("ElementWiseReciprocal", sg_ + sv(dx_, ones)), ne(sg_)), (vq(ones, sg_), AND(ne(sg_), eq(dx_))),
            (sv(1 / dx_, ones), AND(eq(sg_), ne(dx_))), (zero, eq(sg_))]
    S[(AR, "D_x_plus_wr_d", None)] = [(P_("CD_x0") + sv(P_("factor"), P_("wr_d")), ne(P_("CD_x0"))), (sv(P_("factor"), P_("wr_d")), eq(P_("CD_x0")))]
    subsets("Rhs_cR", None, P_("rhs_c"), (snc, -vp(snc, P_("rhs_n_c"))), (spc, vp(spc, P_("rhs_p_c"))))
    subsets("Rhs_dR", None, P_("rhs_d"), (snd, -N(P_("pd_L"), vp(snd, P_("rhs_n_d")))), (spd, -N(P_("neg_pd_U"), vp(spd, P_("rhs_p_d")))))
    # Chen-Goldfarb penalty quantities
    ad = fn("AdditionalData")
    cd = lambda name, *a: fn(name, ad, *a)
    pen, pert = cd("curr_penalty"), cd("CurrPenaltyPert")
    c_, ds_ = q("c"), q("d_minus_s")
    inf = q("primal_infeasibility", 1)
    gdot = lambda st: fn("Dot", q("grad_barrier_obj_x"), fn("x", st)) + fn("Dot", q("grad_barrier_obj_s"), fn("s", st))
    cdot = lambda u: fn("Dot", c_, fn("y_c", u)) + fn("Dot", ds_, fn("y_d", u))
    fast, slow, cur = cd("delta_cgfast"), cd("delta_cgpen"), fn("curr")
    for P in ("curr", "trial"):
        S[(CG, P + "_penalty_function")] = [(fn(P + "_barrier_obj") + pen * fn(P + "_primal_infeasibility", 1), None)]
    der = gdot(fast) - pen * inf
    S[(CG, "curr_fast_direct_deriv_penalty_function")] = [(der + (pen * pert / inf) * cdot(fast), ne(inf)), (der + pen * (pert / inf) * cdot(fast), ne(inf)), (der, eq(inf))]
    der = gdot(slow) - pen * inf
    both = cdot(slow) + cdot(cur)
    S[(CG, "curr_direct_deriv_penalty_function")] = [(der + (pen * pert / inf) * both, ne(inf)), (der + pen * (pert / inf) * both, ne(inf)), (der, eq(inf))]
    delta = fn("delta")
    ydot = lambda a, b: fn("Dot", fn("y_c", a), fn("y_c", b)) + fn("Dot", fn("y_d", a), fn("y_d", b))
    S[(CG, "dT_times_barH_times_d")] = [(-(fn("curr_cg_pert_fact") * ydot(cur, fast)) - gdot(fast) + cdot(cur) - cdot(fast) + pen * inf, None)]
    S[(CG, "curr_cg_pert_fact")] = [(inf / cd("curr_kkt_penalty"), None)]
    S[(CG, "curr_added_y_nrm2")] = [(fn("sqrt", sum((fn("pow", fn("Nrm2", fn(y, cur) + fn(y, delta)), 2) for y in ("y_c", "y_d")), E(('c', 0)))), None)]
    S[(CG, "curr_scaled_y_Amax")] = [(smax(fn("Amax", fn("y_c", cur)), fn("Amax", fn("y_d", cur))) / smax(1, fn("Amax", q("grad_f"))), None)]
    jt = lambda y, a: q("jac_%sT_times_vec" % y, fn("y_" + y, a))
    curv = -gdot(delta) - sum((fn("Dot", jt(y, cur) + jt(y, delta), fn("x", delta)) for y in "cd"), E(('c', 0))) + \
        fn("Dot", fn("y_d", cur), fn("s", delta)) + fn("Dot", fn("y_d", delta), fn("s", delta))
    nrm = sum((fn("pow", fn("Nrm2", fn(v, delta)), 2) for v in "xs"), E(('c', 0)))
    curv = smax(curv, 1e-8 * nrm)
    pf = par("pen_des_fact")
    al = []
    for y, c in ((cdot(fast), ne(cd("HaveCgFastDeltas"))), (both, eq(cd("HaveCgFastDeltas")))):
        for fac in (pert / inf,):
            al.append((-(gdot(delta) + pf * curv) / (fac * y - inf + pf * inf), AND(c, lt(E(('c', 0)), inf))))
    S[(CG, "compute_curr_cg_penalty")] = al + [(zero, le(inf, E(('c', 0))))]
    return S


ORIG, RESTO = NLP, "Ipopt::RestoIpoptNLP"


def with_(base, *ats):
    return op("with", base, *[E(('e', 'at') + tuple(('c', i) for i in a[:-1]) + ((a[-1].t if isinstance(a[-1], E) else a[-1]),)) for a in ats])


def times(k, m):
    return op("times", k, m)


class Centrality:
    """smallest complementarity over its average, at most one; empty vectors are left out of the minimum"""

    def __init__(s, cs):
        s.cs = cs
        s.n = sum((fn("Dim", c) for c in cs), E(('c', 0)))
        s.avg = sum((fn("Asum", c) for c in cs), E(('c', 0))) / s.n

    def match(s, v, facts, z=()):
        if v == ('n', 0.0):
            if all(holds(eq(fn("Dim", c)), facts) for c in s.cs):
                return None
            if any(o == '==' and s.ismin(a, facts) is None for o, a, b in facts):
                return None
            return "zero although there are bounds"
        if v[:2] != ('fn', 'Min') or ('n', 1.0) not in v[2:] or len(v) != 4:
            return "not limited to one"
        v = [x for x in v[2:] if x != ('n', 1.0)][0]
        if v[:2] != ('op', '/') or v[3] != without(canon_e(s.avg), z):
            return "not relative to the average complementarity"
        return s.ismin(v[2], facts)

    def ismin(s, v, facts):
        parts = list(v[2:]) if v[:2] == ('fn', 'Min') and len(v) > 3 else [v]
        parts = [x for x in parts if x not in (('fn', 'max'), ('n', float("inf")))]
        for c in s.cs:
            x = canon_e(fn("Min", c))
            if x in parts:
                parts.remove(x)
            elif not holds(eq(fn("Dim", c)), facts):
                return "%s is missing" % text(x)
        return "unexpected %s" % text(parts[0]) if parts else None


RULES = {
    "R1": "every value a quantity's function computes is the quantity's definition, in the case where that definition applies",
    "R2": "the indicators of one-sided bounds are P_L^T (P_L e - P_U e) and -P_U^T (P_L e - P_U e)",
    "R3": "the eight parts of an iterate are read and written at the position that belongs to them",
}


def functions(m):
    F = {}
    for f in m.fns.values():
        if f.body and f.c in (CQ, CG, NLP, AR, RESTO):
            F.setdefault((f.c, f.name()), []).append(f)
    return F


def zeros(fa):
    return {a for o, a, b in fa if b == ('n', 0.0) and isdim(a) and holds(('==', a, b), fa)}


def judge(alts, v, fa, defs):
    """None if the value is the one defined for its case"""
    raw, v = v, canon(v)
    z = zeros(fa)
    if not isinstance(alts, list):
        return alts.match(without(v, z), fa, z)
    forms = [(v, lambda t: canon(t))]
    if any(n in repr(raw) for n in defs):
        forms.append((canon(expand(raw, defs)), lambda t: canon(expand(t, defs))))
    case = False
    for w, cf in forms:
        hits = [(a, c) for a, c in alts if matches(w, cf(a.t)) or z and matches(without(w, z), without(cf(a.t), z))]
        if any(c is None or holds(c, fa) for _, c in hits):
            return None
        case = case or hits
    if not case:
        best = max(alts, key=lambda ac: common(v, canon(ac[0].t)))
        return "it is %s instead of %s" % (text(v), text(canon(best[0].t)))
    return "it is %s also in a case where that is not the definition (%s)" % (text(v), ", ".join("%s %s %s" % (text(a), o, text(b)) for o, a, b in sorted(fa, key=repr)) or "no condition")


def definitions(S, F):
    """unconditional definitions, by name"""
    D = {}
    for key, alts in S.items():
        if key[0] == CQ and isinstance(alts, list) and len(alts) == 1 and alts[0][1] is None:
            fs = [f for f in F.get(key[:2], []) if not trivial(f)]
            if len(fs) == 1:
                D[key[1]] = ([x["n"] for x in fs[0].p], alts[0][0].t)
    return D


def common(a, b):
    parts = lambda t: set(t[1]) if t[0] == 'sum' else set(x for x in t if isinstance(x, tuple))
    return len(parts(a) & parts(b)) if isinstance(a, tuple) and isinstance(b, tuple) else 0


def run(m, r):
    for k, t in RULES.items():
        r.rule(k, t)
    q = Quant(m)
    F = functions(m)
    n = 0
    S = spec()
    D = definitions(S, F)
    for key, alts in S.items():
        fs = F.get(key[:2], [])
        if len(key) > 2 and key[2] is not None:
            fs = [f for f in fs if len(f.p) == key[2]]
        fs = [f for f in fs if not trivial(f)]
        if key == (CQ, "CalcNormOfType"):
            fs = [f for f in fs if len(f.p) == 3]
        if not fs:
            raise AnalysisError("%s::%s not found" % key[:2])
        for f in fs:
            r.analysed([f])
            if f.u not in q.recs:
                q.recs[f.u], q.rets[f.u] = q.run(f)
            vals = [(x.val, x.facts, x.loc, St(trace=x.trace).path()) for x in q.recs[f.u] if x.kind == 'add']
            vals += [(v, fa, "%s:%d" % (f.file, f.l), st.path()) for v, fa, st in q.rets[f.u]]
            vals = [x for x in vals if x[0] and x[0][:2] != ('e', 'hit') and x[0] != ('void',)]
            if not vals:
                raise AnalysisError("no value of %s::%s found" % key[:2])
            bad = None
            for v, fa, loc, tr in vals:
                e = judge(alts, v, cfacts(fa), D)
                n += 1
                if e and not bad:
                    bad = (loc, "%s: %s" % (f.name(), e[:600]), tr)
            r.check(not bad, "R1", "%s::%s/%d" % (f.c.rsplit("::", 1)[-1], f.name(), len(f.p)),
                    bad[0] if bad else "%s:%d" % (f.file, f.l), bad[1] if bad else "%d values" % len(vals), bad[2] if bad else None)
    r.floor("R1", 70, "quantities")
    r.extra["values compared"] = n
    damping(m, r, q, F)
    parts(m, r)


PARTS = ("x", "s", "y_c", "y_d", "z_L", "z_U", "v_L", "v_U")
INDEXED = ("GetComp", "GetCompNonConst", "SetComp", "SetCompNonConst", "GetIterateFromComp", "GetNonConstIterateFromComp", "SetCompSpace")


def role(name):
    for p in ("create_new_", "Set_", "MakeNew_"):
        if name.startswith(p):
            name = name[len(p):]
    for p in ("_NonConst", "_copy", "_space", "space"):
        if name.endswith(p):
            name = name[:-len(p)]
    return name if name in PARTS else None


def parts(m, r):
    """the parts of an iterate live at fixed positions"""
    for f in m.fns.values():
        if not f.body or f.c not in ("Ipopt::IteratesVector", "Ipopt::IteratesVectorSpace"):
            continue
        mine = role(f.name())
        r.analysed([f])
        for n in f.calls():
            b = n.get("f", "").rsplit("::", 1)[-1]
            if b in INDEXED and n["a"] and n["a"][0]["k"] == "int":
                who = mine
                if len(n["a"]) > 1:
                    names = [role(x.get("n", "").rstrip("_")) for x in walk(n["a"][1]) if x["k"] in ("ref", "mem")]
                    who = mine or next((x for x in names if x), None)
                if not who:
                    continue
                i = n["a"][0]["v"]
                r.check(0 <= i < len(PARTS) and PARTS[i] == who, "R3", "%s:%s" % (f.name(), who), "%s:%d" % (f.file, n["l"]),
                        "%s accesses position %d of the iterate for %s, whose position is %d" % (f.name(), i, who, PARTS.index(who)))
            elif mine and role(b) and n.get("f", "").startswith("Ipopt::IteratesVector"):
                r.check(role(b) == mine, "R3", "%s->%s" % (f.name(), b), "%s:%d" % (f.file, n["l"]), "%s uses %s, another part of the iterate" % (f.name(), b))
    r.floor("R3", 25, "accesses to the parts of an iterate")


def trivial(f):
    return not f.body.get("s")


def damping(m, r, q, F):
    f = F.get((CQ, "ComputeDampingIndicators"), [None])[0]
    if not f:
        raise AnalysisError("ComputeDampingIndicators not found")
    r.analysed([f])
    recs, rets = q.run(f)
    for v, fa, st in rets:
        pass
    cl = q.last
    want = {}
    for k in KEYS:
        L, U = k[0] + "_L", k[0] + "_U"
        both = N(fn(PX[L]), ones) - N(fn(PX[U]), ones)
        want[k] = T(fn(PX[k]), both) if k.endswith("L") else -T(fn(PX[k]), both)
    for k in KEYS:
        bad = None
        for v, fa, st in rets:
            if not any(o == '==' and text(canon(a)).startswith("dampind") for o, a, b in fa):
                continue
            x = canon(cl[0].term(cl[1], st, cl[1].norm(st, cl[1].read(st, ('f', ('this',), CQ + "::dampind_%s_" % k)))))
            if x != canon_e(want[k]):
                bad = "indicator of one-sided bounds %s is %s instead of %s" % (k, text(x), text(canon_e(want[k])))
        r.check(not bad, "R2", k, "%s:%d" % (f.file, f.l), bad or "dampind_%s_" % k)
    r.floor("R2", 4, "indicators")

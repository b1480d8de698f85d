"""C19: scaling is applied and undone consistently between the problem and the algorithm."""
from sa.quant import Quant, Facts
from sa.guards import engine, short
from sa.capture import capture
from sa.spec import (E, fn, par, mem, sv, N, T, vp, vq, op, upd, out, undef, anything, smin, smax, canon, matches, text, cfacts)
from sa.db import AnalysisError
from sa.engine import St
from sa.par import parallel
from checks.c32 import judge, eq, ne, le, lt, OR, AND, holds, canon_e, with_

ORIG, BASE, STD = "Ipopt::OrigIpoptNLP", "Ipopt::NLPScalingObject", "Ipopt::StandardScalingBase"


class Fixed(Facts):
    """one scenario: conditions whose text contains a given word have a given value"""

    def __init__(s, m, given, **k):
        Facts.__init__(s, m, **k)
        s.given = given

    def on_call(s, eng, st, n, fns, obj, args):
        r = Facts.on_call(s, eng, st, n, fns, obj, args)
        if short(n) == "MakeNew" and n.get("f", "").startswith("Ipopt::MatrixSpace"):
            r = [(s.put(t, x, fn("matrix", s.of(eng, t, obj)).t), x) if dict(t.prop).get(x) == ('e', 'undef') else (t, x) for t, x in r]
        return r

    def of(s, eng, st, obj):
        return E(('c', text(canon(s.term(eng, st, obj)))))

    def on_assume(s, eng, st, v, truth):
        t = text(canon(s.term(eng, st, v)))
        for w, val in s.given.items():
            if w in t:
                b = val
                if v[0] == 'e' and v[1] in ('==', '!='):
                    other = text(canon(s.term(eng, st, v[3])))
                    if other in ("0", "False") and w.startswith("have"):
                        b = val if v[1] == '!=' else not val
                    elif v[1] == '==':
                        b = not val
                if b != truth:
                    return None
        f = getattr(Facts, "on_assume", None)
        return f(s, eng, st, v, truth) if f else st


def start(m, q, f, given, init):
    inl = q.inline(f)
    cl = Fixed(m, given, inline=lambda g: g.name() != "relax_bounds" and inl(g), opaque=q.opaque)
    eng = engine(m, cl, 400)
    eng.termdepth = 60
    eng.compound = True

    def setup(eng, st):
        for p in f.p:
            if p["n"].startswith("init_"):
                st.env[('v', (), p["id"])] = ('c', p["n"] in init)
        st.env[('f', ('this',), ORIG + "::warm_start_same_structure_")] = ('c', True)
        return st
    rets, thrown = eng.run(f, frozenset(), setup)
    return cl, eng, [(st, v) for st, v in rets if v not in (('c', False), ('c', 0))]


def table():
    """(class, function) -> [(value, condition)]"""
    S = {}
    v, Mx = par("v"), {"x": "Px_LU", "d": "Pd_LU"}
    # lengths of bounds, and gradients
    for k, P in Mx.items():
        have = fn("have_%s_scaling" % k)
        for un in ("", "un"):
            name = un + "apply_vector_scaling_" + k
            sp = lambda suf: (T(par(P), fn(name + suf, N(par(P), par("lu")))), None)
            for suf in ("_LU_NonConst", "_LU"):
                S[(BASE, name + suf)] = [sp("_NonConst"), sp(""), (par("lu"), eq(have)), (fn(name + "_LU_NonConst", par(P), par("lu"), par(k + "_space")), None)]
    for un, inv in (("", "un"), ("un", "")):
        k = fn(un + "apply_obj_scaling", 1)
        for suf in ("_NonConst", ""):
            al = []
            for s2 in ("_NonConst", ""):
                g = fn(inv + "apply_vector_scaling_x" + s2, v)
                al += [(sv(k, g), None), (g, eq(k, 1))]
            S[(BASE, un + "apply_grad_obj_scaling" + suf)] = al
    # factors
    df = mem("df_")
    S[(STD, "apply_obj_scaling")] = [(df * par("f"), None)]
    S[(STD, "unapply_obj_scaling")] = [(par("f") / df, None)]
    for k in "xcd":
        if k == "x":
            have, f = [mem("dx_")], mem("dx_")
        else:
            f = fn("RowScaling", mem("scaled_jac_%s_space_" % k))
            have = [mem("scaled_jac_%s_space_" % k), f]
        no = OR(*[eq(h) for h in have])
        for suf in ("_NonConst", ""):
            S[(STD, "apply_vector_scaling_" + k + suf)] = [(vp(v, f), None), (v, no)]
            S[(STD, "unapply_vector_scaling_" + k + suf)] = [(vq(v, f), None), (v, no)]
    S[(STD, "have_x_scaling")] = [(mem("dx_"), None), (1, ne(mem("dx_"))), (0, eq(mem("dx_")))]
    for s, sp in (("jac_c", "scaled_jac_c_space_"), ("jac_d", "scaled_jac_d_space_"), ("hessian", "scaled_h_space_")):
        S[(STD, "apply_%s_scaling" % s)] = [(op("upd", E(('c', "SetUnscaledMatrix")), undef, par("matrix")), None), (par("matrix"), eq(mem(sp)))]
    return {k: [(x if isinstance(x, E) else E(('c', x)), c) for x, c in a] for k, a in S.items()}


def current():
    """static functions that deliver the current point to the user"""
    S = {}
    on, rest, scaled = par("orignlp"), par("restonlp"), par("scaled")
    sca = fn("NLP_scaling", on)
    cur, cq = fn("curr", par("ip_data")), par("ip_cq")
    comp = lambda v, i: fn("GetComp", v, i)
    X = fn("x", cur)

    def d(name, plain, resto, un, neutral=None):
        """un: how the value is unscaled; neutral: when that changes nothing"""
        al = []
        for b, c in ((plain, eq(rest)), (resto, ne(rest))):
            for u, when in un(b):
                al.append((u, AND(c, eq(scaled), when) if when else AND(c, eq(scaled))))
            al.append((b, AND(c, OR(ne(scaled), neutral) if neutral else ne(scaled))))
        S[name] = al
    k = fn("unapply_obj_scaling", sca, 1)
    have = lambda q: fn("have_%s_scaling" % q, sca)
    d("curr_x", X, comp(X, 0), lambda b: [(fn("unapply_vector_scaling_x", sca, b), None)], eq(have("x")))
    for z, P in (("z_L", "Px_L"), ("z_U", "Px_U")):
        b = fn(z, cur)
        d("curr_" + z, b, comp(b, 0), lambda b: [(sv(k, fn("apply_vector_scaling_x_LU" + s, sca, fn(P, on), b, anything)), None) for s in ("_NonConst", "")] +
          [(fn("apply_vector_scaling_x_LU", sca, fn(P, on), b, anything), eq(k, 1)), (sv(k, b), eq(have("x")))], AND(eq(have("x")), eq(k, 1)))
    for q, i in (("c", 1), ("d", 3)):
        b = fn("curr_" + q, cq)
        d("curr_" + q, b, comp(b, 0) - comp(X, i) + comp(X, i + 1), lambda b: [(fn("unapply_vector_scaling_" + q, sca, b), None)], eq(have(q)))
        y = fn("y_" + q, cur)
        d("curr_y_" + q, y, comp(y, 0), lambda b: [(sv(k, fn("apply_vector_scaling_" + q + s, sca, b)), None) for s in ("_NonConst", "")] +
          [(fn("apply_vector_scaling_" + q, sca, b), eq(k, 1)), (sv(k, b), eq(have(q)))], AND(eq(have(q)), eq(k, 1)))
    for side in "LU":
        oc = fn("OrigIpCq", rest)
        x0 = comp(X, 0)
        S["curr_x_%s_viol" % side] = [
            (fn("curr_orig_x_%s_violation" % side, cq), AND(eq(rest), ne(scaled))),
            (fn("unscaled_curr_orig_x_%s_violation" % side, cq), AND(eq(rest), eq(scaled))),
            (fn("orig_x_%s_violation" % side, oc, x0), AND(ne(rest), ne(scaled))),
            (fn("unscaled_orig_x_%s_violation" % side, oc, fn("unapply_vector_scaling_x", sca, x0)), AND(ne(rest), eq(scaled)))]
        z, sl = fn("z_" + side, cur), fn("curr_slack_x_" + side, cq)
        d("curr_compl_x_" + side, fn("curr_compl_x_" + side, cq), vp(comp(sl, 0), comp(z, 0)), lambda b: [(sv(k, b), None)], eq(k, 1))
    x0 = comp(X, 0)
    d("curr_grad_lag_x", fn("curr_grad_lag_x", cq),
      fn("grad_f", on, x0) + comp(fn("curr_jac_cT_times_curr_y_c", cq), 0) + comp(fn("curr_jac_dT_times_curr_y_d", cq), 0) -
      N(fn("Px_L", on), comp(fn("z_L", cur), 0)) + N(fn("Px_U", on), comp(fn("z_U", cur), 0)),
      lambda b: [(fn("unapply_grad_obj_scaling", sca, b), None)])
    return S


RULES = {
    "R1": "applying a scaling multiplies by its factor and undoing it divides by the same factor; gradients are scaled like the objective over the variables",
    "R2": "scaled matrices use the factors of the constraints for rows and the reciprocals of those of the variables for columns",
    "R3": "the starting point handed to the algorithm is the user's, each part in the algorithm's units, if and only if it was asked for; so are the bounds, which are relaxed outwards",
    "R4": "the final point handed to the user is the algorithm's, each part in the user's units",
    "R6": "functions of the problem are evaluated at the point, multipliers and objective weight in the user's units and their values are scaled",
    "R5": "the current point handed to the user on request is the algorithm's, in the units asked for, also during the restoration phase",
}


def values(m, q, f):
    recs, rets = q.run(f)
    # a stored value is that of an earlier run of the same function (C05)
    return [(v, fa, st) for v, fa, st in rets if v and not (v[0] == 'e' and v[1] == 'hit')]


def evaluations():
    """(class, function) -> values: functions of the problem at an unscaled point, then scaled"""
    S = {}
    sca, n = fn("NLP_scaling"), mem("nlp_")
    x = fn("get_unscaled_x", par("x"))
    S["f"] = [(fn("apply_obj_scaling", sca, out("Eval_f", 1, n, x, 0)), None)]
    S["grad_f"] = [(fn("apply_grad_obj_scaling" + s, sca, out("Eval_grad_f", 1, n, x, undef)), None) for s in ("", "_NonConst")]
    for k in "cd":
        dim = fn("Dim", mem(k + "_space_"))
        S[k] = [(fn("apply_vector_scaling_" + k + s, sca, out("Eval_" + k, 1, n, x, undef)), ne(dim)) for s in ("", "_NonConst")] + [(undef, eq(dim))]
        S["jac_" + k] = [(fn("apply_jac_%s_scaling" % k, sca, out("Eval_jac_" + k, 1, n, x, undef)), ne(dim)), (fn("apply_jac_%s_scaling" % k, sca, undef), eq(dim))]
    a = [fn("apply_obj_scaling", sca, par("obj_factor"))] + [fn("apply_vector_scaling_" + k, sca, par("y" + k)) for k in "cd"]
    S["h"] = [(fn("apply_hessian_scaling", sca, out("Eval_h", 4, n, x, a[0], a[1], a[2], undef)), None)]
    S["get_unscaled_x"] = [(fn("unapply_vector_scaling_x" + s, sca, par("x")), None) for s in ("", "_NonConst")]
    return {(ORIG, k): al for k, al in S.items()}


def evals(m, r):
    q = Quant(m, extract=False)
    table_rule(m, r, q, "R6", evaluations(), lambda k: [f for f in m.fns.values() if (f.c, f.name()) == k and f.body and f.p and all(p["n"] not in ("", "mu") for p in f.p)])


def table_rule(m, r, q, rule, S, find):
    for key, al in S.items():
        fs = find(key)
        if not fs and "_LU" in key[1]:
            continue        # not all four variants exist
        if not fs:
            raise AnalysisError("%s not found" % (key,))
        for f in fs:
            r.analysed([f])
            bad = None
            vals = values(m, q, f)
            if not vals:
                raise AnalysisError("no value of %s" % f.f)
            for v, fa, st in vals:
                e = judge(al, v, cfacts(fa), {})
                if e and not bad:
                    bad = (e[:500], st)
            r.check(not bad, rule, "%s" % f.name(), "%s:%d" % (f.file, f.l), "%s: %s" % (f.name(), bad[0]) if bad else "%d values" % len(vals), bad[1].path() if bad else None)


def get(m, c, n):
    fs = [f for f in m.fns.values() if f.c == c and f.name() == n and f.body]
    if not fs:
        raise AnalysisError("%s::%s not found" % (c, n))
    return fs[0]


def rules12(m, r):
    q = Quant(m, extract=False)
    table_rule(m, r, q, "R1", table(), lambda k: [f for f in m.fns.values() if (f.c, f.name()) == k and f.body])


def final(m, r):
    q = Quant(m, extract=False)
    f = get(m, ORIG, "FinalizeSolution")
    r.analysed([f])
    cl, eng, rets = capture(m, q, f, lambda n: short(n) == "FinalizeSolution")
    if not cl.calls:
        raise AnalysisError("FinalizeSolution is not handed on")
    sca, sp = fn("NLP_scaling"), mem("x_space_")
    k = fn("unapply_obj_scaling", sca, 1)
    ux = fn("get_unscaled_x", par("x"))

    def clip(b, up, P, lim):
        return b - N(mem(P), T(mem(P), b)) + N(mem(P), upd(up, T(mem(P), b), mem(lim)))
    lo = clip(ux, "ElementWiseMax", "Px_L_", "orig_x_L_")
    hi = lambda b: clip(b, "ElementWiseMin", "Px_U_", "orig_x_U_")
    ncl, ncu = fn("NCols", mem("Px_L_")), fn("NCols", mem("Px_U_"))
    honor, rel = mem("honor_original_bounds_"), mem("bound_relax_factor_")
    zero = E(('c', 0))
    do = AND(ne(honor), lt(zero, rel))
    L, U = lt(zero, ncl), lt(zero, ncu)
    nL, nU = OR(le(ncl, zero), eq(ncl)), OR(le(ncu, zero), eq(ncu))
    want = {1: [(ux, OR(eq(honor), le(rel, zero), AND(nL, nU))), (lo, AND(do, nU)), (hi(ux), AND(do, nL)), (hi(lo), do)]}
    back = {4: ("c", "unapply_vector_scaling_c"), 5: ("d", "unapply_vector_scaling_d")}
    for i, (p, g) in back.items():
        want[i] = [(fn(g, sca, par(p)), None)]
    for i, p, P in ((2, "z_L", "Px_L_"), (3, "z_U", "Px_U_")):
        a = [fn("apply_vector_scaling_x_LU" + s, sca, mem(P), par(p), sp) for s in ("_NonConst", "")]
        want[i] = [(sv(k, x), None) for x in a] + [(x, eq(k, 1)) for x in a]
    for i, p in ((6, "c"), (7, "d")):
        a = [fn("apply_vector_scaling_%s%s" % (p, s), sca, par("y_" + p)) for s in ("_NonConst", "")]
        want[i] = [(sv(k, x), None) for x in a] + [(x, eq(k, 1)) for x in a]
    want[8] = [(fn("unapply_obj_scaling", sca, par("obj_value")), None)]
    names = ["status", "x", "z_L", "z_U", "c", "d", "y_c", "y_d", "objective"]
    for i, al in want.items():
        bad = None
        for c in cl.calls:
            e = judge(al, c.args[i], cfacts(c.facts), {})
            if e and not bad:
                bad = (e[:500], c)
        r.check(not bad, "R4", "final " + names[i], bad[1].loc if bad else "%s:%d" % (f.file, f.l), "final value of %s: %s" % (names[i], bad[0]) if bad else "%d calls" % len(cl.calls),
                bad[1].st.path() if bad else None)
    for i, p in ((0, "status"),):
        bad = [c for c in cl.calls if canon(c.args[i]) != canon_e(par(p))]
        r.check(not bad, "R4", "final status", bad[0].loc if bad else "%s:%d" % (f.file, f.l), "the status handed over is %s" % text(canon(bad[0].args[0])) if bad else "")


NAMES = ("init_x", "init_y_c", "init_y_d", "init_z_L", "init_z_U")
INITS = [frozenset(NAMES), frozenset()] + [frozenset(n for i, n in enumerate(NAMES) if (i + 1 >> b & 1) == x) for b in range(3) for x in (0, 1)]


def starting(m, r):
    q = Quant(m, extract=False)
    f = get(m, ORIG, "InitializeStructures")
    r.analysed([f])
    sca, sp = fn("NLP_scaling"), mem("x_space_")
    k = fn("apply_obj_scaling", sca, 1)
    U = undef
    res = {}
    for have in (("x", "c", "d"), (), ("x",), ("c",), ("d",)):
        for obj in (True, False):
            for init in range(len(INITS)):
                if init > 1 and (not obj or len(have) < 3):
                    continue
                init = INITS[init]
                given = {"have_%s_scaling" % k: k in have for k in "xcd"}
                cl, eng, rets = start(m, q, f, dict(given, apply_obj_scaling=obj), init)
                if not rets:
                    raise AnalysisError("InitializeStructures never succeeds")
                want = {}
                un = lambda n, *a: [fn(n + "_NonConst", sca, *a), fn(n, sca, *a)]
                kk = lambda xs: [sv(k, x) for x in xs] if obj else xs + [sv(k, x) for x in xs]
                want["x"] = un("apply_vector_scaling_x", U)
                for y in "cd":
                    want["y_" + y] = kk(un("unapply_vector_scaling_" + y, U) + ([] if y in have else [U]))
                for s in "LU":
                    P = fn("matrix", E(('c', "px_%s_space_" % s.lower())))
                    want["z_" + s] = kk(un("unapply_vector_scaling_x_LU", P, U, anything) + ([] if "x" in have else [U]))
                if "x" not in have:
                    want["x"] += [U]
                for p, al in want.items():
                    if "init_" + p not in init:
                        al = [U]
                    for st, _ in rets:
                        v = canon(cl.term(eng, st, eng.norm(st, eng.read(st, ('p', p)))))
                        if not any(matches(v, canon_e(a)) for a in al):
                            res[p] = res.get(p) or (("with scaling of %s, objective factor %s one, %s asked for: %s" % (", ".join(have) or "nothing", "not" if obj else "", "it was" if "init_" + p in init else "not", text(v)[:300]), st))
                    res.setdefault(p, None)
                if len(have) == 3 and obj and len(init) == 5:
                    bounds(r, f, cl, eng, rets)
    for p, b in res.items():
        r.check(not b, "R3", "initial " + p, "%s:%d" % (f.file, f.l), "initial value of %s %s" % (p, b[0]) if b else "16 scenarios", b[1].path() if b else None)
    f = get(m, ORIG, "relax_bounds")
    r.analysed([f])
    cl, eng, rets = capture(m, q, f, lambda n: False, track=("bounds",))
    fac = fn("abs", par("bound_relax_factor"))
    b0 = E(('e', 'pure', ('c', 'initial'), ('c', "bounds")))
    one = op("ones")
    bad = None
    for v, fa, st in rets:
        t = canon(cl.term(eng, st, eng.norm(st, ('r', ('p', 'bounds')))))
        fa = cfacts(fa)
        neg = holds(lt(par("bound_relax_factor"), E(('c', 0))), fa)
        step = upd("ElementWiseMin", upd("ElementWiseMax", sv(fac, upd("ElementWiseAbs", b0)), sv(fac, one)), sv(mem("constr_viol_tol_"), one))
        w = canon_e(b0 - step) if neg else canon_e(b0 + step)
        if not matches(t, w):
            bad = bad or (text(t), text(w), st)
    r.check(not bad, "R3", "relaxation", "%s:%d" % (f.file, f.l), "bounds become %s instead of %s" % bad[:2] if bad else "min(tolerance, factor max(|bound|,1))", bad[2].path() if bad else None)


def bounds(r, f, cl, eng, rets):
    for i, (b, P, sign) in {1: ("x_L_", "x", "-"), 3: ("x_U_", "x", ""), 5: ("d_L_", "d", "-"), 7: ("d_U_", "d", "")}.items():
        bad = None
        kinds = set()
        for st, _ in rets:
            v = canon(cl.term(eng, st, eng.norm(st, eng.read(st, ('f', ('this',), ORIG + "::" + b)))))
            t = text(v)
            head = "apply_vector_scaling_%s_LU" % P
            ok = t.startswith((head + "(NLP_scaling,", head + "_NonConst(NLP_scaling,")) and "GetBoundsInformation<%d," % i in t and t.count("GetBoundsInformation") == 1
            if "relax_bounds" in t:
                kinds.add(1)
                ok = ok and "relax_bounds<1,%s," % ("(-bound_relax_factor_)" if sign else "bound_relax_factor_") in t
            else:
                kinds.add(0)
            if not ok:
                bad = bad or ("%s becomes %s" % (b, t[:300]), st)
        if not bad and len(kinds) != 2:
            bad = ("%s is %s relaxed" % (b, "always" if 1 in kinds else "never"), rets[0][0])
        r.check(not bad, "R3", "bound " + b, "%s:%d" % (f.file, f.l), bad[0] if bad else "", bad[1].path() if bad else None)


def matrices(m, r):
    q = Quant(m, extract=False)
    f = get(m, STD, "DetermineScaling")
    r.analysed([f])
    cl, eng, rets = capture(m, q, f, lambda n: "ScaledMatrixSpace" in n.get("f", "") or n["k"] == "ctor" and "ScaledMatrixSpace" in n.get("t", ""))
    at = lambda a, i: text(canon(a)).startswith("DetermineScalingParametersImpl<%d," % i)
    one = lambda a: canon(a) in (('n', 1.0), ('c', True))
    nul = lambda a: canon(a) in (('n', 0.0), ('c', False))
    isp = lambda a, p: canon(a) == canon_e(par(p))
    seen = set()
    for c in cl.calls:
        a = c.args
        if len(a) == 3:
            ok, who = at(a[0], 11) and one(a[1]) and isp(a[2], "h_space"), "Hessian"
        elif len(a) == 5:
            who = "c" if isp(a[2], "jac_c_space") else "d"
            i = 12 if who == "c" else 13
            ok = at(a[0], i) and nul(a[1]) and isp(a[2], "jac_%s_space" % who) and at(a[3], 11) and one(a[4])
        else:
            continue
        seen.add(who)
        r.check(ok, "R2", "space of " + who, c.loc, "the space of the scaled %s is made with %s" % (who, ", ".join(text(canon(x))[:60] for x in a)), c.st.path())
    if seen != {"Hessian", "c", "d"}:
        raise AnalysisError("scaled spaces not found: %s" % seen)
    bad = None
    for v, fa, st in rets:
        d = text(canon(cl.term(eng, st, eng.norm(st, eng.read(st, ('f', ('this',), STD + "::df_"))))))
        x = text(canon(cl.term(eng, st, eng.norm(st, eng.read(st, ('f', ('this',), STD + "::dx_"))))))
        if not ("DetermineScalingParametersImpl<10," in d and "obj_scaling_factor_" in d and d.startswith("(")) or d.startswith("/"):
            bad = bad or ("objective factor is %s" % d[:200], st)
        if not x.startswith("DetermineScalingParametersImpl<11,"):
            bad = bad or ("variable factors are %s" % x[:200], st)
        for name, want in (("new_jac_c_space", "scaled_jac_c_space_"), ("new_jac_d_space", "scaled_jac_d_space_"), ("new_h_space", "scaled_h_space_")):
            n = canon(cl.term(eng, st, eng.norm(st, eng.read(st, ('p', name)))))
            w = canon(cl.term(eng, st, eng.norm(st, eng.read(st, ('f', ('this',), STD + "::" + want)))))
            if n != w and text(n) not in ("$" + name[4:], "0"):
                bad = bad or ("%s is %s" % (name, text(n)[:200]), st)
    r.check(not bad, "R2", "factors", "%s:%d" % (f.file, f.l), bad[0] if bad else "", bad[1].path() if bad else None)
    # products with a scaled matrix
    for c, P in (("Ipopt::ScaledMatrix", 1), ("Ipopt::SymScaledMatrix", 0)):
        sp = mem("owner_space_")
        row, col = (fn("RowScaling", sp), fn("ColumnScaling", sp)) if P else (fn("RowColScaling", sp),) * 2
        Mx = mem("matrix_")
        y0 = E(('e', 'pure', ('c', 'initial'), ('c', "y")))
        for name, first, last, prod in (("MultVectorImpl", col, row, N), ("TransMultVectorImpl", row, col, T))[:2 if P else 1]:
            f = get(m, c, name)
            r.analysed([f])
            cl, eng, rets = capture(m, q, f, lambda n: False, track=("y",))
            bad = None
            for v, fa, st in rets:
                t, fa = canon(cl.term(eng, st, eng.norm(st, ('r', ('p', 'y'))))), cfacts(fa)
                al = []
                for a, ca_ in ((vp(par("x"), first), ne(first)), (par("x"), eq(first))):
                    b = prod(Mx, a)
                    for b2, cb in ((vp(b, last), ne(last)), (b, eq(last))):
                        al.append((sv(par("alpha"), b2) + sv(par("beta"), y0), AND(ca_, cb)))
                        al.append((sv(par("alpha"), b2), AND(ca_, cb, eq(par("beta")))))
                e = judge(al, cl.term(eng, st, eng.norm(st, ('r', ('p', 'y')))), fa, {})
                if e:
                    bad = bad or (e[:400], st)
            r.check(not bad, "R2", "%s::%s" % (c[7:], name), "%s:%d" % (f.file, f.l), bad[0] if bad else "%d paths" % len(rets), bad[1].path() if bad else None)
    # the factors a scaled space keeps
    for c, ps in (("Ipopt::ScaledMatrixSpace", ("row_scaling", "column_scaling")), ("Ipopt::SymScaledMatrixSpace", ("row_col_scaling",))):
        fs = [f for f in m.fns.values() if f.c == c and f.kind == "ctor" and f.body and len(f.p) >= 3]
        if not fs:
            raise AnalysisError("constructor of %s not found" % c)
        f = fs[0]
        r.analysed([f])
        cl, eng, rets = capture(m, q, f, lambda n: False)
        for p in ps:
            fields = [x["n"] for x in m.classes[c]["fields"] if x["n"].endswith(("::" + p + "_", "::scaling_"))]
            bad = None
            for v, fa, st in rets:
                fa = cfacts(fa)
                t = canon(cl.term(eng, st, eng.norm(st, eng.read(st, ('f', ('this',), fields[0])))))
                rec = ('e', 'x')
                al = [(par(p), eq(par(p + "_reciprocal"))), (upd("ElementWiseReciprocal", par(p)), ne(par(p + "_reciprocal"))), (op("/", E(('c', 1)), par(p)), ne(par(p + "_reciprocal"))),
                      (vq(op("ones"), par(p)), ne(par(p + "_reciprocal"))), (E(('c', 0)), eq(par(p))), (undef, eq(par(p)))]
                e = judge(al, cl.term(eng, st, eng.norm(st, eng.read(st, ('f', ('this',), fields[0])))), fa, {})
                if e:
                    bad = bad or ("%s: %s" % (p, e[:300]), st)
            r.check(not bad, "R2", "%s %s" % (c[7:], p), "%s:%d" % (f.file, f.l), bad[0] if bad else "", bad[1].path() if bad else None)


def user(m, r):
    q = Quant(m, extract=False)
    table_rule(m, r, q, "R5", current(), lambda k: [f for f in m.fns.values() if f.name() == k and not f.c and f.body and f.file.endswith("IpTNLP.cpp")])


PARTS = {"tables": rules12, "final": final, "start": starting, "matrices": matrices, "user": user, "evaluations": evals}


def part(m, r, name):
    PARTS[name](m, r)


def run(m, r):
    for k, t in RULES.items():
        r.rule(k, t)
    parallel(part, m, r, list(PARTS))
    r.floor("R1", 15, "scaling functions")
    r.floor("R4", 6, "parts of the final point")
    r.floor("R3", 6, "parts of the starting point, bounds")
    r.floor("R2", 6, "uses of the factors")
    r.floor("R6", 5, "evaluations")
    r.floor("R5", 6, "parts of the current point")

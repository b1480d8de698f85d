"""C34: trial points, step sizes, and the barrier parameter they depend on."""
from sa.quant import Quant
from sa.capture import capture, Capture
from sa.guards import short, engine
from sa.scenario import enum_values
from sa.spec import (matches_under, cfacts, E, fn, par, mem, sv, N, T, vp, vq, ones, zero, undef, canon, matches, text, op, smin, smax)
from sa.db import AnalysisError
from sa.engine import St
from sa.model import walk
from checks.c33 import ca, find, some, PARTS, KEYS, MULT

RULES = {
    "R1": "a trial point is the current point plus step size times step, part by part, and leaves the other parts alone",
    "R2": "primal variables only move along a computed step, by at most its own fraction-to-the-boundary step size",
    "R3": "a correction that is accepted hands over the step and the step size its trial point was computed from",
    "R4": "bound multipliers move by the dual step size and equality multipliers by the step size the option selects",
    "R5": "fraction-to-the-boundary parameter and backtracking factor lie strictly between 0 and 1",
    "R6": "the barrier parameter is updated by the documented formula of the mode that is active",
}
UN = ('op', 'undef')
tau = ca(fn("curr_tau"))
NOINLINE = ("PerformMagicStep", "DoBacktrackingLineSearch", "TrySoftRestoStep", "CheckAcceptabilityOfTrialPoint", "lower_mu_safeguard", "NewFixedMu")
TRY = ("TryCorrector", "TrySecondOrderCorrection")


def unknown(t):
    return not isinstance(t, tuple) or t[0] in ('s', 'j') or t[0] == '?' or text(t) == '?'


def frac(t):
    """arguments of a fraction-to-the-boundary step size"""
    if isinstance(t, tuple) and t[0] == 'fn':
        if t[1] in ("primal_frac_to_the_bound", "dual_frac_to_the_bound") and t[2] == tau:
            return t[1], t[3:]
        if t[1] in ("curr_primal_frac_to_the_bound", "curr_dual_frac_to_the_bound") and t[2] == tau:
            d = ca(fn("delta"))
            return t[1][5:], tuple(('fn', p, d) for p in (("x", "s") if "primal" in t[1] else ("z_L", "z_U", "v_L", "v_U")))
    return None


def factors(t):
    """(coefficient, scalar factors) of a product"""
    if t[0] == 'sum' and len(t[1]) == 1:
        (sc, at), k = t[1][0]
        return k, list(sc) + ([at] if at != ('n', 1.0) else [])
    return 1, [t]


def bounded(t, D, kind="primal", cf=()):
    """t never exceeds the fraction-to-the-boundary step size of D; returns a complaint"""
    if unknown(t) or any(unknown(x) for x in (t, D)):
        return None
    e = bounded1(t, D, kind, cf)
    if e:
        # known to be no larger than something that is bounded
        for o, a, b in cf:
            if o in ('>', '>='):
                a, b = b, a
            if o in ('<', '<=', '>', '>=') and a == t and b != t and not bounded1(b, D, kind, ()):
                return None
    return e


def bounded1(t, D, kind, cf):
    f = frac(t)
    if f:
        k, a = f
        want = ("x", "s") if k.startswith("primal") else ("z_L", "z_U", "v_L", "v_U")
        if not k.startswith(kind):
            return "the %s step size" % k.split("_")[0]
        for p, x in zip(want, a):
            if x != ('fn', p, D):
                return "computed for %s where %s of the step taken is %s" % (text(x)[:120], p, text(('fn', p, D))[:120])
        return None
    if t[0] == 'out' and t[1][1] in TRY and t[2] == ('n', 1.0):
        if not (D[0] == 'out' and D[1] == t[1] and D[2] == ('n', 2.0) and D[3:] == t[3:]):
            return "that of %s, but the step is %s" % (t[1][1], text(D)[:120])
        return bounded(t[-2], t[-1], kind, cf)
    if t[0] == 'fn' and t[1] == 'Min' or t[0] == 'op' and t[1] == 'Min':
        es = [bounded(x, D, kind, cf) for x in t[2:]]
        return None if any(e is None for e in es) else es[0]
    k, fs = factors(t)
    red = ca(mem("alpha_red_factor_"))
    rest = [x for x in fs if x != red]
    if abs(k) <= 1 and k > 0 and len(rest) < len(fs):
        if len(rest) == 1:
            return bounded(rest[0], D, kind, cf)
        if any(unknown(x) for x in rest):
            return None
    return text(t)[:200]


class Acceptor(Capture):
    """remembers the last trial step, judges what is handed over"""
    pair = None

    def on_call(s, eng, st, n, fns, obj, args):
        if short(n) == "SetTrialPrimalVariablesFromStep" and len(args) == 3:
            k = dict(st.prop).get(('rounds',), 0) + 1
            st = s.put(s.put(st, ('rounds',), k), ('last',), tuple(canon(s.term(eng, st, x)) for x in args))
        if short(n) == "Solve" and "PDSystemSolver" in n.get("f", "") and len(args) > 3:
            if dict(st.prop).get(('rounds',)):
                return []               # later rounds add nothing new
            args = list(args)
            args[2] = ('c', s.site(eng, n))     # the system that is solved is judged elsewhere
        return Capture.on_call(s, eng, st, n, fns, obj, args)

    def site(s, eng, n):
        return "system at line %s" % n.get("l")

    def on_assign(s, eng, st, lv, val, node):
        if lv[0] == 'p' and lv[1] in s.pair:
            i = s.pair.index(lv[1])
            s.handed.append((i, canon(s.term(eng, st, val)), dict(st.prop).get(('last',)), eng.loc(node) if node else "", st))
            st = s.put(st, ('set', i), 1)
        return Capture.on_assign(s, eng, st, lv, val, node)


def acceptors(m, r, q):
    fs = [f for f in m.fns.values() if f.body and f.name() in TRY and f.c and len(f.p) == 3]
    for f in fs:
        r.analysed([f])
        cl = Acceptor(m, lambda n: False, inline=lambda g, h=q.inline(f): h(g) and g.name() not in NOINLINE, opaque=q.opaque)
        cl.home, cl.pair, cl.handed = f, (f.p[1]["n"], f.p[2]["n"]), []
        cl.until = None
        eng = engine(m, cl, 400)
        eng.termdepth, eng.compound = 60, True
        rets, _ = eng.run(f, frozenset())
        nm = f.f.replace("Ipopt::", "")
        stepping = any(short(n) == "SetTrialPrimalVariablesFromStep" for n in f.nodes() if n["k"] == "call")
        for i, v, last, loc, st in cl.handed:
            what = "step size" if i == 0 else "step"
            if last is None:
                r.check(False, "R3", "%s:%s" % (nm, what), loc, "a %s is handed over without a trial point having been computed" % what, st.path())
                continue
            al, x, s_ = last
            if i == 0:
                ok = unknown(v) or unknown(al) or v == al
                t = "the step size handed over is %s, the trial point was computed with %s" % (text(v)[:150], text(al)[:150])
            else:
                ok = unknown(v) or text(x).endswith("?)") or (x == ('fn', 'x', v) and s_ == ('fn', 's', v))
                t = "the step handed over is %s, the trial point was computed from %s" % (text(v)[:150], text(x)[:150])
            r.check(ok, "R3", "%s:%s" % (nm, what), loc, t, st.path())
        for st, v in rets:
            d = dict(st.prop)
            r.check((('set', 0) in d) == (('set', 1) in d), "R3", nm + ":both", "%s:%d" % (f.file, f.l), "only one of step size and step is handed over", st.path())
        if stepping:
            r.check(any(i == 0 for i, *_ in cl.handed) and any(i == 1 for i, *_ in cl.handed), "R3", nm + ":handed over", "%s:%d" % (f.file, f.l),
                    "an accepted correction does not hand over its step and step size")
    r.floor("R3", 60, "values handed over by the acceptors")


SETTERS = {"SetTrialPrimalVariablesFromStep": ("x", "s"), "SetTrialEqMultipliersFromStep": ("y_c", "y_d"), "SetTrialBoundMultipliersFromStep": ("z_L", "z_U", "v_L", "v_U")}


def setters(m, r, q):
    for name, parts in SETTERS.items():
        f = find(m, "IpoptData", name)
        r.analysed([f])
        cl, eng, rets = capture(m, q, f, lambda n: short(n) == "set_trial" and n["k"] == "call")
        if len(f.p) != 1 + len(parts):
            raise AnalysisError("%s: unexpected parameters" % f.f)
        r.check(bool(cl.calls), "R1", name, "%s:%d" % (f.file, f.l), "%s does not set the trial point" % name)
        for c in cl.calls:
            v = canon(c.args[0])
            tr = St(trace=c.trace).path()
            if v[:2] != ('op', 'with'):
                r.check(False, "R1", name, c.loc, "the trial point is %s" % text(v)[:200], tr)
                continue
            base = v[2]
            ok = base == UN or text(base) in ("trial", "trial_", "trial()") or text(base).startswith("trial")
            r.check(ok, "R1", name + ":other parts", c.loc, "parts that are not computed are taken from %s, not from the trial point" % text(base)[:100], tr)
            at = {int(x[2][1]): x[-1] for x in v[3:]}
            al = par(f.p[0]["n"])
            for i, p in enumerate(parts):
                d = par(f.p[1 + i]["n"])
                k = PARTS.index(p)
                forms = [ca(fn(p, b) + sv(al, d)) for b in (fn("curr"), mem("curr_"))]
                g = at.pop(k, None)
                r.check(g is not None and any(matches(g, w) for w in forms), "R1", "%s:%s" % (name, p), c.loc,
                        "%s of the trial point is %s, not the current one plus the step size times the step" % (p, text(g)[:200] if g is not None else "not set"), tr)
            for k in at:
                r.check(False, "R1", "%s:%s" % (name, PARTS[k]), c.loc, "%s of the trial point changes as well" % PARTS[k], tr)
    r.floor("R1", 12, "parts of trial points")


def steps(m, r, q):
    fs = [f for f in m.fns.values() if f.body and any(n["k"] == "call" and (short(n) in SETTERS or short(n) == "PerformDualStep") for n in f.calls())]
    # a function that is inlined into another one is judged there as well
    n2 = 0
    for f in sorted(fs, key=lambda f: f.f):
        r.analysed([f])
        own = {short(n) for n in f.calls()}
        hits = set()
        want = lambda n: n["k"] == "call" and (short(n) in SETTERS or short(n) == "PerformDualStep")
        until = 3 if f.name() == "FindAcceptableTrialPoint" else 2
        cl, eng, rets = capture(m, q, f, want, until=lambda n: until if want(n) else 0, inline=lambda g, h=q.inline(f): h(g) and g.name() not in NOINLINE and g.name() != "PerformDualStep")
        nm = f.f.replace("Ipopt::", "")
        if not cl.calls:
            raise AnalysisError("%s: no path to its trial point" % nm)
        for c in cl.calls:
            a = [canon(x) for x in c.args]
            tr = St(trace=c.trace).path()
            if c.name in SETTERS:
                parts = SETTERS[c.name]
                al, ds = a[0], a[1:]
                D = ds[0][2] if ds[0][0] == 'fn' and ds[0][1] == parts[0] and len(ds[0]) == 3 else None
                if D is None and c.name == "SetTrialBoundMultipliersFromStep" and nm.endswith("PerformRestoration"):
                    D = None
                    minc(m, r, nm, c, al, ds, tr)
                    continue
                if unknown(ds[0]) or D is None and text(ds[0]).endswith("?)"):
                    continue
                ok = D is not None and all(x == ('fn', p, D) for p, x in zip(parts, ds))
                r.check(ok, "R2" if parts[0] == "x" else "R4", "%s:parts" % nm, c.loc, "the parts (%s) of the trial point are computed from %s" %
                        (", ".join(parts), ", ".join(text(x)[:80] for x in ds)), tr)
                if not ok:
                    continue
                if parts[0] == "x":
                    n2 += 1
                    e = bounded(al, D, "primal", cfacts(c.facts))
                    r.check(e is None, "R2", "%s:step size" % nm, c.loc, "step size is not bounded by the fraction-to-the-boundary rule of the step: %s" % e, tr)
                elif f.name() == "PerformDualStep":
                    dual(m, r, f, c, parts, al, D, tr)
                elif parts[0] == "z_L":
                    e = bounded(al, D, "dual", cfacts(c.facts))
                    r.check(e is None, "R4", "%s:step size" % nm, c.loc, "step size of the bound multipliers is not bounded by the fraction-to-the-boundary rule: %s" % e, tr)
            else:
                ap, ad, D = a[0], a[1], a[2]
                e = bounded(ad, D, "dual", cfacts(c.facts))
                r.check(e is None, "R4", "%s:dual step" % nm, c.loc, "step size of the bound multipliers is not bounded by the fraction-to-the-boundary rule: %s" % e, tr)
    r.floor("R2", 20, "primal steps")
    r.floor("R4", 30, "dual steps")


def minc(m, r, nm, c, al, ds, tr):
    """bound multipliers after the restoration phase"""
    ok = len(ds) == 4
    mu = fn("curr_mu")
    for k, d in zip(KEYS, ds):
        z, sl, ts = fn(MULT[k], fn("curr")), fn("curr_slack_" + k), fn("trial_slack_" + k)
        w = vq(sv(mu, ones) + vp(z, sl) - vp(z, ts), sl) - z
        r.check(matches(d, ca(w)), "R4", "%s:%s" % (nm, MULT[k]), c.loc, "step of %s after the restoration phase is %s, expected %s" % (MULT[k], text(d)[:200], text(ca(w))[:200]), tr)
    f = frac(al)
    r.check(bool(f) and f[0].startswith("dual") and list(f[1]) == list(ds), "R4", "%s:step size" % nm, c.loc,
            "step size of the bound multipliers after the restoration phase is %s" % text(al)[:200], tr)


def dual(m, r, f, c, parts, al, D, tr):
    pp, pd = par(f.p[0]["n"]), par(f.p[1]["n"])
    dl = par(f.p[2]["n"])
    if parts[0] == "z_L":
        r.check(al == ca(pd) and D == ca(dl), "R4", "PerformDualStep:bound multipliers", c.loc, "bound multipliers move by %s along %s" % (text(al), text(D)), tr)
        return
    ev = {v: k for k, v in enum_values(m, "Ipopt::BacktrackingLineSearch::AlphaForYEnum").items()}
    sel = None
    opt = ca(mem("alpha_for_y_"))
    for o, a, b in c.facts:
        a, b = canon(a), canon(b)
        if b == opt:
            a, b = b, a
        if o == '==' and a == opt and b[0] == 'n':
            sel = ev.get(int(b[1]))
    if sel is None:
        # an option value outside the enumeration
        r.check(al == ('n', -1.0) or unknown(al), "R4", "PerformDualStep:none", c.loc, "equality multipliers move by %s for an undetermined option value" % text(al)[:100], tr)
        return
    mn, mx = smin(pp, pd), smax(pp, pd)
    JT = fn("trial_jac_cT_times_vec", fn("y_c", dl)) + fn("trial_jac_dT_times_vec", fn("y_d", dl))
    want = {
        "PRIMAL_ALPHA_FOR_Y": [pp], "DUAL_ALPHA_FOR_Y": [pd], "MIN_ALPHA_FOR_Y": [mn], "MAX_ALPHA_FOR_Y": [mx], "FULL_STEP_FOR_Y": [E(('c', 1))],
        "PRIMAL_AND_FULL_ALPHA_FOR_Y": [pp, E(('c', 1))], "DUAL_AND_FULL_ALPHA_FOR_Y": [pd, E(('c', 1))],
    }.get(sel)
    if want:
        ok = D == ca(dl) and any(matches_under(al, ca(w), cfacts(c.facts)) for w in want)
        r.check(ok, "R4", "PerformDualStep:%s" % sel, c.loc, "with %s, equality multipliers move by %s along %s" % (sel, text(al)[:150], text(D)[:60]), tr)
        if sel.endswith("AND_FULL_ALPHA_FOR_Y"):
            big = smax(fn("Amax", fn("x", dl)), fn("Amax", fn("s", dl)))
            full = al == ('n', 1.0)
            fs = [(o, canon(a), canon(b)) for o, a, b in c.facts]
            tl, bg = ca(mem("alpha_for_y_tol_")), ca(big)
            small = any((o == '<=' and a == bg and b == tl) or (o == '>=' and a == tl and b == bg) for o, a, b in fs)
            large = any((o == '>' and a == bg and b == tl) or (o == '<' and a == tl and b == bg) for o, a, b in fs)
            r.check(small if full else large, "R4", "PerformDualStep:%s:switch" % sel, c.loc, "with %s, the %s step is not tied to a step below the tolerance" % (sel, "full" if full else "reduced"), tr)
        return
    if sel == "LSACCEPTOR_ALPHA_FOR_Y":
        r.check("ComputeAlphaForY" in text(al), "R4", "PerformDualStep:%s" % sel, c.loc, "with %s, equality multipliers move by %s" % (sel, text(al)[:150]), tr)
        return
    t = text(al)
    need = ["trial_grad_lag_x", "trial_grad_lag_s", "trial_jac_cT_times_vec(y_c($%s))" % f.p[2]["n"], "trial_jac_dT_times_vec(y_d($%s))" % f.p[2]["n"]]
    quo = fn("Dot", fn("trial_grad_lag_s"), fn("y_d", dl)) - fn("Dot", fn("trial_grad_lag_x"), JT)
    r.check(all(x in t for x in need) and D == ca(dl), "R4", "PerformDualStep:%s" % sel, c.loc, "with %s, equality multipliers move by %s" % (sel, t[:200]), tr)
    num = text(ca(quo))
    r.check(num in t, "R4", "PerformDualStep:%s:minimizer" % sel, c.loc, "with %s, the step size %s does not minimize the dual infeasibility (numerator %s)" % (sel, t[:200], num[:150]), tr)


# ------------------------------------------------------------------ tau and mu
def barrier(m, r, q):
    sites = [f for f in m.fns.values() if f.body and f.c != "Ipopt::IpoptData" and any(short(n) in ("Set_tau", "Set_mu") and "IpoptData" in n.get("f", "") for n in f.calls())]
    for f in sorted(sites, key=lambda f: f.f):
        r.analysed([f])
        nm = f.f.replace("Ipopt::", "")
        want = lambda n: n["k"] == "call" and short(n) in ("Set_tau", "Set_mu") and "IpoptData" in n.get("f", "")
        cl, eng, rets = capture(m, q, f, want, until=lambda n: 2 if short(n) == "Set_tau" else 0, inline=lambda g, h=q.inline(f): h(g) and g.name() not in NOINLINE)
        for c in cl.calls:
            v = canon(c.args[0])
            tr = St(trace=c.trace).path()
            if c.name == "Set_tau":
                r.check(istau(v, cfacts(c.facts)), "R5", "%s:tau" % nm, c.loc, "the fraction-to-the-boundary parameter becomes %s" % text(v)[:200], tr)
            else:
                e = ismu(f, v, cfacts(c.facts))
                r.check(not e, "R6", "%s:mu" % nm, c.loc, "the barrier parameter becomes %s: %s" % (text(v)[:250], e), tr)
    r.floor("R6", 6, "settings of the barrier parameter")


def mins(t, which):
    """flat arguments of a minimum or maximum"""
    if isinstance(t, tuple) and len(t) > 2 and t[1] == which:
        return [y for x in t[2:] for y in mins(x, which)]
    return [t]


def istau(t, cf=()):
    if text(t).startswith(("tau_min_", "GetNumericValue")) and not text(t).startswith("GetNumericValue<1,$options,mu"):
        return True
    if t == ('n', 0.0):
        return True                 # before the first barrier update
    if t[:2] == ('c', 0):
        return True
    a = mins(t, "Max")
    if len(a) == 1 and lead(t) and any((o in ('>', '>=') and x == t and "tau_min" in text(y)) or (o in ('<', '<=') and y == t and "tau_min" in text(x)) for o, x, y in cf):
        return True
    if len(a) != 2:
        return False
    lo = [x for x in a if "tau_min" in text(x) and x[0] != 'sum']
    ot = [x for x in a if x not in lo]
    if len(lo) != 1 or len(ot) != 1:
        return False
    return text(ot[0]).replace(" ", "").startswith(("(1-", "(-")) and lead(ot[0])


def lead(t):
    """1 - something"""
    if t[0] != 'sum':
        return False
    neg = [k for (sc, at), k in t[1] if k == -1]
    return len(t[1]) == 2 and len(neg) == 1 and any(k == 1 and not sc and at == ('n', 1.0) for (sc, at), k in t[1])


def name(t):
    """name of a member, also where several paths met"""
    if t[0] == 'j' and t[2][0] == 'f':
        return t[2][2].rsplit("::", 1)[-1]
    return t[1] if t[0] == 'sym' else None


def has(t, n):
    return name(t) == n


def muforms():
    tol = smin(fn("abs", fn("apply_obj_scaling", fn("NLP_scaling", fn("IpNLP")), mem("compl_inf_tol_"))), fn("tol"))
    mu = fn("curr_mu")
    dec = smin(fn("pow", mu, mem("mu_superlinear_decrease_power_")), mem("mu_linear_decrease_factor_") * mu)
    low = tol / (mem("barrier_tol_factor_") + E(('c', 1)))
    om = fn("curr_mu", fn("OrigIpData"))
    infeas = [fn("Amax", fn(x, fn("OrigIpCq"))) for x in ("curr_c", "curr_d_minus_s")]
    return {
        "MonotoneMuUpdate": [smax(dec, mem("mu_target_"), low)],
        "AdaptiveMuUpdate": [smax(dec, low), mem("mu_min_"), smin(mem("mu_min_"), 0.5 * tol), E(('c', 1))],
        "RestoIterateInitializer": [smax(om, *infeas)],
    }


def ismu(f, t, cf=()):
    """complaint about a value of the barrier parameter"""
    cls = (f.c or "").rsplit("::", 1)[-1]
    if t[0] == 'par':
        return None                          # judged in the callers
    if t[0] == 'out' and t[1][1] == "GetNumericValue" and ('n', 'mu_init') in t:
        return None
    forms = muforms().get(cls)
    if forms is None:
        return "no documented update of the barrier parameter is known for this class"
    if any(matches_under(t, ca(w), cf) for w in forms):
        return None
    if cls == "AdaptiveMuUpdate":
        if t[:2] == ('fn', 'NewFixedMu'):
            return None
        if t[:2] == ('fn', 'Min') and any(has(x, "mu_max_") for x in t[2:]) and len(t) == 4:
            x = [x for x in t[2:] if not has(x, "mu_max_")][0]
            if unknown(x) or x[:2] == ('fn', 'lower_mu_safeguard'):
                return None
            if x[:2] == ('fn', 'Max') and any(has(y, "mu_min_") for y in x[2:]) and any(y[0] == 'out' and y[1][1] == "CalculateMu" for y in x[2:]):
                return None
    return "not the documented update"


def fixedmu(m, r, q):
    """barrier parameter when the adaptive strategy falls back to the monotone mode"""
    f = find(m, "AdaptiveMuUpdate", "NewFixedMu")
    r.analysed([f])
    cl, eng, rets = capture(m, q, f, lambda n: False, inline=lambda g, h=q.inline(f): h(g) and g.name() not in NOINLINE)
    init = ca(mem("adaptive_mu_monotone_init_factor_") * fn("curr_avrg_compl"))
    for t, fa, st in rets:
        t = canon(t)
        lo = hi = safe = val = False
        def go(t, path):
            nonlocal lo, hi, safe, val
            if isinstance(t, tuple) and t[:2] in (('fn', 'Min'), ('fn', 'Max')):
                for x in t[2:]:
                    go(x, path + (t[1],))
                return
            w = path[-1] if path else None
            lo |= has(t, "mu_min_") and w == "Max" and "Min" in path
            hi |= has(t, "mu_max_") and path == ("Min",)
            safe |= t[:2] == ('fn', 'lower_mu_safeguard') and w == "Max"
            val |= t == init or t[0] == 'out' and t[1][1] == "CalculateMu"
        go(t, ())
        r.check(lo and hi and safe and val, "R6", "NewFixedMu", "%s:%d" % (f.file, f.l), "the new fixed value is %s: not the oracle's value or the average complementarity, kept above the safeguards and between the minimum and the maximum" % text(t)[:250], st.path())


def bounds(m, r):
    """registered bounds of the factors"""
    n = 0
    for f in m.fns.values():
        if not f.body or f.name() != "RegisterOptions":
            continue
        for c in f.calls():
            if c["k"] != "call" or not c.get("f", "").endswith("NumberOption") or not c["a"]:
                continue
            nm = next((x.get("v") for x in walk(c["a"][0]) if x["k"] == "str"), None)
            if nm not in ("alpha_red_factor", "tau_min"):
                continue
            n += 1
            num = [x for a in c["a"][2:] for x in walk(a) if x["k"] in ("int", "flt", "bool")]
            lits = [x.get("v") for x in num][:4]
            ok = short(c) == "AddBoundedNumberOption" and len(lits) == 4 and float(lits[0]) >= 0 and bool(lits[1]) and float(lits[2]) <= 1 and bool(lits[3])
            r.check(ok, "R5", "option " + nm, "%s:%s" % (f.file, c.get("l")), "option %s is not restricted to values strictly between 0 and 1 (%s)" % (nm, lits))
    r.floor("R5", 8, "settings of tau and bounds of factors")
    if n < 2:
        raise AnalysisError("registrations of alpha_red_factor and tau_min not found")


class Q34(Quant):
    def opaque(s, n):
        return short(n) in ("lower_mu_safeguard", "NewFixedMu") or Quant.opaque(s, n)


def run(m, r):
    for k, v in RULES.items():
        r.rule(k, v)
    q = Q34(m, False)
    setters(m, r, q)
    acceptors(m, r, q)
    steps(m, r, q)
    barrier(m, r, q)
    fixedmu(m, r, q)
    bounds(m, r)

"""C18: a trial point is accepted only by the documented tests."""
from sa.quant import Quant, Facts
from sa.guards import short, engine, Guard
from sa.spec import E, fn, par, mem, out, N, vp, canon, matches, text, upd, smax, smin, cfacts, ones, vq
from sa.db import AnalysisError
from sa.model import walk
from checks.c33 import ca
from checks.c12 import Opt, runs as oruns, pure

F, PEN, BLS, RC = "Ipopt::FilterLSAcceptor", "Ipopt::PenaltyLSAcceptor", "Ipopt::BacktrackingLineSearch", "Ipopt::RestoConvergenceCheck"
# calls that stand for a value on a path (the functions themselves are checked on their own)
NAMED = ("IsFtype", "ArmijoHolds", "CalcPred", "CheckAcceptabilityOfTrialPoint", "IsAcceptableToCurrentIterate", "IsAcceptableToCurrentFilter", "TestOrigProgress", "IntermediateCallBack",
         "CheckConvergence", "Compare_le", "Acceptable", "CalcNormOfType", "CalculateAlphaMin")
ACTS = ("AugmentFilter", "AddEntry", "Reset", "Clear", "PerformDualStep", "PrepareRestoPhaseStart", "Set_tol")
TRUE, FALSE = ('n', 1.0), ('n', 0.0)


class Acc(Facts):
    acts = ACTS

    def on_call(s, eng, st, n, fns, obj, args):
        b = short(n)
        if n["k"] == "call" and b in s.acts:
            ev = (b,) + tuple(canon(s.term(eng, st, a)) for a in args)
            log = dict(st.prop).get(('acts',), ())
            if not log or log[-1] != ev:
                st = s.put(st, ('acts',), (log + (ev,))[-6:])
            return [(st, ('void',))]
        if n["k"] == "call" and b in s.forks:
            outs = []
            for v in (0, 1):
                x = s.put(st, ('judge',), b if v else None)
                outs.append((x.step("%s says %s" % (b, "yes" if v else "no")), ('c', v)))
            eng.pending.append(("Ipopt::IpoptNLP::Eval_Error", s.put(st, ('judge',), None).step("%s raises Eval_Error" % b)))
            return outs
        if s.forks and b == "SetTrialPrimalVariablesFromStep":
            st = s.put(s.put(st, ('judge',), None), ('alpha',), eng.norm(st, args[0][1]) if isinstance(args[0], tuple) and len(args[0]) == 2 and isinstance(args[0][1], tuple) else args[0])
        if s.forks and b == "trial_constraint_violation":
            # steps that are taken without a test if their functions can be evaluated
            cf = cfacts(s.factterms(eng, st))
            if Cond(cf).is_(mem("accept_every_trial_step_")) or Cond(cf).cmp('!=', mem("accept_after_max_steps_"), C(-1)) and any(o == '<=' and a == ('sym', "accept_after_max_steps_") for o, a, c in cf):
                st = s.put(st, ('judge',), "anyway").step("the step is accepted without a test")
        return super().on_call(eng, st, n, fns, obj, args)
    forks = ()

    def merge_key(s, eng, st):
        return (super().merge_key(eng, st), dict(st.prop).get(('judge',)), dict(st.prop).get(('acts',)))

    def throws(s, eng, st, node, fns):
        return s.raises(node)

    def raises(s, node):
        return ()


def paths(m, f, inline=None, forks=(), raises=None, cap=400):
    q = Quant(m, extract=False)
    cl = Acc(m, inline=inline or (lambda g: False), opaque=lambda n: q.opaque(n) or short(n) in NAMED)
    cl.forks = forks
    if raises:
        cl.raises = raises
    eng = engine(m, cl, cap)
    eng.termdepth = 60
    eng.compound = eng.incs = True
    rets, thrown = eng.run(f, frozenset())
    out = []
    for st, v in rets:
        t = canon(cl.term(eng, st, v))
        out.append((t, cfacts(cl.factterms(eng, st)), st, eng, cl))
    return out, thrown


def get(m, cls, name):
    l = [f for f in m.fns.values() if f.f == "%s::%s" % (cls, name) and f.body is not None]
    if len(l) != 1:
        raise AnalysisError("%s::%s not found" % (cls, name))
    return l[0]


# ------------------------------------------------------------------ conditions, decided by the facts of a path
FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}
INF = float("inf")


class Cond:
    """truth of conditions under the facts of a path: True, False, or None when open; numbers are compared as polynomials"""

    def __init__(s, cf):
        s.sub, s.iv, s.ne = {}, {}, {}
        s.empty = False
        for o, a, b in cf:
            if o == '==' and b[0] == 'n' and not isinstance(b[1], str) and a[0] != 'n':
                s.sub[a[:3] if a[:2] == ('out', ('n', "getPDPert")) else a] = b
        s.add('>', ('fn', 'epsilon'), ('n', 0.0))
        s.add('<', ('fn', 'epsilon'), ('n', 1e-6))
        cf = list(cf)
        for o, a, b in cf + cf:         # the second time with the order of the parts of Max and Min known
            s.add(o, a, b)

    # polynomials {sorted atoms with powers: coefficient}
    def P(s, t):
        if t[:2] == ('out', ('n', "getPDPert")):
            t = t[:3]           # the same data, whatever the variables are called
        if t in s.sub:
            t = s.sub[t]
        if not isinstance(t, tuple) or not t:
            return {((t, 1),): 1.0}
        if t[0] == 'n' and not isinstance(t[1], str):
            return {(): float(t[1])} if t[1] else {}
        if t[0] == 'sum':
            acc = {}
            for (sy, at), k in t[1]:
                p = {(): float(k)}
                for x in sy + (at,):
                    p = s.mul(p, s.P(x))
                for q, c in p.items():
                    acc[q] = acc.get(q, 0.0) + c
            return {q: c for q, c in acc.items() if c}
        if t[:2] == ('op', '/') and len(t) == 4:
            d = s.P(t[3])
            if len(d) == 1:
                (q, c), = d.items()
                return s.mul(s.P(t[2]), {tuple((x, -e) for x, e in q): 1.0 / c})
            return s.mul(s.P(t[2]), {((('inv', s.froz(d)), 1),): 1.0})
        if t[:2] == ('op', 'neg'):
            return s.mul({(): -1.0}, s.P(t[2]))
        if t[0] == 'fn' and t[1] in ("Max", "Min", "max", "min") and len(t) > 3:
            k = t[1].lower()
            xs = set()
            for x in t[2:]:
                y = s.froz(s.P(x))
                y = y[1][0][0][0][0] if len(y[1]) == 1 and y[1][0][1] == 1.0 and len(y[1][0][0]) == 1 and y[1][0][0][0][1] == 1 else y
                xs |= set(y[2:]) if y[:2] == ('fn', k) else {y}
            keep = set(xs)
            for x in sorted(xs, key=repr):
                for y in sorted(keep - {x}, key=repr):
                    if s.cmp_('<=' if k == 'max' else '>=', s.un(x), s.un(y)) is True:
                        keep.discard(x)
                        break
            if len(keep) == 1:
                return s.un(next(iter(keep)))
            return {((('fn', k) + tuple(sorted(keep, key=repr)), 1),): 1.0}
        if t[0] in ('fn', 'op', 'out', 'upd', 'sub'):
            u = t[:2] + tuple(s.froz(s.P(x)) if isinstance(x, tuple) and x and x[0] in ('sum', 'fn', 'op', 'n', 'sym', 'par') else x for x in t[2:])
            return {((u, 1),): 1.0}
        return {((t, 1),): 1.0}

    def un(s, x):
        return dict(x[1]) if isinstance(x, tuple) and x[:1] == ('P',) else {((x, 1),): 1.0}

    def froz(s, p):
        return ('P', tuple(sorted(((q, round(c, 14)) for q, c in p.items()), key=repr)))

    def mul(s, p, q):
        acc = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                e = {}
                for x, k in m1 + m2:
                    e[x] = e.get(x, 0) + k
                key = tuple(sorted(((x, k) for x, k in e.items() if k), key=repr))
                acc[key] = acc.get(key, 0.0) + c1 * c2
        return {k: c for k, c in acc.items() if c}

    def diff(s, p, q):
        acc = dict(p)
        for k, c in q.items():
            acc[k] = acc.get(k, 0.0) - c
        return {k: c for k, c in acc.items() if abs(c) > 1e-14}

    def key(s, d):
        """(normalized non-constant part, bound, flipped): d op 0 means part op bound"""
        c0 = d.get((), 0.0)
        rest = sorted(((q, c) for q, c in d.items() if q), key=repr)
        if not rest:
            return None, c0, False
        k = rest[0][1]
        return tuple((q, round(c / k, 12)) for q, c in rest), -c0 / k, k < 0

    def add(s, o, a, b):
        part, bound, flip = s.key(s.diff(s.P(a), s.P(b)))
        if part is None:
            if not {'<': bound < 0, '<=': bound <= 0, '>': bound > 0, '>=': bound >= 0, '==': bound == 0, '!=': bound != 0}[o]:
                s.empty = True
            return
        if flip:
            o = FLIP[o]
        lo, ls, hi, hs = s.iv.get(part, (-INF, True, INF, True))
        if o in ('<', '<=', '==') and (bound < hi or bound == hi and o == '<'):
            hi, hs = bound, o == '<'
        if o in ('>', '>=', '==') and (bound > lo or bound == lo and o == '>'):
            lo, ls = bound, o == '>'
        if o == '!=':
            s.ne.setdefault(part, set()).add(bound)
        s.iv[part] = (lo, ls, hi, hs)
        if lo > hi or lo == hi and (ls or hs) or lo == hi and lo in s.ne.get(part, ()):
            s.empty = True

    def cmp_(s, o, p, q):
        part, b, flip = s.key(s.diff(p, q))
        if part is None:
            return {'<': b < 0, '<=': b <= 0, '>': b > 0, '>=': b >= 0, '==': b == 0, '!=': b != 0}[o]
        if flip:
            o = FLIP[o]
        lo, ls, hi, hs = s.iv.get(part, (-INF, True, INF, True))
        out = b in s.ne.get(part, ())
        lt = hi < b or hi == b and (hs or out)
        gt = lo > b or lo == b and (ls or out)
        le_, ge = hi <= b, lo >= b
        eq = lo == hi == b
        t = {'<': lt, '<=': le_, '>': gt, '>=': ge, '==': eq, '!=': lt or gt or out}[o]
        f = {'<': ge, '<=': gt, '>': le_, '>=': lt, '==': lt or gt or out, '!=': eq}[o]
        return True if t else False if f else None

    def cmp(s, o, a, b):
        a, b = ca(a) if isinstance(a, E) else a, ca(b) if isinstance(b, E) else b
        return s.cmp_(o, s.P(a), s.P(b))

    def eq(s, a, b):
        a, b = ca(a) if isinstance(a, E) else a, ca(b) if isinstance(b, E) else b
        return matches(a, b) or not s.diff(s.P(a), s.P(b))

    def is_(s, t):
        return s.cmp('!=', t, E(('c', 0)))


def AND(*xs):
    return False if any(x is False for x in xs) else None if any(x is None for x in xs) else True


def OR(*xs):
    return True if any(x is True for x in xs) else None if any(x is None for x in xs) else False


def NOT(x):
    return None if x is None else not x


def outcomes(v, cf):
    """(result, facts) pairs of a path that returns a condition"""
    if v[0] == 'n':
        return [(bool(v[1]), cf)]
    zero = ('n', 0.0)
    if v[0] == 'op' and v[1] in FLIP and len(v) == 4:
        no = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[v[1]]
        o, a, b = v[1], v[2], v[3]
    else:
        o, a, b, no = '!=', v, zero, '=='
    k = Cond(cf).cmp(o, a, b)
    if k is not None:
        return [(k, cf)]
    return [(True, set(cf) | {(o, a, b)}), (False, set(cf) | {(no, a, b)})]


def decide(r, m, rule, f, want, what, ps=None):
    """every path of f returns the truth of the condition"""
    ps = ps if ps is not None else paths(m, f)[0]
    if not ps:
        raise AnalysisError("%s has no path" % f.f)
    for v, cf, st, eng, cl in ps:
        for res, fs in outcomes(v, cf):
            c = Cond(fs)
            if c.empty:
                continue
            w = want(c, st)
            r.check(w is res, rule, "%s %s" % (short_name(f), "yes" if res else "no"), f.at(),
                    "%s: the result is %s where the condition is %s" % (what, "yes" if res else "no", {True: "satisfied", False: "not satisfied", None: "not decided"}[w]), st.path())


def short_name(f):
    return "::".join(f.f.split("::")[-2:])


def value(r, m, rule, f, want, what, inline=None):
    """every path of f returns the value the documented formula has under the facts of the path"""
    for v, cf, st, eng, cl in paths(m, f, inline)[0]:
        c = Cond(cf)
        if c.empty:
            continue
        w = want(c)
        ok = w is not None and any(c.eq(v, x) for x in (w if isinstance(w, list) else [w]))
        r.check(ok, rule, short_name(f), f.at(), "%s: the value is %s" % (what, text(v)[:200]), st.path())


C = lambda x: E(('c', x))
theta, barr, slope = mem("reference_theta_"), mem("reference_barr_"), mem("reference_gradBarrTDelta_")
alpha = par("alpha_primal_test")
tb, tt = fn("trial_barrier_obj"), fn("trial_constraint_violation")
pow_ = lambda a, b: fn("pow", a, b)
eps = fn("epsilon")


def le(c, a, b, base):
    """the comparison with rounding tolerance"""
    return c.is_(fn("Compare_le", a, b, base))


# ------------------------------------------------------------------ filter line search
def filterls(m, r):
    def ftype(c, st):
        heur = AND(c.cmp('==', theta, C(0)), c.cmp('<', C(0), slope), c.cmp('<', slope, C(100) * eps))
        if heur:
            return AND(OR(c.cmp('<', -eps, C(0))), c.cmp('<', mem("delta_") * pow_(C(0), mem("s_theta_")), alpha * pow_(eps, mem("s_phi_"))))
        return AND(c.cmp('<', slope, C(0)), c.cmp('<', mem("delta_") * pow_(theta, mem("s_theta_")), alpha * pow_(-slope, mem("s_phi_"))))
    f1 = get(m, F, "IsFtype")
    decide(r, m, "R1", f1, ftype, "the switching condition is: descent direction, and alpha (-slope)^s_phi > delta theta^s_theta")
    f2 = get(m, F, "ArmijoHolds")
    decide(r, m, "R1", f2, lambda c, st: le(c, tb - barr, mem("eta_phi_") * alpha * slope, barr), "the Armijo condition is: trial barrier objective - reference <= eta_phi alpha slope")
    f3 = get(m, F, "IsAcceptableToCurrentIterate")
    pb, pt = par("trial_barr"), par("trial_theta")

    def iterate(c, st):
        inc = AND(NOT(c.is_(par("called_from_restoration"))), c.cmp('<', barr, pb))
        if inc is None or inc:
            big = c.cmp('<', C(10), fn("abs", barr))
            base = None if big is None else fn("log10", fn("abs", barr)) if big else C(1)
            if inc and base is None:
                return None
            inc = AND(inc, c.cmp('<', mem("obj_max_inc_") + base, fn("log10", pb - barr))) if base is not None else inc
        return AND(NOT(inc), OR(le(c, pt, (C(1) - mem("gamma_theta_")) * theta, theta), le(c, pb - barr, -mem("gamma_phi_") * theta, barr)))
    decide(r, m, "R1", f3, iterate, "sufficient reduction is: no excessive increase of the barrier objective (except in restoration), and theta <= (1-gamma_theta) reference or barrier objective <= reference - gamma_phi theta")
    f4 = get(m, F, "IsAcceptableToCurrentFilter")
    decide(r, m, "R1", f4, lambda c, st: c.is_(fn("Acceptable", mem("filter_"), pb, pt)), "the pair (barrier objective, constraint violation) of the trial point decides")
    f5 = get(m, F, "CheckAcceptabilityOfTrialPoint")
    tmaxinit, tmininit = (mem("theta_%s_fact_" % k) * smax(C(1.), theta) for k in ("max", "min"))

    def accept(c, st):
        init = c.cmp('<', mem("theta_max_"), C(0))
        tmax = tmaxinit if init else mem("theta_max_")
        i2 = c.cmp('<', mem("theta_min_"), C(0))
        tmin = tmininit if i2 else mem("theta_min_")
        toobig = AND(c.cmp('<', C(0), tmax), c.cmp('<', tmax, tt))
        ft = AND(c.cmp('<', C(0), alpha), c.is_(fn("IsFtype", alpha)), c.cmp('<=', theta, tmin))
        it2 = lambda: c.is_(fn("IsAcceptableToCurrentIterate", tb, tt, C(0)))
        arm = c.is_(fn("ArmijoHolds", alpha))
        suff = arm if ft else it2() if ft is False else None
        fil = c.is_(fn("IsAcceptableToCurrentFilter", tb, tt))
        return AND(NOT(toobig), suff, fil)
    # a step size of zero or a refused switching condition: which of the first two it is does not matter
    decide(r, m, "R1", f5, accept, "a trial point is accepted iff its constraint violation is not above theta_max, Armijo (if the switching condition holds near feasibility) or sufficient reduction holds, and the filter accepts it")
    for v, cf, st, eng, cl in paths(m, f5)[0]:
        for k, init in (("max", tmaxinit), ("min", tmininit)):
            q = "%s::theta_%s_" % (F, k)
            t = canon(cl.term(eng, st, eng.read(st, ('f', ('this',), q))))
            neg = Cond(cf).cmp('<', mem("theta_%s_" % k), C(0))
            r.check(Cond(cf).eq(t, init if neg else mem("theta_%s_" % k)), "R1", "theta_%s_ initialization" % k, f5.at(), "theta_%s_ is %s" % (k, text(t)[:150]), st.path())
        q = F + "::last_rejection_due_to_filter_"
        t = canon(cl.term(eng, st, eng.read(st, ('f', ('this',), q))))
        c = Cond(cf)
        rej = c.is_(fn("IsAcceptableToCurrentFilter", tb, tt))
        if rej is False:
            r.check(t == TRUE, "R1", "rejection by the filter is noted", f5.at(), "it is not noted that the filter rejected the point", st.path())
        elif rej is True:
            r.check(t == FALSE, "R1", "rejection by the filter is noted", f5.at(), "it is not noted that the point was not rejected by the filter", st.path())
    # the filter reset heuristic
    n = 0
    for v, cf, st, eng, cl in paths(m, f5)[0]:
        c = Cond(cf)
        acts = dict(st.prop).get(('acts',), ())
        if any(a[0] in ("Reset", "Clear") for a in acts):
            n += 1
            r.check(AND(c.cmp('<', C(0), mem("max_filter_resets_")), c.cmp('<', mem("n_filter_resets_"), mem("max_filter_resets_")), c.is_(mem("last_rejection_due_to_filter_"))) is True and
                    c.cmp('<=', mem("filter_reset_trigger_"), mem("count_successive_filter_rejections_") + C(1)) is True, "R1", "filter reset, condition", f5.at(),
                    "the filter is emptied although not filter_reset_trigger successive rejections were due to the filter, or the number of resets is used up", st.path())
            t = canon(cl.term(eng, st, eng.read(st, ('f', ('this',), F + "::n_filter_resets_"))))
            r.check(c.eq(t, mem("n_filter_resets_") + C(1)), "R1", "filter reset, count", f5.at(), "the filter is emptied without counting it: max_filter_resets does not limit the number", st.path())
    r.check(n > 0, "R1", "filter reset", f5.at(), "the filter is never reset")
    # what enters the filter
    f6 = get(m, F, "AugmentFilter")
    for v, cf, st, eng, cl in paths(m, f6)[0]:
        acts = dict(st.prop).get(('acts',), ())
        r.check(len(acts) == 1 and acts[0][0] == "AddEntry" and Cond(cf).eq(acts[0][1], barr - mem("gamma_phi_") * theta) and Cond(cf).eq(acts[0][2], (C(1) - mem("gamma_theta_")) * theta),
                "R1", "filter entry", f6.at(), "the entry is not (barrier objective - gamma_phi theta, (1-gamma_theta) theta) of the reference point", st.path())
    f7 = get(m, F, "UpdateForNextIteration")
    for v, cf, st, eng, cl in paths(m, f7)[0]:
        c = Cond(cf)
        aug = any(a[0] == "AugmentFilter" for a in dict(st.prop).get(('acts',), ()))
        w = OR(NOT(c.is_(fn("IsFtype", alpha))), NOT(c.is_(fn("ArmijoHolds", alpha))))
        r.check(w is aug, "R1", "filter augmentation", f7.at(), "the filter must be augmented exactly if the switching or the Armijo condition does not hold for the accepted step", st.path())
    f8 = get(m, F, "CalculateAlphaMin")
    ct, gb = fn("curr_constraint_violation"), fn("curr_gradBarrTDelta")

    def amin(c):
        d = c.cmp('<', gb, C(0))
        if d is None:
            return None
        if not d:
            return mem("alpha_min_frac_") * mem("gamma_theta_")
        near = c.cmp('<=', ct, mem("theta_min_"))
        x, y = mem("gamma_phi_") * ct / (-gb), mem("delta_") * pow_(ct, mem("s_theta_")) / pow_(-gb, mem("s_phi_"))
        if near is None:
            return None
        return mem("alpha_min_frac_") * (smin(mem("gamma_theta_"), x, y) if near else smin(mem("gamma_theta_"), x))
    value(r, m, "R1", f8, amin, "the minimal step size is alpha_min_frac times the smallest of gamma_theta, gamma_phi theta/(-slope), and delta theta^s_theta/(-slope)^s_phi near feasibility")
    refs(m, r, F, ("reference_theta_", "reference_barr_", "reference_gradBarrTDelta_"), ("watchdog_theta_", "watchdog_barr_", "watchdog_gradBarrTDelta_"))
    f9 = get(m, F, "Reset")
    for v, cf, st, eng, cl in paths(m, f9)[0]:
        rd = lambda x: canon(cl.term(eng, st, eng.read(st, ('f', ('this',), F + "::" + x))))
        r.check(any(a[0] == "Clear" for a in dict(st.prop).get(('acts',), ())), "R1", "FilterLSAcceptor::Reset empties", f9.at(), "the filter is not emptied", st.path())
        r.check(rd("last_rejection_due_to_filter_") == FALSE and rd("count_successive_filter_rejections_") == FALSE, "R1", "FilterLSAcceptor::Reset forgets rejections", f9.at(), "earlier rejections by the filter are kept", st.path())
    # tolerance comparison
    f10 = get(m, "Ipopt", "Compare_le")
    lhs, rhs, bv = (par(f10.p[i]["n"]) for i in range(3))

    def cle(c, st):
        return OR(*[x for x in (c.cmp('<=', lhs - rhs, C(10.) * eps * fn("abs", bv)),)])
    decide(r, m, "R1", f10, cle, "a <= b up to rounding is: a - b <= 10 eps |base value|")
    return [f1, f2, f3, f4, f5, f6, f7, f8, f9, f10]


def refs(m, r, cls, ref, wd):
    """reference values: those of the current iterate, or of the iterate at which the watchdog started"""
    cur = {"theta_": fn("curr_constraint_violation"), "barr_": fn("curr_barrier_obj"), "gradBarrTDelta_": fn("curr_gradBarrTDelta")}
    f = get(m, cls, "InitThisLineSearch")
    for v, cf, st, eng, cl in paths(m, f)[0]:
        w = Cond(cf).is_(par(f.p[0]["n"]))
        for x in ref:
            k = x.split("_", 1)[1]
            t = canon(cl.term(eng, st, eng.read(st, ('f', ('this',), cls + "::" + x))))
            want = mem("watchdog_" + k) if w else cur[k]
            r.check(w is not None and matches(t, ca(want)), "R1", "%s::%s %s" % (cls.split("::")[-1], x, "watchdog" if w else "current"), f.at(), "%s is %s at the start of a line search" % (x, text(t)[:150]), st.path())
    if cls == F:
        f = get(m, cls, "StartWatchDog")
        for v, cf, st, eng, cl in paths(m, f)[0]:
            for x in wd:
                t = canon(cl.term(eng, st, eng.read(st, ('f', ('this',), cls + "::" + x))))
                r.check(matches(t, ca(cur[x.split("_", 1)[1]])), "R1", "StartWatchDog " + x, f.at(), "%s is %s" % (x, text(t)[:150]), st.path())
        f = get(m, cls, "StopWatchDog")
        for v, cf, st, eng, cl in paths(m, f)[0]:
            for x in ref:
                t = canon(cl.term(eng, st, eng.read(st, ('f', ('this',), cls + "::" + x))))
                r.check(matches(t, ca(mem("watchdog_" + x.split("_", 1)[1]))), "R1", "StopWatchDog " + x, f.at(), "%s is %s" % (x, text(t)[:150]), st.path())


# ------------------------------------------------------------------ the filter
def container(m, r):
    E_, FI = "Ipopt::FilterEntry", "Ipopt::Filter"
    seen = []
    for nm, some in (("Acceptable", True), ("Dominated", False)):
        f = get(m, E_, nm)
        seen.append(f)
        n = 0
        for st, v, log, fs, eng, cl in oruns(m, f):
            size = lambda t: pure(t, "size") or pure(t, "length")
            old = lambda t: "vals_" in str(t) and not size(t)
            new = lambda t: "vals_" not in str(t) and t[0] == 'r' and t[1][0] == 'm'
            leq = any(o == '<=' and new(a) and old(b) for o, a, b in fs)
            gt = any(o == '<' and old(a) and new(b) for o, a, b in fs)
            odd = any(o in ('<', '<=') and old(a) and old(b) or o == '<' and new(a) and old(b) or o == '<=' and old(a) and new(b) for o, a, b in fs)
            done = any(o == '<=' and size(a) for o, a, b in fs)
            odd = odd or any(old(a) and new(b) and a[1][2] != b[1][2] or new(a) and old(b) and a[1][2] != b[1][2] for o, a, b in fs)
            # the coordinates below a known length were all looked at
            for o, a, b in fs:
                if o == '<' and size(b) and a[0] == 'c':
                    r.check(any((old(x) or new(x)) and x[1][2] == a for _, x, _y in fs), "R2", "FilterEntry::%s coordinates" % nm, f.at(), "coordinate %s is not compared" % a[1], st.path())
            r.check(not odd, "R2", "FilterEntry::%s comparison" % nm, f.at(), "the coordinates are compared the wrong way around, strictly, or with another coordinate", st.path())
            if v == ('c', 1 if some else 0):
                n += 1
                r.check(leq if some else gt, "R2", "FilterEntry::%s found" % nm, f.at(), "the result is given without a coordinate that decides it", st.path())
            else:
                r.check(v == ('c', 0 if some else 1) and done, "R2", "FilterEntry::%s none" % nm, f.at(), "the result is given before all coordinates were compared", st.path())
        r.check(n > 0, "R2", "FilterEntry::%s" % nm, f.at(), "no coordinate can decide")
    # the list: acceptable iff every entry accepts; a new entry replaces those it dominates
    fs2 = [f for f in m.fns.values() if f.f == FI + "::Acceptable" and f.body is not None]
    vec = [f for f in fs2 if len(f.p) == 1]
    two = [f for f in fs2 if len(f.p) == 2]
    add = [f for f in m.fns.values() if f.f == FI + "::AddEntry" and f.body is not None]
    if len(vec) != 1 or len(two) != 1 or len(add) != 2:
        raise AnalysisError("Filter::Acceptable, AddEntry not found")

    def asked(fs, nm):
        """all entries that were visited were asked"""
        if any("'j'" in str(x) for x in fs):
            return True             # a later round of the loop
        visited = [x for x in fs if x[0] == '!=' and any(pure(t, "end") for t in x[1:])]
        return len({x for x in fs if pure(x[1], nm)}) >= len(visited)
    f = vec[0]
    seen.append(f)
    acc = lambda t: pure(t, "Acceptable")
    for st, v, log, fs, eng, cl in lruns(m, f, ("Acceptable",)):
        rej = any(o == '==' and acc(a) and b == ('c', 0) for o, a, b in fs)
        end = any(o == '==' and (pure(a, "end") or pure(b, "end")) for o, a, b in fs)
        v = truth(v, fs)
        if v == 0:
            r.check(rej, "R2", "Filter::Acceptable no", f.at(), "a point is refused although no entry refuses it", st.path())
        else:
            r.check(v == 1 and not rej and end, "R2", "Filter::Acceptable yes", f.at(), "a point is accepted before all entries were asked, or although one refused it", st.path())
            r.check(asked(fs, "Acceptable"), "R2", "Filter::Acceptable asks every entry", f.at(), "a point is accepted although an entry was passed over", st.path())
    f = [g for g in add if len(g.p) == 2][0]
    seen.append(f)
    for st, v, log, fs, eng, cl in lruns(m, f, ("Dominated",)):
        er = [x for x in log if x[0] == "erase"]
        push = [x for x in log if x[0] in ("push_back", "push_front", "insert", "emplace_back")]
        dom = any(o == '!=' and pure(a, "Dominated") and b == ('c', 0) for o, a, b in fs)
        r.check(len(push) == 1 and log[-1] in push, "R2", "Filter::AddEntry adds", f.at(), "the new entry is not added", st.path())
        r.check(asked(fs, "Dominated"), "R2", "Filter::AddEntry asks every entry", f.at(), "an entry is passed over", st.path())
        r.check(not dom or bool(er), "R2", "Filter::AddEntry drops dominated", f.at(), "a dominated entry stays in the filter", st.path())
        r.check(not er or dom or "'j'" in str(er) or "'s'" in str(er), "R2", "Filter::AddEntry removes", f.at(), "an entry is removed that the new one does not dominate", st.path())
    er = [n for n in f.nodes() if n["k"] == "call" and short(n) in ("erase", "remove", "remove_if")]
    r.check(bool(er), "R2", "Filter::AddEntry dominated", f.at(), "dominated entries are not removed")
    # order of the two coordinates
    orders = []
    for g in two + [h for h in add if len(h.p) == 3]:
        seen.append(g)
        o = {}
        for n in g.nodes():
            from sa.loops import strip
            if n["k"] in ("bin", "call") and (n.get("op") == "=" or short(n) in ("operator=",)):
                a, b = (n["a"], n["b"]) if n["k"] == "bin" else (n.get("o") or n["a"][0], n["a"][-1])
                a, b = strip(a), strip(b)
                ix = a["a"][-1] if a["k"] == "call" and a.get("a") else a.get("b")
                ix = strip(ix) if isinstance(ix, dict) else None
                while ix and ix["k"] == "cast":
                    ix = strip(ix["e"])
                if ix and ix["k"] == "int" and b["k"] == "ref":
                    o[ix["v"]] = [p["n"] for p in g.p].index(b["n"]) if b["n"] in [p["n"] for p in g.p] else None
        orders.append((g, o))
    r.check(all(o == orders[0][1] and sorted(map(str, o.values())) == ["0", "1"] for g, o in orders), "R2", "order of coordinates", two[0].at(), "the two coordinates are not stored and compared in the same order")
    return seen


class Lst(Opt):
    logged = frozenset({"erase", "push_back", "push_front", "insert", "emplace_back"})


def lruns(m, f, pures):
    cl = Lst(m, opaque=lambda n: False)
    cl.keep, cl.consts = (), set()
    cl.pure = Opt.pure | set(pures)
    eng = engine(m, cl, 400)
    eng.termdepth = 60
    rets, thrown = eng.run(f, frozenset())
    return [(st, eng.norm(st, v), dict(st.prop).get(('log',), ()), cl.factterms(eng, st), eng, cl) for st, v in rets]


def truth(v, fs):
    if v[0] == 'c':
        return v[1]
    for o, a, b in fs:
        if a == v and b == ('c', 0):
            return 1 if o == '!=' else 0 if o == '==' else None
    return None


# ------------------------------------------------------------------ penalty function line search
PERT = {"x": 0, "s": 1}


def penalty(m, r):
    nu, eta, pred0 = mem("nu_"), mem("eta_"), mem("reference_pred_")
    f1 = get(m, PEN, "CheckAcceptabilityOfTrialPoint")
    ared = barr + nu * theta - (tb + nu * tt)

    def acc(c, st):
        comp = c.cmp('<', pred0, C(0))
        if comp is None:
            return None
        return le(c, eta * (fn("CalcPred", alpha) if comp else pred0), ared, barr + nu * theta)
    decide(r, m, "R3", f1, acc, "a trial point is accepted iff the actual reduction of the penalty function is at least eta times the predicted one")
    f2 = get(m, PEN, "IsAcceptableToCurrentIterate")
    pb, pt = par("trial_barr"), par("trial_theta")
    decide(r, m, "R3", f2, lambda c, st: le(c, eta * mem("resto_pred_"), barr + nu * theta - (pb + nu * pt), barr + nu * theta), "in restoration: iff the actual reduction is at least eta times the predicted one")
    for v, cf, st, eng, cl in paths(m, f1)[0]:
        c = Cond(cf)
        t = canon(cl.term(eng, st, eng.read(st, ('f', ('this',), PEN + "::resto_pred_"))))
        r.check(matches(t, ca(fn("CalcPred", alpha) if c.cmp('<', pred0, C(0)) else pred0)), "R3", "prediction kept for restoration", f1.at(), "resto_pred_ is %s" % text(t)[:120], st.path())
    f3 = get(m, PEN, "CalcPred")
    a = par(f3.p[0]["n"])
    th2 = fn("CalcNormOfType", fn("constr_viol_normtype"), fn("curr_c") + a * mem("reference_JacC_delta_"), fn("curr_d_minus_s") + a * mem("reference_JacD_delta_"))
    p = -a * slope - a * a / C(2.) * mem("reference_dWd_") + nu * (theta - th2)
    value(r, m, "R3", f3, lambda c: C(0) if c.cmp('<', p, C(0)) else p if c.cmp('<', p, C(0)) is False else None,
          "the predicted reduction is -alpha slope - alpha^2/2 d^T W d + nu (theta - |c + alpha J d|), and not negative")
    f4 = get(m, PEN, "InitThisLineSearch")
    refs(m, r, PEN, ("reference_theta_", "reference_barr_"), ())
    n = 0
    for v, cf, st, eng, cl in paths(m, f4)[0]:
        c = Cond(cf)
        rd = lambda x: canon(cl.term(eng, st, eng.read(st, ('f', ('this',), PEN + "::" + x))))
        if c.is_(par(f4.p[0]["n"])):
            continue
        cv, gb = fn("curr_constraint_violation"), fn("curr_gradBarrTDelta")
        # curvature along the step, with the perturbation that was used
        dx, ds = fn("x", fn("delta")), fn("s", fn("delta"))
        raw = fn("Dot", N(fn("W"), dx), dx) + fn("Dot", vp(dx, fn("curr_sigma_x")), dx) + fn("Dot", vp(ds, fn("curr_sigma_s")), ds)
        for k, (d, i) in (("x", (dx, 0)), ("s", (ds, 2))):
            pert = out("getPDPert", PERT[k])
            nz = c.cmp('!=', pert, C(0))
            if nz is None or nz:
                raw = raw + pert * fn("Nrm2", d) * fn("Nrm2", d)
        dwd = raw if c.cmp('>', raw, C(0)) else C(0) if c.cmp('<=', raw, C(0)) else None
        r.check(dwd is not None and c.eq(rd("reference_dWd_"), dwd), "R3", "curvature along the step", f4.at(), "reference_dWd_ is %s" % text(rd("reference_dWd_"))[:200], st.path())
        r.check(c.eq(rd("reference_JacC_delta_"), fn("curr_jac_c_times_vec", dx)) and c.eq(rd("reference_JacD_delta_"), fn("curr_jac_d_times_vec", dx) - ds), "R3", "linearized constraints", f4.at(),
                "reference_JacC_delta_, reference_JacD_delta_ are %s, %s" % (text(rd("reference_JacC_delta_"))[:100], text(rd("reference_JacD_delta_"))[:100]), st.path())
        pos = c.cmp('<', C(0), cv)
        nu1 = rd("nu_")
        if dwd is None:
            continue
        plus = (gb + dwd / C(2.)) / ((C(1.) - mem("rho_")) * cv)
        less = AND(pos, c.cmp('<', nu, plus))
        if less:
            n += 1
        r.check(less is not None and c.eq(nu1, plus + mem("nu_inc_") if less else nu), "R3", "penalty parameter %s" % ("raised" if less else "kept"), f4.at(),
                "the penalty parameter must be raised to (slope + dWd/2)/((1-rho) theta) + nu_inc if it is below that threshold, and else kept; it is %s" % text(nu1)[:150], st.path())
        r.check(c.eq(rd("last_nu_"), nu), "R3", "previous penalty parameter", f4.at(), "last_nu_ is %s" % text(rd("last_nu_"))[:100], st.path())
        r.check(matches(rd("reference_pred_"), ca(C(-1.))), "R3", "prediction reset", f4.at(), "the predicted reduction of the previous step is kept", st.path())
    r.check(n > 0, "R3", "penalty parameter update", f4.at(), "the penalty parameter is never updated")
    return [f1, f2, f3, f4]


# ------------------------------------------------------------------ line search and restoration
class Judge(Guard):
    """state: (did the last test accept the trial point, the step size it was computed with)"""

    def merge_key(s, eng, st):
        return st.prop

    def on_call(s, eng, st, n, fns, obj, args):
        b = short(n)
        j, al = st.prop or (False, None)
        if b == "CheckAcceptabilityOfTrialPoint":
            eng.pending.append(("Ipopt::IpoptNLP::Eval_Error", st.withprop((False, al)).step("%s raises Eval_Error" % b)))
            return [(st.withprop((k, al)).step("%s says %s" % (b, "yes" if k else "no")), ('c', int(k))) for k in (True, False)]
        if b == "SetTrialPrimalVariablesFromStep":
            return [(st.withprop((False, s.val(eng, st, args[0]))), ('void',))]
        return super().on_call(eng, st, n, fns, obj, args)


def search(m, r):
    f1 = get(m, BLS, "DoBacktrackingLineSearch")
    judges = ("CheckAcceptabilityOfTrialPoint", "TryCorrector", "TrySecondOrderCorrection")
    ps, thrown = paths(m, f1, forks=judges, raises=lambda n: ("Ipopt::IpoptNLP::Eval_Error",) if short(n) in ("trial_barrier_obj", "trial_constraint_violation") else ())
    n = 0
    for v, cf, st, eng, cl in ps:
        c = Cond(cf)
        j = dict(st.prop).get(('judge',))
        if v == TRUE:
            n += 1
            r.check(j is not None, "R4", "accepted step was judged", f1.at(), "a step is accepted although the last test refused it or was interrupted by an evaluation error", st.path())
        else:
            r.check(v == FALSE and j in (None, "anyway"), "R4", "refused step was judged", f1.at(), "a step is refused although a test accepted it", st.path())
    r.check(n > 0, "R4", "steps can be accepted", f1.at(), "no step is ever accepted")
    f2 = get(m, BLS, "DetectTinyStep")
    tol = mem("tiny_step_tol_")
    rel = lambda k: fn("Amax", vq(fn(k, fn("delta")), ones + upd("ElementWiseAbs", fn(k, fn("curr")))))

    def tiny(c, st):
        return AND(c.cmp('!=', tol, C(0)), c.cmp('<=', rel("x"), tol), c.cmp('<=', rel("s"), tol), c.cmp('<=', fn("curr_constraint_violation"), C(1e-4)))
    decide(r, m, "R4", f2, tiny, "a step is tiny iff the test is on, |d|/(1+|x|) is at most tiny_step_tol for all variables and slacks, and the constraint violation is at most 1e-4")
    f3 = get(m, BLS, "TrySoftRestoStep")
    fac = mem("soft_resto_pderror_reduction_factor_")
    judged = fn("CheckAcceptabilityOfTrialPoint", C(0))
    ps, thrown = paths(m, f3, forks=("CheckAcceptabilityOfTrialPoint",), raises=lambda n: ("Ipopt::IpoptNLP::Eval_Error",) if short(n) in ("trial_primal_dual_system_error", "curr_primal_dual_system_error", "trial_barrier_obj", "trial_constraint_violation") else ())
    yes = 0
    for v, cf, st, eng, cl in ps:
        c = Cond(cf)
        j = dict(st.prop).get(('judge',))
        sat = canon(cl.term(eng, st, eng.read(st, ('p', "satisfies_original_criterion"))))
        mu = C(0) if c.is_(fn("FreeMuMode")) else fn("curr_mu")
        red = c.cmp('<=', fn("trial_primal_dual_system_error", mu), fac * fn("curr_primal_dual_system_error", mu))
        if v == TRUE:
            yes += 1
            r.check(j is not None and sat == TRUE or sat == FALSE and red is True, "R4", "soft restoration step accepted", f3.at(),
                    "a step is accepted that neither passes the regular test nor reduces the primal-dual error by the required factor, or the caller is told the wrong reason", st.path())
        else:
            r.check(v == FALSE and j is None, "R4", "soft restoration step refused", f3.at(), "a step that passes the regular test is refused", st.path())
        if red is True and j is None and v != TRUE:
            r.check(False, "R4", "soft restoration step refused", f3.at(), "a step is refused although it reduces the primal-dual error", st.path())
    r.check(yes >= 2, "R4", "soft restoration", f3.at(), "steps are not accepted for both reasons")
    # corrected steps
    more = []
    for cls, nm in ((F, "TrySecondOrderCorrection"), (F, "TryCorrector"), (PEN, "TrySecondOrderCorrection"), (PEN, "TryCorrector")):
        f = get(m, cls, nm)
        more.append(f)
        yes, calls = 0, any(short(n) == "CheckAcceptabilityOfTrialPoint" for n in f.calls())
        eng = engine(m, Judge(m), 400)
        for st, v in eng.run(f, None)[0]:
            j, al = st.prop or (False, None)
            v = eng.norm(st, v)
            if v == ('c', 1):
                yes += 1
                r.check(j, "R4", "%s accepted" % short_name(f), f.at(), "a corrected step is accepted although the test of the trial point refused it", st.path())
                a = eng.norm(st, eng.read(st, ('p', f.p[1]["n"])))
                r.check(a == al, "R4", "%s step size" % short_name(f), f.at(), "the step size handed back is not the one of the accepted trial point", st.path())
            else:
                r.check(v == ('c', 0) and not j, "R4", "%s refused" % short_name(f), f.at(), "a corrected step is refused although the test accepted the trial point", st.path())
        r.check(yes > 0 or not calls, "R4", "%s can accept" % short_name(f), f.at(), "no corrected step is ever accepted")
    # end of the restoration phase
    f4 = get(m, "Ipopt::RestoFilterConvergenceCheck", "TestOrigProgress")
    ob, ot = par("orig_trial_barr"), par("orig_trial_theta")
    ls = mem("orig_filter_ls_acceptor_")
    decide(r, m, "R5", f4, lambda c, st: AND(c.is_(fn("IsAcceptableToCurrentFilter", ls, ob, ot)), c.is_(fn("IsAcceptableToCurrentIterate", ls, ob, ot, C(1)))),
           "the point found by restoration is taken iff it is acceptable to the original filter and to the iterate at which restoration started")
    f5 = get(m, "Ipopt::RestoPenaltyConvergenceCheck", "TestOrigProgress")
    decide(r, m, "R5", f5, lambda c, st: c.is_(fn("IsAcceptableToCurrentIterate", mem("orig_penalty_ls_acceptor_"), ob, ot, C(1))), "the point found by restoration is taken iff it is acceptable to the iterate at which restoration started")
    f6 = get(m, RC, "CheckConvergence")
    done(m, r, f6)
    return [f1, f2, f3, f4, f5, f6] + more


def done(m, r, f):
    """restoration ends with success only for a point with less infeasibility that the original problem accepts"""
    ocq, od = fn("OrigIpCq"), fn("OrigIpData")
    ctol = smin(fn("tol", od), mem("orig_constr_viol_tol_"))
    tip, cip = fn("trial_primal_infeasibility", ocq, C(2)), fn("curr_primal_infeasibility", ocq, C(2))
    square = fn("IsSquareProblem", ocq)
    ps, thrown = paths(m, f, cap=4000)
    n = 0
    for v, cf, st, eng, cl in ps:
        c = Cond(cf)
        tested = v[:2] == ('fn', "TestOrigProgress") or any(x[:2] == ('fn', "TestOrigProgress") and o == '==' and b == TRUE for o, x, b in cf)
        own = v[:2] == ('fn', "CheckConvergence") or any(x[:2] == ('fn', "CheckConvergence") and o == '==' for o, x, b in cf)
        if not (tested or v == TRUE):
            continue
        n += 1
        sq = AND(c.is_(square), c.cmp('<=', tip, ctol))
        lim = smax(mem("kappa_resto_") * cip, ctol)
        zero = c.cmp('==', mem("kappa_resto_"), C(0))
        red = c.cmp('<=', tip, C(0)) if zero else c.cmp('<=', tip, lim)
        r.check(sq is True or tested and red is True, "R5", "end of restoration", f.at(),
                "restoration ends with success for a point whose infeasibility was not reduced by kappa_resto, or that was not tested against the original problem", st.path())
        r.check(c.is_(mem("first_resto_iter_")) is False, "R5", "first restoration iteration", f.at(), "restoration may end before its first iteration", st.path())
    r.check(n >= 2, "R5", "end of restoration found", f.at(), "no path ends restoration")


def run(m, r):
    r.rule("R1", "filter line search: switching, Armijo, sufficient reduction and filter conditions, minimal step size, filter entries, resets and reference values follow their documented definitions, and a trial point is accepted exactly if they say so")
    r.rule("R2", "the filter refuses exactly the points that some entry dominates, and a new entry replaces only entries it dominates")
    r.rule("R3", "penalty line search: predicted and actual reduction, their test, and the penalty parameter update follow their definitions")
    r.rule("R4", "the line search hands over a step only after one of its tests accepted it; tiny and soft restoration steps are recognized by their documented tests")
    r.rule("R5", "restoration ends with success only for a point that is sufficiently less infeasible and acceptable to the original line search")
    seen = filterls(m, r) + container(m, r) + penalty(m, r) + search(m, r)
    r.analysed(seen)
    for rule, n in (("R1", 150), ("R2", 20), ("R3", 40), ("R4", 60), ("R5", 20)):
        r.floor(rule, n, "instances")

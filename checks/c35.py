"""C35: how the linear systems of the step computation are regularized."""
import itertools
from sa.guards import short, engine, Guard
from sa.quant import Quant
from sa.engine import subs
from sa.spec import E, fn, mem, par, canon, text, cfacts, smax
from sa.db import AnalysisError
from sa.par import parallel
from checks.c18 import Acc, Cond, get, ca

PH = "Ipopt::PDPerturbationHandler"
SYM = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}
FIELDS = tuple("delta_%s_%s_" % (v, w) for w in ("curr", "last") for v in "xscd") + ("hess_degenerate_", "jac_degenerate_", "test_status_", "degen_iters_")
OUT = ("delta_x", "delta_s", "delta_c", "delta_d")
C = lambda x: E(('c', x))


class Hand(Acc):
    def merge_key(s, eng, st):
        watch = {('r', ('f', ('this',), PH + '::' + f)) for f in s.watched} | {('r', ('p', k)) for k in OUT}
        about = lambda d: frozenset((k, v if not isinstance(v, set) else frozenset(v)) for k, v in d.items() if any(t in watch for t in subs(k)))
        return (super().merge_key(eng, st), about(st.bind), about(st.ne), about(st.cons))
    watched = ()
    keepfacts = True

    def on_call(s, eng, st, n, fns, obj, args):
        if n["k"] == "call" and short(n) == "Set_info_regu_x":
            return [(s.put(st, ('shown',), eng.norm(st, args[0])), ('void',))]
        return super().on_call(eng, st, n, fns, obj, args)


class Fork(Exception):
    pass


class Replay:
    """the documented rules, run under the facts of a path"""

    def __init__(s, c, sc):
        s.c, s.sc = c, sc
        s.v = {f: C(sc[f]) if f in sc else mem(f) for f in FIELDS}
        s.ret = None
        s.shown = None

    def is_(s, o, a, b):
        k = s.c.cmp(o, a, b)
        if k is None:
            raise Fork(o, ca(a) if isinstance(a, E) else a, ca(b) if isinstance(b, E) else b)
        return k

    def truth(s, t):
        return s.is_('!=', t, C(0))

    def eq(s, f, k):
        return s.is_('==', s.v[f], C(k))


def replay(cf, prog, sc):
    """(facts, outcome) of every case"""
    work, done = [frozenset(cf)], []
    while work:
        cf = work.pop()
        if len(work) + len(done) > 400:
            raise AnalysisError("the cases of the reference do not end")
        c = Cond(cf)
        if c.empty:
            continue
        x = Replay(c, sc)
        try:
            prog(x)
        except Fork as e:
            o, a, b = e.args
            work += [cf | {(o, a, b)}, cf | {(SYM[o], a, b)}]
            continue
        done.append((c, x))
    return done


def rules(m):
    ec = {n: k for e in ("DegenType", "TrialStatus") for n, k in enum(m, "Ipopt::PDPerturbationHandler::" + e).items()}
    NYD, NOT, DEG = (ec[k] for k in ("NOT_YET_DETERMINED", "NOT_DEGENERATE", "DEGENERATE"))
    NO, T00, T10, T01, T11 = (ec[k] for k in ("NO_TEST", "TEST_DELTA_C_EQ_0_DELTA_X_EQ_0", "TEST_DELTA_C_GT_0_DELTA_X_EQ_0", "TEST_DELTA_C_EQ_0_DELTA_X_GT_0", "TEST_DELTA_C_GT_0_DELTA_X_GT_0"))
    cd = mem("delta_cd_val_") * fn("pow", fn("curr_mu"), mem("delta_cd_exp_"))

    def put(x, **k):
        for f, v in k.items():
            x.v[f] = v

    def grow(x):
        """next perturbation of the Hessian"""
        cur, last = x.v["delta_x_curr_"], x.v["delta_x_last_"]
        if x.is_('==', cur, C(0)):
            new = mem("delta_xs_init_") if x.is_('==', last, C(0)) else smax(mem("delta_xs_min_"), last * mem("delta_xs_dec_fact_"))
        elif x.is_('==', last, C(0)) or x.is_('<', C(1e5) * last, cur):
            new = mem("delta_xs_first_inc_fact_") * cur
        else:
            new = mem("delta_xs_inc_fact_") * cur
        x.v["delta_x_curr_"] = new
        if x.is_('>', new, mem("delta_xs_max_")):
            put(x, delta_x_last_=C(0), delta_s_last_=C(0))
            return False
        x.v["delta_s_curr_"] = new
        return True

    def count(x, *fs):
        x.v["degen_iters_"] = x.v["degen_iters_"] + 1
        if x.is_('>=', x.v["degen_iters_"], mem("degen_iters_max_")):
            for f in fs:
                x.v[f] = C(DEG)

    def settle(x):
        """what the factorization that succeeded (or failed for another reason) tells"""
        h, j = "hess_degenerate_", "jac_degenerate_"
        ts = next((t for t in (T00, T10, T01, T11) if x.eq("test_status_", t)), NO)
        if ts == T00:
            for f in (h, j):
                if x.eq(f, NYD):
                    x.v[f] = C(NOT)
        elif ts == T10:
            if x.eq(h, NYD):
                x.v[h] = C(NOT)
            if x.eq(j, NYD):
                count(x, j)
        elif ts == T01:
            if x.eq(j, NYD):
                x.v[j] = C(NOT)
            if x.eq(h, NYD):
                count(x, h)
        elif ts == T11:
            count(x, h, j)

    def use(x):
        x.ret = 1
        x.shown = x.v["delta_x_curr_"]

    def new(x):
        settle(x)
        for v in "xscd":
            if x.sc["reset_last_"] or x.is_('>', x.v["delta_%s_curr_" % v], C(0)):
                x.v["delta_%s_last_" % v] = x.v["delta_%s_curr_" % v]
        open_ = x.eq("hess_degenerate_", NYD) or x.eq("jac_degenerate_", NYD)
        always = x.sc["perturb_always_cd_"]
        x.v["test_status_"] = C((T10 if always else T00) if open_ else NO)
        d = cd if x.eq("jac_degenerate_", DEG) or always else C(0)
        put(x, delta_c_curr_=d, delta_d_curr_=d, delta_x_curr_=C(0), delta_s_curr_=C(0))
        if x.eq("hess_degenerate_", DEG) and not grow(x):
            x.ret = 0
            return
        use(x)

    def singular(x):
        if x.eq("hess_degenerate_", NYD) or x.eq("jac_degenerate_", NYD):
            ts = next((t for t in (T00, T10, T01, T11) if x.eq("test_status_", t)), NO)
            if ts == NO:
                x.ret = "any"       # cannot happen: a test is on while something is not determined
                return
            if ts == T00 and x.eq("jac_degenerate_", NYD):
                put(x, delta_c_curr_=cd, delta_d_curr_=cd, test_status_=C(T10))
            else:
                nxt = T01 if ts == T00 else T11
                if ts == T10 and not x.sc["perturb_always_cd_"]:
                    put(x, delta_c_curr_=C(0), delta_d_curr_=C(0))
                    nxt = T01
                elif ts == T01:
                    put(x, delta_c_curr_=cd, delta_d_curr_=cd)
                if not grow(x):
                    x.ret = 0
                    return
                x.v["test_status_"] = C(nxt)
        elif x.is_('>', x.v["delta_c_curr_"], C(0)):
            if not grow(x):
                x.ret = 0
                return
        else:
            put(x, delta_c_curr_=cd, delta_d_curr_=cd)
        use(x)

    def inertia(x):
        c0 = x.v["delta_c_curr_"]
        settle(x)
        if grow(x):
            use(x)
            return
        if not x.is_('==', c0, C(0)):
            x.ret = 0
            return
        put(x, delta_c_curr_=cd, delta_d_curr_=cd, delta_x_curr_=C(0), delta_s_curr_=C(0), test_status_=C(NO))
        if x.eq("hess_degenerate_", DEG):
            x.v["hess_degenerate_"] = C(NYD)
        if grow(x):
            use(x)
        else:
            x.ret = 0

    def current(x):
        x.ret = 1
    return (("R1", "ConsiderNewSystem", new, "the first perturbation of a system"), ("R2", "PerturbForSingularity", singular, "the perturbation after a singular system"),
            ("R3", "PerturbForWrongInertia", inertia, "the perturbation after a wrong inertia"), ("R4", "CurrentPerturbation", current, "the perturbation that is used again"))


def enum(m, name):
    if name not in m.enums:
        raise AnalysisError("enumeration %s not found" % name)
    return {x["n"].rsplit("::", 1)[-1]: int(x["v"]) for x in m.enums[name][0]["vals"]}


def sync(t):
    """what the caller passes in is what it was given last"""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'par' and t[1] in OUT:
            return ('sym', t[1] + "_curr_")
        return tuple(sync(x) for x in t)
    return t


def handler(m, r, which, degenerate):
    for rule, name, prog, what in rules(m):
        if name != which:
            continue
        f = get(m, PH, name)
        cl = Hand(m, inline=lambda g: g.c == PH and g.body is not None and g.kind not in ("ctor", "dtor"), opaque=Quant(m, extract=False).opaque)
        watched = FIELDS + ("delta_xs_max_", "delta_xs_min_", "delta_xs_init_", "delta_xs_dec_fact_", "delta_xs_inc_fact_", "delta_xs_first_inc_fact_", "degen_iters_max_")
        cl.watched = watched
        degen, tests = enum(m, PH + "::DegenType").values(), enum(m, PH + "::TrialStatus").values()
        rets = []
        for sc in itertools.product((degenerate,), degen, tests, (0, 1), (0, 1) if name == "ConsiderNewSystem" else (0,)):
            sc = dict(zip(("hess_degenerate_", "jac_degenerate_", "test_status_", "perturb_always_cd_", "reset_last_"), sc))
            eng = engine(m, cl, 3000)
            eng.termdepth = 60
            eng.compound = eng.incs = True

            def setup(e, st):
                st = st.copy()
                for k, x in sc.items():
                    st.env[('f', ('this',), PH + "::" + k)] = ('c', x)
                return st
            rets += [(sc, eng) + x for x in eng.run(f, frozenset((('keep', w), ('r', ('f', ('this',), PH + '::' + w))) for w in watched) | frozenset((('keep', k), ('r', ('p', k))) for k in OUT), setup)[0]]
        for sc, eng, st, v in rets:
            cf = {(o, sync(a), sync(b)) for o, a, b in cfacts(cl.factterms(eng, st))}
            got = {k: sync(canon(cl.term(eng, st, eng.norm(st, eng.read(st, ('f', ('this',), PH + '::' + k)))))) for k in FIELDS}
            outs = {k: sync(canon(cl.term(eng, st, eng.norm(st, eng.read(st, ('p', k)))))) for k in OUT}
            rv = canon(cl.term(eng, st, v)) if name != "CurrentPerturbation" else ('n', 1.0)
            for c, x in replay(cf, prog, sc):
                if x.ret == "any":
                    continue
                bad = []
                if rv[0] != 'n' or bool(rv[1]) != bool(x.ret):
                    bad.append("success is reported" if rv[0] == 'n' and rv[1] else "failure is reported")
                for k in FIELDS:
                    # after a failure the values for this matrix no longer count
                    if not x.ret and "_curr_" in k or k == "delta_s_last_" and not x.ret:
                        continue
                    if not c.eq(got[k], x.v[k]):
                        bad.append("%s is %s, not %s" % (k, text(got[k])[:80], text(ca(x.v[k]))[:80]))
                if x.ret:
                    for k in OUT:
                        if not c.eq(outs[k], x.v[k + "_curr_"]):
                            bad.append("the caller's %s is %s, not %s" % (k, text(outs[k])[:80], text(ca(x.v[k + "_curr_"]))[:80]))
                    if x.shown is not None:
                        sh = dict(st.prop).get(('shown',))
                        if sh is None or not c.eq(canon(cl.term(eng, st, sh)), x.shown):
                            bad.append("the perturbation that is printed is not the one used")
                r.check(not bad, rule, name, f.at(), "%s: %s" % (what, "; ".join(bad[:3])), st.path())
        r.analysed([f])


def part(m, r, p):
    p[0](m, r, *p[1:])


def run(m, r):
    r.rule("R1", "a new linear system starts with the documented perturbation: none, or the regularization that structural degeneracy calls for")
    r.rule("R2", "after a singular system the documented next perturbation is chosen")
    r.rule("R3", "after a wrong inertia the perturbation of the Hessian is increased as documented, up to its limit")
    r.rule("R4", "the perturbation in use is the one handed out")
    r.rule("R5", "every system is solved with the perturbation the handler gave for it")
    r.rule("R6", "a solution counts only if the number of negative eigenvalues is the number of constraints, or the step passes the curvature test")
    r.rule("R7", "singular systems, too few and too many negative eigenvalues are each answered by their own remedy")
    r.rule("R8", "the step computation succeeds only with a solved system, whose perturbation it stores, and fails only when no perturbation is left or the linear solver broke down")
    degen = sorted(enum(m, PH + "::DegenType").values())
    parallel(part, m, r, [(handler, n, d) for n in HANDLERS for d in degen] + [(solver, t, u) for t in (0.0, 1e-3) for u in (0, 1)])
    for rule, n, what in FLOORS:
        r.floor(rule, n, what)


FLOORS = (("R1", 100, "cases of a new system"), ("R2", 40, "cases of a singular system"), ("R3", 100, "cases of a wrong inertia"), ("R4", 1, "perturbation in use"), ("R5", 200, "calls of solver and handler"),
          ("R6", 200, "inertia tests"), ("R7", 100, "remedies"), ("R8", 200, "results"))


# ------------------------------------------------------------------ the solver
PS = "Ipopt::PDFullSpaceSolver"
FLD = lambda f: ('f', ('this',), PS + "::" + f)
HANDLERS = ("ConsiderNewSystem", "PerturbForSingularity", "PerturbForWrongInertia", "CurrentPerturbation")
SOLVEARGS = {3: "delta_x", 5: "delta_s", 8: "delta_c", 11: "delta_d"}   # of AugSystemSolver::Solve
TOK = lambda k: ('s', ('tok', k), '')


class Solver(Acc):
    """one linear system is set up and solved; every answer of the linear solver and of the handler is followed"""
    base = None

    def __init__(s, m, sc, status, **k):
        super().__init__(m, **k)
        s.types = ("ESymSolverStatus", "bool")
        s.sc, s.status, s.wrong, s.seen = sc, status, [], {}

    def merge_key(s, eng, st):
        return (super().merge_key(eng, st), Guard.merge_key(s, eng, st), eng.norm(st, eng.read(st, FLD("augsys_improved_"))))

    def ev(s, st, **k):
        j = dict(dict(st.prop).get(('judge',)) or ())
        j.update(k)
        return s.put(st, ('judge',), tuple(sorted(j.items())))

    def j(s, st, k):
        return dict(dict(st.prop).get(('judge',)) or ()).get(k)

    def tell(s, st, rule, inst, ok, text, n, eng):
        s.seen[(rule, inst)] = s.seen.get((rule, inst), 0) + 1
        if not ok:
            s.wrong.append((rule, inst, text, eng.loc(n), st.path()))

    def on_assume(s, eng, st, v, truth):
        if s.j(st, "stage") == "solved" and s.j(st, "status") == "SUCCESS" and v[0] == 'e' and "'Dot'" in str(v):
            t = canon(s.term(eng, st, v))
            return s.ev(st, heur=redo(t, truth, s.sc["reg"], s.sc["tol"]), curv=t)
        return super().on_assume(eng, st, v, truth)

    def on_call(s, eng, st, n, fns, obj, args):
        b = short(n)
        if n["k"] != "call":
            return super().on_call(eng, st, n, fns, obj, args)
        if b == "Dim":
            t = str(canon(s.term(eng, st, obj)))
            if "y_c" in t or "y_d" in t:
                return [(st, ('c', s.sc["nc"] if "y_c" in t else s.sc["nd"]))]
        if b == "GetCachedResult":
            return [(st, ('c', s.sc["uptodate"]))]
        if b == "NumberOfNegEVals":
            return [(st, ('c', s.sc["nc"] + s.sc["nd"] + (s.j(st, "neg") or 0)))]
        if b == "ProvidesInertia":
            return [(st, ('c', 1))]
        if b == "IncreaseQuality" and n["f"].startswith("Ipopt::AugSystemSolver"):
            s.tell(st, "R7", "quality", s.j(st, "status") == "WRONG_INERTIA" and s.j(st, "neg") == -1, "a better solution is asked for although the number of negative eigenvalues is not too small", n, eng)
            return [(s.ev(st, asked=True, better=bool(v)).step("the quality %s be improved" % ("can" if v else "cannot")), ('c', v)) for v in (0, 1)]
        if b in HANDLERS:
            return s.handler(eng, st, n, b, args)
        if b == "setPDPert":
            for a, k in zip(args, OUT):
                s.tell(st, "R8", "setPDPert", eng.norm(st, a) == TOK(k), "the perturbation that is stored is not the one of the system that was solved", n, eng)
            s.tell(st, "R8", "setPDPert", s.j(st, "stage") == "solved" and s.j(st, "status") == "SUCCESS", "a perturbation is stored although the system was not solved with it", n, eng)
            return [(s.ev(st, stored=True), ('void',))]
        if b == "Solve" and n["f"].startswith("Ipopt::AugSystemSolver"):
            return s.solve(eng, st, n, args)
        return super().on_call(eng, st, n, fns, obj, args)

    def handler(s, eng, st, n, b, args):
        stage, status, neg, cons = s.j(st, "stage"), s.j(st, "status"), s.j(st, "neg"), s.sc["nc"] + s.sc["nd"]
        pret = s.sc["pretend"] and stage == "have" and not s.j(st, "pretended")
        if b in ("ConsiderNewSystem", "CurrentPerturbation"):
            new = b == "ConsiderNewSystem"
            s.tell(st, "R5", b, stage is None and new == (not s.sc["uptodate"] or bool(s.sc["pretend"])), "the perturbation of a new system is asked for exactly when something changed or the system is treated as singular", n, eng)
        elif b == "PerturbForSingularity":
            few = status == "WRONG_INERTIA" and neg == -1 and (s.j(st, "asked") or s.sc["improved"]) and not s.j(st, "better")
            s.tell(st, "R7", b, cons > 0 and (pret or stage == "solved" and (status == "SINGULAR" or bool(few))), "the system is treated as singular although it is not", n, eng)
        else:
            s.tell(st, "R7", b, pret and not cons or stage == "solved" and (status == "WRONG_INERTIA" and neg == 1 or status == "SINGULAR" and not cons or
                                                                            status == "SUCCESS" and neg != 0 and s.sc["tol"] > 0 and s.j(st, "heur") is True),
                   "the Hessian is perturbed although the inertia is not wrong", n, eng)
        if b.startswith("Perturb"):
            for a, k in zip(args, OUT):
                v = eng.norm(st, eng.read(st, a[1]))
                s.tell(st, "R5", b, v == TOK(k), "the handler is not told the last perturbation", n, eng)
            st = s.ev(st, pretended=True)
        outs = []
        st = s.clean(st)
        good = s.ev(st, stage="have", status=None, neg=None, heur=None, curv=None)
        for a, k in zip(args, OUT):
            good = eng.write(good, a[1], TOK(k), n)
        outs.append((good.step("%s gives a perturbation" % b), ('c', 1)))
        if b != "CurrentPerturbation":
            outs.append((s.ev(st, stage="refused").step("%s finds no perturbation" % b), ('c', 0)))
        return outs

    def clean(s, st):
        """what the loop computed for earlier systems is of no interest any more"""
        if s.base is None:
            s.base = {k for k, v in st.prop}
        st = st.withprop(frozenset((k, v) for k, v in st.prop if k in s.base or k == ('judge',))).copy()
        st.cons, st.bind, st.ne = {}, {}, {}
        for k in [k for k, v in st.env.items() if k[0] == 'v' and v[0] == 's' and v[-1] == 'obj' and v not in s.base]:
            del st.env[k]
        return st

    def solve(s, eng, st, n, args):
        st = s.clean(st)
        for i, k in SOLVEARGS.items():
            s.tell(st, "R5", "Solve", eng.norm(st, args[i]) == TOK(k), "the system is not solved with the perturbation given by the handler", n, eng)
        again = s.j(st, "stage") == "solved" and s.j(st, "better")
        s.tell(st, "R5", "Solve", s.j(st, "stage") == "have" or bool(again), "the system is solved without a perturbation for it", n, eng)
        cons = s.sc["nc"] + s.sc["nd"]
        chk, num = eng.norm(st, args[-2]), eng.norm(st, args[-1])
        new = not s.sc["uptodate"] or s.sc["pretend"]
        if new:
            s.tell(st, "R6", "Solve", chk[0] == 'c' and bool(chk[1]) == (s.sc["tol"] <= 0), "the inertia is not checked (or is, although the curvature is tested instead)", n, eng)
            if chk[0] != 'c' or chk[1]:
                s.tell(st, "R6", "Solve", num == ('c', cons), "the number of negative eigenvalues is not compared with the number of constraints", n, eng)
        outs = []
        for k, v in s.status.items():
            for neg in (-1, 0, 1):
                if k == "WRONG_INERTIA" and (neg == 0 or s.sc["tol"] > 0 or not new):
                    continue
                if k == "SUCCESS" and neg and (not new or s.sc["tol"] <= 0):
                    continue
                if k not in ("SUCCESS", "WRONG_INERTIA") and neg or neg == -1 and not cons:
                    continue
                x = s.ev(st, stage="solved", status=k, neg=neg, heur=None, curv=None, asked=s.j(st, "asked"), better=None)
                outs.append((x.step("the linear solver returns %s%s" % (k, {-1: ", too few negative eigenvalues", 1: ", too many negative eigenvalues"}.get(neg, ""))), ('c', v)))
        return outs


def poly(t):
    """sums of products of numbers and of inner products, {factors: coefficient}"""
    if t[0] == 'n':
        return {(): float(t[1])}
    if t[0] == 'sum':
        acc = {}
        for (sy, at), k in t[1]:
            p = {(): float(k)}
            for x in sy + (at,):
                p = times(p, poly(x))
            for q, c in p.items():
                acc[q] = acc.get(q, 0.0) + c
        return acc
    if t[:2] == ('op', 'vprod'):
        p = {(): 1.0}
        for x in t[2:]:
            p = times(p, poly(x))
        return p
    if t[:2] == ('fn', 'Dot'):
        p = times(poly(t[2]), poly(t[3]))
        return {tuple(sorted([x for x in q if number(x)] + [('dot',) + tuple(x for x in q if not number(x))], key=repr)): c for q, c in p.items()}
    if t[:2] == ('fn', 'pow') and t[2][:2] == ('fn', 'Nrm2') and t[3] == ('n', 2.0):
        return poly(('fn', 'Dot', t[2][2], t[2][2]))
    return {(t,): 1.0}


def number(x):
    return x[0] in ('s', 'sym') or x[:1] == ('dot',)


def times(p, q):
    acc = {}
    for a, x in p.items():
        for b, y in q.items():
            k = tuple(sorted(a + b, key=repr))
            acc[k] = acc.get(k, 0.0) + x * y
    return acc


def redo(t, truth, reg, tol):
    """does the comparison say that the curvature is too small? None if it is not the documented one"""
    if t[0] != 'op' or t[1] not in SYM or len(t) != 4:
        return None
    if not truth:
        t = t[:1] + (SYM[t[1]],) + t[2:]
    x, z, (dx, ds) = ('fn', 'x', ('op', 'undef')), ('fn', 's', ('op', 'undef')), (TOK("delta_x"), TOK("delta_s"))
    W = ('op', 'mat', ('n', 'N'), ('par', 'W'), x)
    dot = lambda *a: ('dot',) + tuple(sorted(a, key=repr))
    want = {(dot(W, x),): 1.0, (dot(x, x, ('par', 'sigma_x')),): 1.0, (dot(z, z, ('par', 'sigma_s')),): 1.0, (dot(x, x),): -tol, (dot(z, z),): -tol}
    if reg:
        for d, v in ((dx, x), (ds, z)):
            want[tuple(sorted((d, dot(v, v)), key=repr))] = 1.0
    got = poly(t[2])
    for k, c in poly(t[3]).items():
        got[k] = got.get(k, 0.0) - c
    sq = {}
    for k, c in got.items():            # squares of norms
        k = list(k)
        for v in [v for v in dict.fromkeys(k) if v[:2] == ('fn', 'Nrm2') and k.count(v) == 2]:
            k = [u for u in k if u != v] + [('dot', v[2], v[2])]
        k = tuple(sorted(k, key=repr))
        sq[k] = sq.get(k, 0.0) + c
    got = {k: c for k, c in sq.items() if c}
    same = lambda g: set(g) == set(want) and all(abs(g[k] - want[k]) < 1e-12 for k in want)
    if same(got):
        return t[1] in ('<', '<=')
    if same({k: -c for k, c in got.items()}):
        return t[1] in ('>', '>=')
    return None


def solver(m, r, tol, up):
    f = get(m, PS, "SolveOnce")
    codes = enum(m, "Ipopt::ESymSolverStatus")
    status = {k: codes["SYMSOLVER_" + k] for k in ("SUCCESS", "SINGULAR", "WRONG_INERTIA", "FATAL_ERROR")}
    for nc, nd, reg, pret, imp in itertools.product((0, 2), (0, 3), (0, 1), (0, 1), (0, 1)):
        if imp and not up or reg and not tol:
            continue
        sc = dict(nc=nc, nd=nd, tol=tol, uptodate=up, pretend=pret, improved=imp, reg=reg)
        cl = Solver(m, sc, status, inline=lambda g: g.c == PS and g.body is not None, opaque=Quant(m, extract=False).opaque)
        eng = engine(m, cl, 3000)
        eng.termdepth = 40
        eng.maxrounds = 400
        eng.compound = eng.incs = True

        def setup(e, st):
            st = st.copy()
            for k, x in (("neg_curv_test_tol_", tol), ("augsys_improved_", imp), ("neg_curv_test_reg_", reg)):
                st.env[FLD(k)] = ('c', x)
            for p in f.p:
                if p["n"] == "pretend_singular":
                    st.env[('v', (), p["id"])] = ('c', pret)
            return st
        rets = eng.run(f, frozenset(), setup)[0]
        name = "constraints (%d,%d)%s%s%s%s" % (nc, nd, ", curvature test" if tol else "", ", same system" if up else "", ", treated as singular" if pret else "", ", quality improved before" if imp else "")
        for rule, inst, txt, loc, path in cl.wrong:
            r.bad(rule, inst, loc, "%s: %s" % (name, txt), path)
        for k, c in cl.seen.items():
            for _ in range(c - sum(1 for w in cl.wrong if w[:2] == k)):
                r.ok(k[0], k[1])
        for st, v in rets:
            stage, code, neg = (cl.j(st, k) for k in ("stage", "status", "neg"))
            if v[0] != 'c':
                raise AnalysisError("SolveOnce: result of a path is not known")
            new = not up or pret
            if v[1]:
                r.check(stage == "solved" and code == "SUCCESS", "R8", "result", f.at(), "%s: a solution is used although the system with the current perturbation was not solved" % name, st.path())
                r.check(not neg or tol > 0 and cl.j(st, "heur") is False, "R6", "result", f.at(), "%s: a solution is used although the inertia is wrong" % name, st.path())
                if new:
                    r.check(cl.j(st, "stored"), "R8", "result", f.at(), "%s: the perturbation of the solved system is not stored" % name, st.path())
                if pret:
                    r.check(cl.j(st, "pretended"), "R7", "result", f.at(), "%s: a system that must be treated as singular is not perturbed" % name, st.path())
            else:
                r.check(stage == "refused" or stage == "solved" and (code == "FATAL_ERROR" or not new and code != "SUCCESS"), "R8", "result", f.at(), "%s: the step computation gives up although a further perturbation can be tried" % name, st.path())
            if cl.j(st, "curv") is not None:
                r.check(cl.j(st, "heur") is not None, "R6", "curvature", f.at(), "%s: the curvature of the step is not compared as documented: %s" % (name, text(cl.j(st, "curv"))[:400]), st.path())
    r.analysed([f])

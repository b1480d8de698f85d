"""C16: linear solver interfaces report and use what the solver told them."""
from sa.guards import short, Guard, facts
from sa.engine import Engine, subs
from sa.db import AnalysisError

CLS = ("Ma27TSolverInterface", "Ma57TSolverInterface", "Ma77SolverInterface", "Ma86SolverInterface", "Ma97SolverInterface", "PardisoSolverInterface", "MumpsSolverInterface")


class Eng(Engine):
    """memory handed to the solver library has new contents after each call"""

    def read(s, st, lv):
        if lv not in st.env and st.prop:
            vs = tuple(sorted(k for root, k in st.prop[1] if root in subs(lv)))
            if vs:
                return ('r', ('ver', vs, lv))
        return super().read(st, lv)


class Lib(Guard):
    keep = ()

    def merge_key(s, eng, st):
        """nothing known about the codes of the library, the arguments and the flags is given up"""
        watch = set(s.keep)
        for rec in (st.prop[0] if st.prop else ()):
            watch.update(t for t in rec[4:6] if t)
        about = lambda d: frozenset((k, v) for k, v in d.items() if any(t in watch for t in subs(k)))
        return (st.prop, about(st.bind), about(st.ne), about(st.cons), tuple(eng.norm(st, eng.read(st, f)) for f in s.fields))

    fields = ()

    @staticmethod
    def foreign(n):
        if n["k"] != "call":
            return None
        e = n.get("fe")
        if isinstance(e, dict):
            while e.get("k") in ("cast", "paren", "un"):
                e = e["e"]
            if e.get("k") == "mem":
                return e["n"].rsplit("::", 1)[-1]
        b = short(n)
        return "mumps" if b.endswith("mumps_c") else None

    def on_call(s, eng, st, n, fns, obj, args):
        nm = s.foreign(n)
        if nm is None:
            return super().on_call(eng, st, n, fns, obj, args)
        calls, roots, live = st.prop
        before = st
        loc = eng.loc(n)
        if sum(1 for c in calls if c[2] == loc) >= 2:  # a loop: the call log is saturated
            last = max(i for i, c in enumerate(calls) if c[2] == loc)
            calls = calls[:last] + calls[last + 1:]
            st = s.forget(st, "%s#2" % loc)
        k = "%s#%d" % (loc, sum(1 for c in calls if c[2] == loc) + 1)
        st = st.copy()
        new = dict(roots)
        for i, v in enumerate(args):
            if v[0] == 'c' or nm == "pardiso" and i in (1, 2, 3, 4, 5, 6, 7, 8, 10, 12):  # read only
                continue
            if nm == "mumps":  # everything else in the structure is read only
                outs = [('f', v, "(anon)::" + x) for x in ("info", "infog", "rinfo", "rinfog")]
            else:
                outs = [v[1] if v[0] == '&' else v]
            for root in outs:
                new[root] = k
                for lv in [lv for lv in st.env if root in subs(lv) and (v[0] == '&' or lv != root)]:
                    if v[0] == '&' or lv[0] != 'v':
                        del st.env[lv]
        role, err, neg = s.spec(eng, before, nm, args)
        st = st.withprop((calls, frozenset(new.items()), live))
        err = err and eng.norm(st, eng.read(st, err))
        neg = neg and eng.norm(st, eng.read(st, neg))
        rec = (nm, tuple(args), loc, role, err, neg)
        st = st.withprop((calls + (rec,), frozenset(new.items()), live))
        return [(st.step("%s: %s is called" % (loc, nm)), ('r', ('ver', (k,), ('ret',))))]

    def forget(s, st, k):
        old = lambda v: any(t[0] == 'ver' and isinstance(t[1], tuple) and k in t[1] for t in subs(v) if isinstance(t, tuple) and len(t) == 3)
        st = st.copy()
        for d in (st.bind, st.ne, st.cons):
            for x in [x for x, v in d.items() if old(x) or old(v)]:
                del d[x]
        for x, v in list(st.env.items()):
            if old(v):
                st.env[x] = ('j', ('old', k), x)
        return st

    def spec(s, eng, st, nm, args):
        """role of the call, place of its error code, place of the number of negative eigenvalues"""
        nm = nm[:-2] if nm.endswith("_d") else nm
        x = lambda root, i: ('x', root, ('c', i))
        if nm == "ma27b":
            return "factor", x(args[14], 0), x(args[14], 14)
        if nm == "ma27c":
            return "solve", None, None
        if nm == "ma57b":
            return "factor", x(args[12], 0), x(args[12], 23)
        if nm == "ma57c":
            return "solve", x(args[13], 0), None
        if nm == "ma57e":
            return "other", None, None
        if nm[:4] in ("ma77", "ma86", "ma97"):
            what = nm[5:]
            role = {"analyse": "analyse", "input_reals": "analyse", "factor": "factor", "factor_solve": "factorsolve", "solve": "solve"}.get(what)
            info = [a for a in args if a[0] == '&' and a[1][0] == 'v']
            if role is None or len(info) < 1:
                raise AnalysisError("do not know the role of the call of %s" % nm)
            info = info[-1]
            return role, ('f', info, nm[:4] + "_info_d::flag"), ('f', info, nm[:4] + "_info_d::num_neg") if role[:6] == "factor" else None
        if nm == "pardiso":
            phase = eng.norm(st, eng.read(st, args[4][1]))
            role = {11: "analyse", 22: "factor", 12: "factor", 33: "solve", 23: "solve"}.get(phase[1] if phase[0] == 'c' else None, "solve" if phase[0] in 'js' else None)
            if role is None:
                raise AnalysisError("phase of a call of pardiso is not known: %s" % (phase,))
            return role, args[15][1], x(args[11], 22) if role == "factor" else None
        if nm == "mumps":
            d = args[0]
            job = eng.norm(st, eng.read(st, ('f', d, "(anon)::job")))
            role = {1: "analyse", 2: "factor", 3: "solve"}.get(job[1] if job[0] == 'c' else None)
            if role is None:
                raise AnalysisError("job of a call of MUMPS is not known: %s" % (job,))
            return role, x(('&', ('f', d, "(anon)::info")), 0), x(('&', ('f', d, "(anon)::infog")), 11) if role == "factor" else None
        raise AnalysisError("unknown function %s of a linear solver library is called" % nm)


def runs(m, f, inline, keep, fields, cap=40):
    cl = Lib(m, inline=inline)
    cl.keep, cl.fields = keep, fields
    eng = Eng(m, cl, cap=cap)
    eng.termdepth = 10
    eng.compound = True
    return eng, cl, eng.run(f, ((), frozenset(), tuple(keep)))[0]


# codes by which the libraries report trouble, from their documentation:
# (singular matrix, must be repeated with more memory, samples of other errors)
FACTOR = {"Ma27TSolverInterface": ((-5, 3), (-3, -4), (-1, -2, -7, 1)),
          "Ma57TSolverInterface": ((4,), (-3, -4), (-1, -2, -5, -99)),
          "Ma77SolverInterface": ((4, -11), (), (-1, -3, -99)),
          "Ma86SolverInterface": ((2, -3), (), (-1, -2, -99)),
          "Ma97SolverInterface": ((7, -7), (), (-1, -2, -99)),
          "PardisoSolverInterface": ((-7, -4), (), (-1, -2, -99, 1)),
          "MumpsSolverInterface": ((-10,), (-8, -9), (-1, -13, -99))}
ANALYSE = {"Ma77SolverInterface": ((), (), (-1, -99)), "Ma97SolverInterface": ((6, -7), (), (-1, -2, -99)),
           "PardisoSolverInterface": ((-7,), (), (-1, -2, -99, 1)), "MumpsSolverInterface": ((-6,), (), (-1, -2, -99))}
SOLVE = {"Ma57TSolverInterface": (-1, -2, -99), "Ma77SolverInterface": (-1, -2, -99), "Ma86SolverInterface": (-1, -2, -99),
         "Ma97SolverInterface": (-1, -2, -99), "PardisoSolverInterface": (-1, -2, -4), "MumpsSolverInterface": (-1, -2, -99)}
# MA86 reports -3 (singular, control%action false) as an error: the interface leaves action at its default
SOFT = {("Ma86SolverInterface", -3)}
OK, SINGULAR, WRONG, AGAIN, FATAL = range(5)
NAMES = ("success", "singular", "wrong inertia", "call again", "fatal error")


class At:
    def __init__(s, eng, st):
        s.eng, s.st = eng, st

    def eq(s, a, b):
        b = ('c', b) if isinstance(b, int) else b
        t = s.eng.truth(s.st, ('e', '==', a, b))
        if t is None and b[0] == 'c':
            for k in (0, -100):
                if s.eng.truth(s.st, ('e', '<', a, ('c', k))) is (b[1] >= k) or s.eng.truth(s.st, ('e', '<=', ('c', k), a)) is (b[1] < k):
                    return False
                if s.eng.truth(s.st, ('e', '<', ('c', k), a)) is (b[1] <= k) or s.eng.truth(s.st, ('e', '<=', a, ('c', k))) is (b[1] > k):
                    return False
        return t

    def true(s, a):
        return s.eng.truth(s.st, a)

    def field(s, name):
        return s.eng.norm(s.st, s.eng.read(s.st, ('f', ('this',), name)))


def entry(name):
    return ('r', ('f', ('this',), name))


def interface(m, r, cls):
    q = "Ipopt::" + cls
    fs = {f.name(): f for f in m.fns.values() if f.c == q and f.body}
    for n in ("MultiSolve", "NumberOfNegEVals", "IncreaseQuality"):
        if n not in fs:
            raise AnalysisError("%s::%s not found" % (cls, n))
    f = fs["MultiSolve"]
    names = {p["n"]: ('r', ('p', p["n"])) for p in f.p}
    new, nrhs, rhs, chk, num = [('r', ('p', f.p[i]["n"])) for i in (0, 3, 4, 5, 6)]
    pend = [n for n in ("pivtol_changed_", "refactorize_") if any(x["n"].rsplit("::", 1)[-1] == n for x in m.classes[q]["fields"])]
    pend = [q + "::" + n for n in pend]
    if not pend and cls != "PardisoSolverInterface":  # the quality of PARDISO cannot be increased
        raise AnalysisError("%s: no member tells that the factorization is out of date" % cls)
    e2 = Engine(m, Guard(m), cap=200)
    cnt = {e2.norm(st, v) for st, v in e2.run(fs["NumberOfNegEVals"], None)[0]}
    if len(cnt) != 1 or list(cnt)[0][0] != 'r' or list(cnt)[0][1][0] != 'f':
        raise AnalysisError("%s::NumberOfNegEVals does not return a member" % cls)
    cfield = list(cnt)[0][1][2]
    eng, cl, rets = runs(m, f, lambda g: g.u != f.u and bool(g.body) and (g.c == q or g.file == f.file and not g.c and (g.rt != "void" or any(Lib.foreign(n) for n in g.nodes()))), (new, chk, num) + tuple(entry(n) for n in pend + [q + "::skip_inertia_check_", q + "::ignore_singularity_", q + "::pardiso_iterative_", q + "::pardiso_repeated_perturbation_means_singular_"]), [('f', ('this',), n) for n in pend + [cfield]])
    fac = FACTOR[cls]
    where = "%s:%d" % (f.file, f.l)
    for st, v in rets:
        a = At(eng, st)
        v = eng.norm(st, v)
        calls = st.prop[0] if st.prop else ()
        res = [c for c in range(5) if a.eq(v, c) is not False]
        if v[0] in 'js':
            res = [OK, FATAL]  # collected over the right hand sides
        elif len(res) != 1:
            r.check(False, "R1", cls + " returns a status", where, "the value returned is not one of the codes: %s" % (v,), st.path())
            continue
        # with PARDISO's iterative solver, the tolerances are tightened until the solve works
        free = cls == "PardisoSolverInterface" and a.true(entry(q + "::pardiso_iterative_")) is not False
        inst = "%s returns %s" % (cls, NAMES[res[0]])
        facs = [i for i, c in enumerate(calls) if c[3] in ("factor", "factorsolve")]
        sols = [i for i, c in enumerate(calls) if c[3] in ("solve", "factorsolve")]
        last = calls[facs[-1]] if facs else None
        anas = [c for c in calls if c[3] == "analyse"]

        def may(c, codes):
            return [k for k in codes if a.eq(c[4], k) is not False]
        skip = any(a.true(entry(q + "::" + n)) is True for n in ("skip_inertia_check_",))
        igno = any(a.true(entry(q + "::" + n)) is True for n in ("ignore_singularity_",))
        # what an error code excludes
        if res[0] in (OK, WRONG):
            good = True
            if last:
                bad = may(last, ((() if igno else fac[0]) + fac[1] + fac[2]))
                bad = [k for k in bad if not (igno and k in fac[0])]
                r.check(not bad, "R1", inst + " after a factorization", last[2], "although the factorization may have reported code %s" % (bad,), st.path())
            for c in anas:
                bad = may(c, ANALYSE[cls][0] + ANALYSE[cls][2])
                # calls repeated by the loop around them are the last one's business
                if [d for d in anas if d[0] == c[0]][-1] is c:
                    r.check(not bad, "R1", inst + " after an analysis", c[2], "although the analysis may have reported code %s" % (bad,), st.path())
        if res == [OK]:
            for i in sols:
                c = calls[i]
                if c[4] and c[3] == "solve" and i == sols[-1] and not free:
                    bad = may(c, SOLVE[cls])
                    r.check(not bad, "R1", inst + " after a solve", c[2], "although the solve may have reported code %s" % (bad,), st.path())
        if res == [SINGULAR]:
            c = [c for c in calls if c[3] in ("factor", "factorsolve", "analyse")]
            ok = bool(c)
            if ok:
                c = c[-1]
                sp = fac if c[3] != "analyse" else ANALYSE[cls]
                pert = a.true(entry(q + "::pardiso_repeated_perturbation_means_singular_")) is True
                ok = (bool(may(c, sp[0])) and not may(c, (0,) + sp[1] + sp[2])) or pert
            r.check(ok, "R2", inst, c[2] if c else where, "although the library did not report a singular matrix", st.path())
        if res == [FATAL]:
            ok = any(c[4] and a.eq(c[4], 0) is not True and not may(c, (0,)) for c in calls)
            cs = [c for c in calls if c[4] and c[3] in ("factor", "factorsolve")]
            if cs and cs[-1] is [c for c in calls if c[3] != "other"][-1]:
                sing = [k for k in may(cs[-1], fac[0]) if (cls, k) not in SOFT]
                r.check(not sing, "R2", inst + " for a singular matrix", cs[-1][2], "the library reported code %s, a singular matrix" % (sing,), st.path())
            r.check(ok or free, "R2", inst, where, "although no call of the library failed", st.path())
        # inertia
        if last and res[0] in (OK, WRONG):
            c = a.field(cfield)
            good = (c, last[5])
            okc = c == last[5] or (igno and last[5] in subs(c)) or (cls == "PardisoSolverInterface" and last[5] in subs(c))
            r.check(okc, "R3", inst + ": number of negative eigenvalues", last[2], "NumberOfNegEVals returns %s afterwards, the factorization found %s" % (c, last[5]), st.path())
            same = a.eq(num, last[5])
            if same is None:
                same = a.eq(num, c)
            if res[0] == WRONG:
                r.check(a.true(chk) is True and same is False and not skip, "R3", inst, last[2], "without a requested number of negative eigenvalues that differs from the one found", st.path())
            else:
                r.check(a.true(chk) is False or same is True or skip, "R3", inst + ": inertia", last[2], "although the number of negative eigenvalues may differ from the requested one", st.path())
        if res[0] == WRONG and not last:
            r.check(False, "R3", inst, where, "without a factorization", st.path())
        # which factorization is used
        if not last:
            if OK in res:
                ok = a.true(new) is False and all(a.true(entry(n)) is False for n in pend)
                r.check(ok, "R4", inst + " with the old factorization", where, "although the matrix or the pivot tolerance has changed", st.path())
            lost = [n for n in pend if a.true(a.field(n)) is not False]
            had = [n for n in pend if a.true(entry(n)) is True]
            r.check(not had or bool(lost) or res[0] in (SINGULAR, FATAL) or a.true(new) is True and res[0] == AGAIN, "R4", inst + ": request for a new factorization", where, "the request is forgotten", st.path())
        if res[0] == AGAIN:
            more = a.true(new) is True or any(a.true(a.field(n)) is True for n in pend)
            r.check(more, "R4", inst, where, "the next call would not factorize the matrix", st.path())
        if OK in res:
            some = a.true(('e', '<', ('c', 0), nrhs)) is False
            r.check(bool(sols) or some or free, "R5", inst + ": right hand sides", where, "no solve is done", st.path())
            if sols and last:
                r.check(sols[-1] >= facs[-1], "R5", inst + ": order", where, "the solve does not use the factorization", st.path())
    r.analysed([f])
    quality(m, r, cls, fs["IncreaseQuality"], q)


def quality(m, r, cls, f, q):
    eng = Engine(m, Guard(m), cap=500)
    rets = eng.run(f, None)[0]
    r.analysed([f])
    lims = 0
    for st, v in rets:
        t = eng.truth(st, v)
        a = At(eng, st)
        where = "%s:%d" % (f.file, f.l)
        if t is None:
            r.check(False, "R6", cls + "::IncreaseQuality", where, "neither true nor false is returned", st.path())
            continue
        mx = [x["n"].rsplit("::", 1)[-1] for x in m.classes[q]["fields"] if x["n"].rsplit("::", 1)[-1] in ("pivtolmax_", "umax_")]
        if not mx:      # nothing can be improved
            r.check(t is False, "R6", cls + "::IncreaseQuality", where, "an improvement is announced, but there is no tolerance to change", st.path())
            continue
        mx = entry(q + "::" + mx[0])
        cur = entry(q + "::pivtol_") if mx[1][2].endswith("pivtolmax_") else ('r', ('f', ('&', ('f', ('this',), q + "::control_")), cls[:4].lower() + "_control_d::u"))
        at = a.true(('e', '==', cur, mx)) is True or a.true(('e', '<=', mx, cur)) is True
        if t is False:
            r.check(at, "R6", cls + "::IncreaseQuality gives up", where, "although the tolerance may be below its maximum", st.path())
            continue
        ch = a.field(q + "::pivtol_changed_")
        r.check(eng.truth(st, ch) is True, "R6", cls + "::IncreaseQuality asks for a new factorization", where, "a better factorization is announced but not requested", st.path())
        new = eng.norm(st, eng.read(st, cur[1]))
        lim = new == mx or new[:3] == ('e', 'pure', ('c', 'Min')) and mx in new[3:] or a.true(('e', '<=', new, mx)) is True or a.true(('e', '<', new, mx)) is True or a.true(('e', '<', mx, new)) is False
        r.check(new != cur and lim, "R6", cls + "::IncreaseQuality changes the tolerance", where, "the pivot tolerance becomes %s" % (new,), st.path())
        r.check(not at, "R6", cls + "::IncreaseQuality ends", where, "an improvement is announced although the tolerance is at its maximum", st.path())


def contains(v, *ts):
    sub = subs(v)
    return all(t in sub for t in ts)


KNOWN = ("GiveMatrixToSolver", "InitializeStructure", "IncreaseQuality", "NumberOfNegEVals", "MultiSolve")


class Seq(Guard):
    """log of what happens to the matrix and the right hand sides: entries (kind, data, place)"""
    T = "Ipopt::TSymLinearSolver::"
    sizes = ()

    def merge_key(s, eng, st):
        return st.prop

    def add(s, st, kind, data, loc, what):
        log = tuple(e for e in st.prop[0] if not (e[0] == kind and e[2] == loc)) + ((kind, data, loc),)
        return st.withprop((log,) + st.prop[1:]).step("%s: %s" % (loc, what))

    def on_assume(s, eng, st, v, truth):
        v = eng.norm(st, v)
        # the sizes are positive: the loops over the entries are entered
        if truth is False and v[0] == 'e' and v[1] == '<' and v[2] == ('c', 0) and v[3] in s.sizes:
            return None
        return st

    def on_call(s, eng, st, n, fns, obj, args):
        b, loc = short(n), eng.loc(n)
        a = [eng.norm(st, x) for x in args]
        if b == "HasChanged":
            return [(st, eng.norm(st, ('e', '!', ('e', '==', ('r', ('tag', obj)), s.val(eng, st, args[0])))))]
        if b == "GetTag":
            return [(st, ('r', ('tag', obj)))]
        if n.get("op") == "[]" and args:
            return [(st, ('r', ('elt', obj or a[0], a[-1])))]
        if b in ("operator*", "GetRawPtr", "operator->") and obj is not None and obj[0] == 'r' and obj[1][0] == 'elt':
            return [(st, obj)]
        if b == "size" and n.get("o") is not None:
            return [(st, ('r', ('size', obj)))]
        if b == "GiveMatrixToSolver":
            return [(s.add(st, "give", (eng.truth(st, a[0]), a[1]), loc, "the matrix is given to the solver"), ('c', 0))]
        if b == "FillValuesFromVector":
            return [(s.add(st, "fill", tuple(a), loc, "a right hand side is copied"), ('c', 0))]
        if b == "PutValuesInVector":
            return [(s.add(st, "put", (tuple(a), eng.truth(st, ('e', '==', s.last(st), ('c', OK)))), loc, "a solution is copied"), ('c', 0))]
        if b == "MultiSolve":
            k = sum(1 for e in st.prop[0] if e[0] == "solve")
            v = ('r', ('res', min(k, 1)))
            st = forget(st, lambda t: t == v)
            return [(s.add(st, "solve", tuple(a) + (v,), loc, "the solver is called"), v)]
        if b == "FillValues":
            return [(s.add(st, "values", tuple(a), loc, "the values of the matrix are copied"), ('c', 0))]
        if b == "ConvertValues":
            return [(s.add(st, "convert", tuple(a), loc, "the values are converted"), ('c', 0))]
        if b == "ComputeSymTScalingFactors":
            return [(s.add(st, "factors", tuple(a), loc, "scaling factors are computed"), ('c', 1))]
        if b == "GetValuesArrayPtr":
            return [(st, ('r', ('array',)))]
        if b == "IncreaseQuality":
            return [(st, ('r', ('increased',)))]
        return super().on_call(eng, st, n, fns, obj, args)

    @staticmethod
    def last(st):
        e = [e for e in st.prop[0] if e[0] == "solve"]
        return e[-1][1][-1] if e else ('c', -1)

    def on_assign(s, eng, st, lv, val, node):
        if lv[0] == 'x' and val[0] == 'e':
            return s.add(st, "scale", (lv, eng.norm(st, val)), eng.loc(node), "an element is scaled")
        return st


def forget(st, pred):
    st = st.copy()
    for d in (st.bind, st.ne, st.cons):
        for x in [x for x in d if any(pred(t) for t in subs(x))]:
            del d[x]
    return st


def tsym(m, r):
    q = "Ipopt::TSymLinearSolver"
    fs = {f.name(): f for f in m.fns.values() if f.c == q and f.body}
    fld = lambda n: ('r', ('f', ('this',), q + "::" + n))
    sf, dim = fld("scaling_factors_"), fld("dim_")
    f = fs["MultiSolve"]
    A, rhsV, solV, chk, num = [('r', ('p', p["n"])) for p in f.p]
    where = "%s:%d" % (f.file, f.l)

    def go(f, sizes, keep):
        cl = Seq(m, inline=lambda g: g.u != f.u and bool(g.body) and g.name() not in KNOWN and (g.c == q or g.file == f.file and not g.c))
        cl.sizes = sizes
        eng = Engine(m, cl, cap=600)
        eng.compound = True
        rets = eng.run(f, ((), tuple(keep)))[0]
        r.analysed([f])
        return eng, rets
    PA, PR, PS = [('p', p["n"]) for p in f.p[:3]]
    nr = [('r', ('size', x)) for y in (PR, PS) for x in (y, ('r', y), ('&', y))]
    us = fld("use_scaling_")
    eng, rets = go(f, [dim] + nr, [us, fld("just_switched_on_scaling_"), fld("initialized_"), ('e', '!', ('e', '==', ('r', ('tag', ('&', PA))), fld("atag_"))), ('r', ('res', 0)), ('r', ('res', 1))])
    hc = ('e', '!', ('e', '==', ('r', ('tag', ('&', PA))), fld("atag_")))
    n = 0
    for st, v in rets:
        log = st.prop[0]
        v = eng.norm(st, v)
        p = st.path()
        kinds = [e[0] for e in log]
        if "solve" not in kinds:
            r.check(eng.truth(st, ('e', '==', v, ('c', OK))) is not True, "R7", "TSymLinearSolver: result without a solve", where, "success is returned without calling the solver", p)
            continue
        scaled = eng.truth(st, us)
        if scaled is None:
            raise AnalysisError("TSymLinearSolver::MultiSolve does not look at use_scaling_")
        changed = eng.truth(st, hc) is not False or eng.truth(st, fld("just_switched_on_scaling_")) is not False
        sv = [k for k, e in enumerate(log) if e[0] == "solve"]
        first = log[sv[0]]
        gives = [k for k, e in enumerate(log) if e[0] == "give"]
        fills = [e for e in log if e[0] == "fill"]
        pre = [e for e in log[:sv[0]] if e[0] == "scale"]
        post = [e for e in log[sv[-1]:] if e[0] == "scale"]
        puts = [e for e in log if e[0] == "put"]
        arr = first[1][4]
        n += 1
        solvers = [e for e in log if e[0] == "solve"]
        again = any(eng.truth(st, ('e', '==', e[1][-1], ('c', AGAIN))) is True for e in solvers) or (first[1][-1] == ('r', ('res', 1)))
        ga = [log[k] for k in gives]
        if changed:
            r.check(any(g[1][0] is True and log.index(g) < sv[0] for g in ga), "R7", "a changed matrix reaches the solver", first[2], "the solver is called without the values of the changed matrix", p)
            r.check(eng.truth(st, first[1][0]) is True, "R7", "a changed matrix is announced", first[2], "the solver is not told that the matrix is new", p)
            if scaled and pre:
                r.check(gives and gives[0] < log.index(pre[0]), "R8", "factors of a new matrix", pre[0][2], "the right hand side is scaled before the factors for the new matrix are computed", p)
        for e in solvers:
            r.check(e[1][5] == chk and e[1][6] == num, "R7", "inertia passed on", e[2], "the solver is asked to check %s, %s" % (e[1][5], e[1][6]), p)
            r.check(e[1][3] in nr, "R7", "number of right hand sides", e[2], "the solver is asked for %s right hand sides" % (e[1][3],), p)
        if again:
            r.check(any(g[1][0] is False for g in ga), "R7", "values are given again", first[2], "the solver asked to be called again, but the values are not restored", p)
        for g in ga:
            r.check(g[1][1] == ('&', PA), "R7", "the matrix given", g[2], "another matrix is given to the solver", p)

        def elem(e):
            """the element of the array is multiplied with the factor of its row"""
            lv, val = e[1]
            root = lv[1]
            off = root[1][2] if root[0] == '&' and root[1][0] == 'x' and root[1][1] == arr else None
            if not (val[0] == 'e' and val[1] == '*' and (root == arr or off)):
                return False
            got = leaves(val)
            fac = [x for x in got if x[0] == 'r' and x[1][0] == 'x' and x[1][1] == sf]
            if ('r', lv) not in got or not 1 <= len(fac) <= 2 or len(got) != 1 + len(fac) or len(set(fac)) != 1 or len(fac) == 2 and e not in post:
                return False
            b = fac[0]
            i = b[1][2]
            k = lv[2]
            if off:
                return k == i and (off == ('c', 0) or dim in subs(off))
            if k == i:
                return True
            rest = [x for x in k[2:] if x != i] if k[0] == 'e' and k[1] == '+' else []
            return len(rest) == 1 and (rest[0] == ('c', 0) or rest[0][0] == 'e' and rest[0][1] == '*' and dim in rest[0][2:] or eng.norm(st, ('e', '*', ('c', 1), dim)) == rest[0])
        for e in pre + post:
            r.check(elem(e), "R8", "element scaled", e[2], "an element of a right hand side becomes %s" % (e[1][1],), p)
        if len(set(e[2] for e in fills)) != 1:
            r.check(False, "R8", "right hand sides copied", where, "the right hand sides are not copied", p)
        if scaled:
            r.check(len(pre) == 1, "R8", "right hand side scaled", first[2], "the right hand side is scaled %d times" % len(pre), p)
        else:
            r.check(not pre and not post, "R8", "no scaling", first[2], "vectors are scaled although scaling is off", p)

        def same(a, vec):
            """block of the array and vector with the same number"""
            if not (a[0] == '&' and a[1][0] == 'x' and a[1][1] == arr) and a != arr:
                return False
            if vec[0] != 'r' or vec[1][0] != 'elt':
                raise AnalysisError("vector of a right hand side not recognised: %s" % (vec,))
            k = eng.norm(st, ('e', '*', vec[1][2], dim))
            return a[1][2] == k if a != arr else vec[1][2] == ('c', 0)
        for e in fills:
            r.check(e[1][0] == dim and same(e[1][2], e[1][1]) and contains(e[1][1], PR), "R8", "copy of a right hand side", e[2], "the right hand side is copied to the wrong place", p)
        for e in puts:
            r.check(e[1][1] is True, "R8", "solutions only on success", e[2], "a vector is overwritten although the solver did not report success", p)
            r.check(e[1][0][0] == dim and same(e[1][0][1], e[1][0][2]) and contains(e[1][0][2], PS), "R8", "copy of a solution", e[2], "the solution is copied from the wrong place", p)
            k = log.index(e)
            un = [x for x in log[sv[-1]:k] if x[0] == "scale"]
            r.check(len(un) == (1 if scaled else 0), "R8", "solution unscaled", e[2], "the solution is scaled %d times before it is returned" % len(un), p)
        suc = eng.truth(st, ('e', '==', v, ('c', OK)))
        r.check(suc is False or puts, "R8", "solution returned on success", where, "success is returned without a solution", p)
        last = Seq.last(st)
        r.check(v == eng.norm(st, last) or (v[0] == 'c' and eng.truth(st, ('e', '==', last, v)) is True), "R7", "status passed on", where, "%s is returned, the solver returned %s" % (v, last), p)
    if n < 8:
        raise AnalysisError("TSymLinearSolver::MultiSolve: only %d paths reach the solver" % n)
    give(m, r, fs["GiveMatrixToSolver"], go, fld, sf, us)
    for name, want in (("NumberOfNegEVals", None), ("IncreaseQuality", "increased")):
        f = fs[name]
        eng, rets = go(f, [], [us])
        for st, v in rets:
            v = eng.norm(st, v)
            if want is None:
                r.check(v[0] in 'er' and fld("solver_interface_") in subs(v), "R7", name, "%s:%d" % (f.file, f.l), "the count of the solver is not passed on", st.path())
            elif v != ('r', ('increased',)):
                j = eng.norm(st, eng.read(st, ('f', ('this',), q + "::just_switched_on_scaling_")))
                u = eng.norm(st, eng.read(st, ('f', ('this',), q + "::use_scaling_")))
                r.check(eng.truth(st, v) is True and eng.truth(st, j) is True and eng.truth(st, u) is True and eng.truth(st, us) is False, "R6", "TSymLinearSolver::IncreaseQuality switches on the scaling", "%s:%d" % (f.file, f.l), "the answer is not the solver's although scaling is not newly switched on", st.path())


def give(m, r, f, go, fld, sf, us):
    nz, new = fld("nonzeros_triplet_"), ('r', ('p', f.p[0]["n"]))
    js, fmt = fld("just_switched_on_scaling_"), fld("matrix_format_")
    eng, rets = go(f, [nz, fld("dim_")], [us, new, js, fmt])
    r.analysed([f])
    where = "%s:%d" % (f.file, f.l)
    n = 0
    for st, v in rets:
        log, p = st.prop[0], st.path()
        n += 1
        trip = eng.truth(st, ('e', '==', fmt, ('c', 0)))
        kinds = [e[0] for e in log]
        scaled = eng.truth(st, us)
        r.check(kinds.count("values") == 1 and log[kinds.index("values")][1][0] == nz and ('p', f.p[1]["n"]) in subs(log[kinds.index("values")][1][1]), "R9", "values of the matrix", where, "the values of the matrix are not copied", p)
        if "values" not in kinds:
            continue
        arr = log[kinds.index("values")][1][2]
        conv = [e for e in log if e[0] == "convert"]
        if trip is True:
            r.check(arr == ('r', ('array',)) and not conv, "R9", "triplet format", where, "the values do not go to the array of the solver", p)
        else:
            r.check(len(conv) == 1 and conv[0][1][0] == nz and conv[0][1][1] == arr and conv[0][1][2] == fld("nonzeros_compressed_") and conv[0][1][3] == ('r', ('array',)) and log[-1] is conv[0], "R9", "compressed format", where, "the values are not converted into the array of the solver at the end", p)
        need = scaled is True and (eng.truth(st, new) is not False or eng.truth(st, js) is not False)
        sc = [e for e in log if e[0] == "scale"]
        fa = [e for e in log if e[0] == "factors"]
        if scaled is True:
            r.check(len(sc) == 1, "R9", "entries scaled", where, "the entries are scaled %d times" % len(sc), p)
            if need:
                r.check(len(fa) == 1 and fa[0][1][4] == arr and fa[0][1][5] == sf, "R9", "factors computed", where, "no factors are computed for the new matrix", p)
                jv = eng.norm(st, eng.read(st, ('f', ('this',), "Ipopt::TSymLinearSolver::just_switched_on_scaling_")))
                r.check(jv == ('c', 0), "R9", "scaling switched on once", where, "the flag stays set", p)
            r.check(need or not fa, "R9", "factors kept", where, "the factors change although the right hand side was scaled with the old ones", p)
            for e in sc:
                lv, val = e[1]
                i = lv[2]
                fac = lambda a: ('r', ('x', sf, ('e', '-', ('r', ('x', fld(a), i)), ('c', 1))))
                fb = lambda a: ('r', ('x', sf, ('e', '+', ('r', ('x', fld(a), i)), ('c', -1))))
                got = leaves(val)
                ok = lv[1] == arr and len(got) == 3 and ('r', lv) in got and all(fac(a) in got or fb(a) in got for a in ("airn_", "ajcn_"))
                r.check(ok, "R9", "entry scaled", e[2], "an entry of the matrix becomes %s" % (val,), p)
        else:
            r.check(not sc and not fa, "R9", "no scaling", where, "entries are scaled although scaling is off", p)
    if n < 4:
        raise AnalysisError("TSymLinearSolver::GiveMatrixToSolver: only %d paths" % n)


def leaves(v):
    if v[0] == 'e' and v[1] == '*':
        return leaves(v[2]) + leaves(v[3])
    return [v]


class Rec:
    def __init__(s):
        s.out = []

    def check(s, *a, **k):
        a = list(a)
        a[0] = bool(a[0])
        if a[0]:
            del a[5:]
        s.out.append(("check", a))

    def analysed(s, fns):
        s.out.append(("fn", [f.u for f in fns]))


def part(what):
    rec = Rec()
    try:
        if what == "TSym":
            tsym(_m, rec)
        else:
            interface(_m, rec, what)
    except AnalysisError as e:
        return str(e)
    return rec.out


def run(m, r):
    r.rule("R1", "no success is reported when a call of the library may have reported an error")
    r.rule("R2", "singular matrices and errors are reported when and only when the library reports them")
    r.rule("R3", "the inertia reported is that of the factorization just made, and is compared with the requested one")
    r.rule("R4", "a changed matrix or tolerance leads to a new factorization before the next solve")
    r.rule("R5", "success is reported only after a solve with the current factorization")
    r.rule("R6", "increasing the quality raises the tolerance and requests a new factorization")
    r.rule("R7", "the matrix of the linear system, when it changed, and the request for the inertia reach the solver; its status is passed on")
    r.rule("R8", "right hand sides are scaled before and solutions after the solve when scaling is on, and solutions are stored on success only")
    r.rule("R9", "the values given to the solver are those of the matrix, scaled by rows and columns when scaling is on")
    import multiprocessing
    global _m
    _m = m
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for out in pool.map(part, ("TSym",) + CLS[5:] + CLS[:5], chunksize=1):
            if isinstance(out, str):
                raise AnalysisError(out)
            for kind, a in out:
                if kind == "fn":
                    r.analysed([m.fns[u] if u in m.fns else u for u in a])
                else:
                    r.check(*a)
    for rule, n in (("R1", 20), ("R2", 20), ("R3", 20), ("R4", 20), ("R5", 20), ("R6", 10), ("R7", 50), ("R8", 50), ("R9", 20)):
        r.floor(rule, n, "obligations")

"""C09: the final point reaches the user exactly once, complete, each part in its own place."""
import os, re
from sa.engine import Engine, Client, TRUE, FALSE
from sa.db import AnalysisError, REPO
from sa.model import walk
from sa.flow import Flow, short
from sa.guards import Guard, engine, facts, field
from sa.scenario import Scenario, enum_values, calls_named

FS = ("FinalizeSolution", "finalize_solution")
# positions of the payload in the two signatures
NLPSIG = {"status": 0, "x": 1, "z_L": 2, "z_U": 3, "c": 4, "d": 5, "y_c": 6, "y_d": 7, "obj": 8}
TNLPSIG = {"status": 0, "x": 2, "z_L": 3, "z_U": 4, "g": 6, "lambda": 7, "obj": 8}
# role at the sink -> (must come from, may also come from) roles of the source
SAME_N = {k: ({k}, set()) for k in NLPSIG}
NLP_TO_TNLP = {"status": ({"status"}, set()), "x": ({"x"}, set()), "z_L": ({"z_L"}, {"x", "y_c", "y_d"}), "z_U": ({"z_U"}, {"x", "y_c", "y_d"}),
               "g": ({"c", "d"}, set()), "lambda": ({"y_c", "y_d"}, set()), "obj": ({"obj"}, set())}
SAME_T = {k: ({k}, set()) for k in TNLPSIG}
REDUCE = dict(SAME_T, g=({"x"}, {"g"}))           # dropped constraints: values are evaluated again at x
BOUNDS = dict(SAME_N, z_L=({"y_d"}, {"z_L"}), z_U=({"y_d"}, {"z_U"}))     # bounds are constraints there


class Mark(Client):
    """counts deliveries"""
    max_depth = 4

    def __init__(s, m, f, extra=None):
        s.m, s.f, s.extra = m, f, extra
        s.hit = 0

    def inline(s, g, d):
        return g.c == s.f.c and s.f.c is not None and g.name() not in FS and any(short(n) in FS for n in g.calls())

    def on_call(s, eng, st, n, fns, obj, args):
        if s.extra:
            r = s.extra(eng, st, n, fns, obj, args)
            if r is not None:
                return r
        if short(n) in FS:
            s.hit += 1
            return [(x.withprop(min(st.prop + 1, 2)).step("%s: %s" % (eng.loc(n), short(n))), w) for x, w in eng.havoc_call(st, n, fns, obj, args, eng.ptypes(n, fns))]
        return None


def roles(m, r, f, sig_in, sig_out, table, rule="R2"):
    """provenance of each argument of the forwarding call in f"""
    inv = {v: k for k, v in sig_in.items()}
    seen = {}

    def sink(fl, st, n, fns, ov, args):
        if short(n) in FS and len(args) > max(sig_out.values()):
            d = seen.setdefault(id(n), (n, [frozenset()] * len(args)))
            for i, a in enumerate(args):
                d[1][i] = d[1][i] | a
    inl = lambda g: (g.c == f.c and f.c is not None or g.c is None and g.file == f.file) and g.name() not in FS
    fl = Flow(m, inline=inl, sink=sink)
    fl.run(f)
    # the call may sit in a helper of the same class
    if not seen:
        raise AnalysisError("%s: no forwarding call found" % f.f)
    for n, args in seen.values():
        for role, pos in sig_out.items():
            must, may = table[role]
            got = {inv[l[1]] for l in args[pos] if l[0] == 'p' and l[1] in inv}
            miss = must - got
            extra = got - must - may
            r.check(not miss and not extra, rule, "%s:%s" % (f.f, role), f.at(n),
                    "%s handed on is %s" % (role, "not computed from %s" % ", ".join(sorted(miss)) if miss else "mixed with %s" % ", ".join(sorted(extra))))
    return fl


def field_roles(m, f, sig, what):
    """{member: roles whose data ends up in it (or in what it points to)} after f"""
    inv = {v: k for k, v in sig.items()}
    quiet = lambda fl, st, n, fns, ov, args: frozenset() if short(n).startswith(("suf_rput", "write_sol", "Printf")) else None
    fl = Flow(m, inline=lambda g: g.c == f.c, call=quiet)
    st, ret = fl.run(f)
    out = {}
    for l in set(st.env) | set(st.pts):
        if l[0] == 'f':
            rr = {inv[x[1]] for x in fl.labels(st, {l}) if x[0] == 'p' and x[1] in inv}
            if rr:
                out[l[1]] = rr
    if not out:
        raise AnalysisError("%s: %s" % (f.f, what))
    return out


def undelivered(m, f, fields):
    """members the function leaves unwritten (the arrays they point to) on some path that does not know them to be null"""
    def observe(eng, st, n, fns, obj, args):
        if short(n) in ("IpBlasCopy", "memcpy", "memmove", "copy", "copy_n"):
            d = {field(x) for x in args if field(x) in fields}
            d |= {field(y) for x in args if x[0] == '&' for y in [eng.read(st, x[1])] if field(y) in fields}
            return [(st.withprop(st.prop | d), ('void',))]
        return None

    class Cl(Guard):
        def on_assign(s, eng, st, lv, val, node):
            # *p = v, p[i] = v
            d = {x for x in fields if "'%s'" % x in repr(lv) and lv[0] != 'f'}
            return st.withprop(st.prop | d) if d else st

        def merge_key(s, eng, st):
            return frozenset(x for x in fields if isnull(eng, st, x))
    isnull = lambda eng, st, x: eng.equal(st, ('r', ('f', ('this',), x)), ('c', 0)) is True
    cl = Cl(m, inline=lambda g: g.c == f.c or (g.c is None and g.file == f.file), observe=observe)
    eng = engine(m, cl, cap=256)
    rets, thr = eng.run(f, frozenset())
    out = {}
    for st, v in rets:
        F = facts(st)
        null = {x for x in fields if isnull(eng, st, x)}
        empty = any(op in ('<=',) and b == ('c', 0) for op, a, b in F)
        for x in fields:
            if x not in st.prop and x not in null and not empty:
                out.setdefault(x, st)
    return out, rets


def run(m, r):
    r.rule("R1", "whatever the outcome, the final point is handed over exactly once (if there is one)")
    r.rule("R2", "every layer hands on each part of the final point (x, multipliers, constraint values, objective, status) in its own place")
    r.rule("R3", "for every outcome with an actual final point, that point's own values are handed over and multipliers of fixed variables are recovered")
    r.rule("R4", "the C, Fortran, Java, R and AMPL interfaces deliver each part where their caller looks for it")
    sr = enum_values(m, "Ipopt::SolverReturn")
    srn = {v: k for k, v in sr.items()}

    # ---------------------------------------------------------------- forwarding layers
    fwd = sorted([g for g in m.fns.values() if g.name() in FS and g.body is not None and any(short(n) in FS for n in g.calls()) and "example" not in g.file], key=lambda g: g.f)
    # a forwarding call moved to a helper
    for g in m.fns.values():
        if g.name() in FS and g.body is not None and g not in fwd and "example" not in g.file and g.c and \
                any(t.c == g.c and any(short(x) in FS for x in t.calls()) for n in g.calls() for t in m.targets(n)):
            fwd.append(g)
    names = {g.f for g in fwd}
    for need in ("Ipopt::OrigIpoptNLP::FinalizeSolution", "Ipopt::TNLPAdapter::FinalizeSolution"):
        if need not in names:
            raise AnalysisError("anchor function not found: " + need)
    for g in fwd:
        cl = Mark(m, g)
        eng = Engine(m, cl, cap=64)
        rets, thr = eng.run(g, 0)
        r.analysed([g])
        bad = next((st for st, v in rets if st.prop != 1), None)
        r.check(bad is None, "R1", g.f, g.at(), "" if bad is None else "the final point is handed on %s" % ("more than once" if bad.prop else "on no account on some path"), bad.path() if bad else None)
        fs = g.name() == "FinalizeSolution"
        tgt = [short(n) for n in g.calls() if short(n) in FS] or [FS[1] if not fs else FS[0]]
        out = NLPSIG if tgt[0] == "FinalizeSolution" else TNLPSIG
        inn = NLPSIG if fs else TNLPSIG
        table = BOUNDS if "BoundsRemover" in g.f else REDUCE if "Reducer" in g.f else (SAME_N if fs and out is NLPSIG else NLP_TO_TNLP if fs else SAME_T)
        roles(m, r, g, inn, out, table)

    # ---------------------------------------------------------------- the application
    PTS = {"curr", "x", "s", "z_L", "z_U", "y_c", "y_d", "v_L", "v_U", "curr_c", "curr_d", "curr_f"}
    WANT = {1: "x", 2: "z_L", 3: "z_U", 4: "curr_c", 5: "curr_d", 6: "y_c", 7: "y_d", 8: "curr_f"}

    def objects(eng, st, n, args):
        b = short(n)
        if b in PTS and not n["a"] and n.get("f", "").split("::")[-2:-1] in (["IpoptData"], ["IteratesVector"], ["IpoptCalculatedQuantities"]):
            if b == "curr_f":
                return [(st, ('e', 'curr', ('c', b)))]
            return [(st, ('&', ('g', b)))]
        return None

    def fin(eng, st, n, args):
        if n["k"] == "call" and b_is(n, "FinalizeSolution"):
            if eng is None:
                return True
            a = tuple(eng.norm(st, v) for v in args[:9])
            cnt = (st.prop[1][0] if st.prop[1] else 0) + 1
            return [(x.withprop((x.prop[0], (min(cnt, 2), a))), w) for x, w in eng.havoc_call(st, n, eng.m.targets(n), None, args, eng.ptypes(n, eng.m.targets(n)))]
        if eng is None:
            return None
        if n["k"] == "call" and b_is(n, "GetBoolValue") and n["a"] and any(x["k"] == "str" and x["v"] == "skip_finalize_solution_call" for x in walk(n["a"][0])):
            v = args[1]
            return [(eng.write(st, v[1], FALSE), TRUE)] if v[0] == '&' else None
        return objects(eng, st, n, args)

    def b_is(n, nm):
        return short(n) == nm

    def val(v):
        """identity of the handed-over object"""
        if v[0] == 'e' and v[1] == 'curr':
            return v[2][1]
        if v[0] == '&' and v[1][0] == 'g':
            return v[1][1]
        return None

    from checks.c06 import APP, APP_EXC, outcomes_of, const
    f = m.fn("Ipopt::IpoptApplication::call_optimize")
    oc = [(k, ('val', v)) for k, v in sr.items()] + [(t, ('throw', t)) for t in APP_EXC]
    cl = Scenario(m, calls_named("IpoptAlgorithm::Optimize"), oc, observe=fin, types=("SolverReturn", "ApplicationReturnStatus"), inline_file=f.file)
    out = outcomes_of(m, f, cl, r=r)
    real = set()
    for k in list(sr) + list(APP_EXC):
        got = out.get(k, {})
        badc = None
        badv = None
        for (kind, v, extra), st in got.items():
            if kind == "throw":
                continue        # C10
            n = extra[0] if extra else 0
            unknown = k in sr and APP.get(k, "Internal_Error") == "Internal_Error"
            if n != 1 and not (unknown and n == 0):
                badc = badc or ("the final point is handed over %s" % ("more than once" if n else "never"), st)
            if n == 1:
                a = extra[1]
                es = const(a[0], "status")
                ok = {i: val(a[i]) for i in WANT}
                if k in sr and es == sr[k] and k not in ("INVALID_NUMBER_DETECTED", "TOO_FEW_DEGREES_OF_FREEDOM") and not unknown:
                    for i, w in WANT.items():
                        if ok[i] != w:
                            badv = badv or ("after %s, not the final point's own %s is handed over" % (k, w), st)
                    real.add(k)
                elif ok[1] != "x":
                    badv = badv or ("after %s, not the current point is handed over" % k, st)
        if not got:
            raise AnalysisError("no path of call_optimize survives scenario " + k)
        r.check(badc is None, "R1", "call_optimize(%s)" % k, f.at(), badc[0] if badc else "", badc[1].path() if badc else None)
        r.check(badv is None, "R3", "call_optimize(%s)" % k, f.at(), badv[0] if badv else "", badv[1].path() if badv else None)

    # ---------------------------------------------------------------- fixed variables' multipliers
    f = m.fn("Ipopt::TNLPAdapter::FinalizeSolution")

    def bypar(f, ix, value):
        def setup(eng, st):
            st.env[('v', eng.frames[-1]["ctx"], f.p[ix]["id"])] = value
            return st
        return setup
    for k in sorted(real):
        class Rec(Client):
            max_depth = 3

            def inline(s, g, d):
                return g.c == f.c and g.name() not in FS and any(short(n) in ("ResortBoundMultipliers", "finalize_solution") for n in g.calls())

            def on_call(s, eng, st, n, fns, obj, args):
                if short(n) == "ResortBoundMultipliers":
                    return [(x.withprop(True), w) for x, w in eng.havoc_call(st, n, fns, obj, args, eng.ptypes(n, fns))]
                if short(n) == "finalize_solution" and not st.prop:
                    s.bad = st.step("%s: finalize_solution" % eng.loc(n))
                return None
        cl = Rec()
        cl.bad = None
        eng = Engine(m, cl, cap=64)
        eng.run(f, False, setup=bypar(f, 0, ('c', sr[k])))
        r.check(cl.bad is None, "R3", "TNLPAdapter::FinalizeSolution(%s)" % k, f.at(),
                "with status %s, bound multipliers of fixed variables are not recovered" % k, cl.bad.path() if cl.bad else None)

    # ---------------------------------------------------------------- sIPOPT
    f = m.fn("Ipopt::SensApplication::Run")
    r.analysed([f])
    for k, v in sorted(sr.items()):
        if k not in APP:
            continue

        class Sn(Client):
            max_depth = 2

            def on_call(s, eng, st, n, fns, obj, args):
                x = fin(eng, st, n, args)
                if x is None and short(n) in ("GetIntegerValue", "GetBoolValue"):
                    return None
                return x

            def skip_loop(s, eng, node):
                return True
        cl = Sn()
        eng = Engine(m, cl, cap=64)
        # the status is a local computed from the parameter: C06 decides that mapping
        rets, thr = eng.run(f, (None, None), setup=None)
        bad = None
        for st, rv in rets:
            ex = st.prop[1]
            n = ex[0] if ex else 0
            if n != 1:
                bad = bad or ("the final point is handed over %s" % ("more than once" if n else "never"), st)
            elif const_or_none(ex[1][0]) is not None and srn.get(ex[1][0][1]) in real:
                for i, w in WANT.items():
                    if val(ex[1][i]) != w:
                        bad = bad or ("after %s, not the final point's own %s is handed over" % (srn[ex[1][0][1]], w), st)
        r.check(bad is None, "R3", "SensApplication::Run", f.at(), bad[0] if bad else "", bad[1].path() if bad else None)
        break

    deliver(m, r)
    r.floor("R1", 14, "deliveries")
    r.floor("R2", 20, "parts handed on")
    r.floor("R3", 15, "outcomes")
    r.floor("R4", 12, "delivered parts")


def const_or_none(v):
    return v[1] if v[0] == 'c' else None


def deliver(m, r):
    PAY = [k for k in TNLPSIG if k != "status"]
    # ---- C interface
    f = m.fn("Ipopt::StdInterfaceTNLP::finalize_solution")
    fr = field_roles(m, f, TNLPSIG, "nothing is delivered")
    ctors = [g for g in m.fns.values() if g.c == "Ipopt::StdInterfaceTNLP" and g.kind == "ctor" and len(g.p) > 10]
    if len(ctors) != 1:
        raise AnalysisError("constructor of StdInterfaceTNLP not found")
    c = ctors[0]
    fl = Flow(m, inline=lambda g: g.c == c.c)
    st, _ = fl.run(c)
    par = {}
    for fld in fr:
        ps = {l[1] for l in fl.labels(st, {('f', fld)}) if l[0] == 'p'}
        if len(ps) == 1:
            par[fld] = next(iter(ps))
    cs = m.fn("IpoptSolve")
    CPOS = {"x": 1, "g": 2, "obj": 3, "lambda": 4, "z_L": 5, "z_U": 6}
    seen = {}

    def sink(fl2, st2, n, fns, ov, args):
        if n["k"] == "ctor" and n["c"].endswith("StdInterfaceTNLP") and len(args) == len(c.p):
            for i, a in enumerate(args):
                seen.setdefault(i, set()).update(l[1] for l in a if l[0] == 'p')
            seen["n"] = n
    fl = Flow(m, inline=lambda g: g.c is None and g.file == cs.file, sink=sink)
    fl.run(cs)
    if not seen:
        raise AnalysisError("IpoptSolve: construction of the problem object not found")
    r.analysed([f, c, cs])
    und, _ = undelivered(m, f, frozenset(fr))
    for role in PAY:
        flds = [x for x in fr if role in fr[x]]
        ok = bool(flds)
        for x in flds:
            r.check(x not in und, "R4", "C:%s:always" % role, f.at(), "%s can be left undelivered although the caller asked for it" % role, und[x].path() if x in und else None)
        why = "is not delivered"
        for x in flds:
            if fr[x] != {role}:
                ok, why = False, "shares its place with %s" % ", ".join(sorted(fr[x] - {role}))
            elif x not in par:
                ok, why = False, "is delivered to memory that is not the caller's"
            elif seen.get(par[x]) != {CPOS[role]}:
                ok, why = False, "is not delivered to argument %s of IpoptSolve" % cs.p[CPOS[role]]["n"]
        r.check(ok, "R4", "IpoptSolve:" + role, f.at(), "final %s %s" % (role, why))
    # ---- Fortran
    ff = m.fn("ipsolve_")
    seen2 = {}

    def sink2(fl2, st2, n, fns, ov, args):
        if short(n) == "IpoptSolve":
            for i, a in enumerate(args):
                seen2[i] = {l[1] for l in a if l[0] == 'p'}
    fl = Flow(m, inline=lambda g: g.c is None and g.file == ff.file, sink=sink2)
    fl.run(ff)
    if not seen2:
        raise AnalysisError("ipsolve_: call of IpoptSolve not found")
    for role in PAY:
        p = CPOS[role]
        r.check(p in seen2 and seen2[p] - {0} == {p}, "R4", "ipsolve_:" + role, ff.at(), "final %s is not delivered to argument %s" % (role, ff.p[p]["n"]))
    # ---- Java: native side
    jf = m.fn("Jipopt::finalize_solution")
    inv = {v: k for k, v in TNLPSIG.items()}
    arr = {}

    def sink3(fl2, st2, n, fns, ov, args):
        b = short(n)
        if b.startswith("Set") and b.endswith("ArrayRegion") and len(args) == 4:
            for l in args[0]:
                if l[0] == 'f':
                    arr.setdefault(l[1], set()).update(inv[x[1]] for x in args[3] if x[0] == 'p' and x[1] in inv)
    Flow(m, inline=lambda g: g.c == jf.c, sink=sink3).run(jf)
    jo = m.fn("Java_org_coinor_Ipopt_OptimizeTNLP")
    fl = Flow(m)
    st, _ = fl.run(jo)
    pos = {}
    for l in set(st.env) | set(st.pts):
        if l[0] == 'm':
            ps = {x[1] for x in fl.labels(st, {l}) if x[0] == 'p'}
            pos.setdefault(l[2], set()).update(ps)
    JPOS = java_positions()
    r.analysed([jf, jo])
    for role in PAY:
        flds = [x for x in arr if role in arr[x]]
        ok, why = bool(flds), "is not delivered"
        for x in flds:
            if arr[x] != {role}:
                ok, why = False, "shares its array with %s" % ", ".join(sorted(arr[x] - {role}))
            # native function: JNIEnv, object, then the declared parameters
            elif pos.get(x, set()) - {2} != {JPOS[role] + 2}:
                ok, why = False, "is not delivered to the array the Java accessor reads"
        r.check(ok, "R4", "Ipopt.java:" + role, jf.at(), "final %s %s" % (role, why))
    # ---- R
    rf = m.by_name.get("IpoptRNLP::finalize_solution")
    if rf:
        rf = rf[0]
        label, elem = {}, {}

        def const_int(n):
            while n is not None and n["k"] == "cast":
                n = n["e"]
            return n["v"] if n is not None and n["k"] == "int" else None

        def sink4(fl2, st2, n, fns, ov, args):
            b = short(n)
            if b == "SET_STRING_ELT" and len(n["a"]) == 3:
                q = n["a"][2]
                while q is not None and q["k"] in ("cast", "call"):
                    q = q["e"] if q["k"] == "cast" else (q["a"][0] if q["a"] else None)
                if q is not None and q["k"] == "str" and const_int(n["a"][1]) is not None:
                    label.setdefault(const_int(n["a"][1]), set()).add(q["v"])
            if b == "SET_VECTOR_ELT" and len(n["a"]) == 3 and const_int(n["a"][1]) is not None:
                elem[const_int(n["a"][1])] = ({inv[x[1]] for x in args[2] if x[0] == 'p' and x[1] in inv}, n)
        Flow(m, inline=lambda g: g.c == rf.c, sink=sink4).run(rf)
        r.analysed([rf])
        RN = {"x": "solution", "obj": "objective", "z_L": "z_L", "z_U": "z_U", "g": "constraints", "lambda": "lambda", "status": "status"}
        for role, nm in RN.items():
            ix = [i for i, ls in label.items() if nm in ls]
            ok = bool(ix) and any(i in elem and elem[i][0] == {role} for i in ix)
            r.check(ok, "R4", "R:" + role, rf.at(), "element \"%s\" of the result is not the final %s" % (nm, role))
    # ---- AMPL
    af = m.by_name.get("Ipopt::AmplTNLP::finalize_solution")
    if af:
        af = af[0]
        fr = field_roles(m, af, TNLPSIG, "nothing is delivered")
        snk = {}

        def sink5(fl2, st2, n, fns, ov, args):
            b = short(n)
            if b.startswith("write_sol") and b != "write_solution_file" or b.startswith("suf_rput"):
                nm = next((a["v"] for a in n["a"] if a is not None and a["k"] == "str"), None)
                snk.setdefault((b.split("_ASL")[0], nm), []).append([{l[1] for l in a if l[0] == 'f'} for a in args])
        for g in [g for g in m.fns.values() if g.c == af.c and g.body is not None]:
            if any(short(n).startswith(("write_sol", "suf_rput")) for n in g.calls()):
                r.analysed([g])
                Flow(m, sink=sink5).run(g)
        def delivered(keypred, role):
            for k, lst in snk.items():
                if keypred(k):
                    for args in lst:
                        for fields in args:
                            if any(fr.get(x) == {role} for x in fields):
                                return True
            return False
        wr = lambda k: k[0].startswith("write_sol")
        for role, kp in (("x", wr), ("lambda", wr), ("z_L", lambda k: k[1] == "ipopt_zL_out"), ("z_U", lambda k: k[1] == "ipopt_zU_out")):
            r.check(delivered(kp, role), "R4", "AMPL:" + role, af.at(), "final %s does not reach the solution file" % role)
        for x, rs in sorted(fr.items()):
            if len(rs) > 1:
                r.check(False, "R4", "AMPL:" + x, af.at(), "%s mixes the final %s" % (x.rsplit("::", 1)[-1], " and ".join(sorted(rs))))


def java_positions():
    """position (0-based, among the declared parameters) of each part in the native method, by the accessor that returns it"""
    p = os.path.join(REPO, "src/Interfaces/Ipopt.java")
    if not os.path.exists(p):
        raise AnalysisError("anchor file not found: src/Interfaces/Ipopt.java")
    s = open(p, errors="replace").read()
    s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
    s = re.sub(r"//[^\n]*", " ", s)
    acc = {"getVariableValues": "x", "getObjectiveValue": "obj", "getConstraintValues": "g", "getConstraintMultipliers": "lambda",
           "getLowerBoundMultipliers": "z_L", "getUpperBoundMultipliers": "z_U"}
    q = re.search(r"=\s*(?:this\.)?OptimizeTNLP\s*\(([^;]*)\)\s*;", s) or re.search(r"return\s+(?:this\.)?OptimizeTNLP\s*\(([^;]*)\)\s*;", s)
    if not q:
        raise AnalysisError("Ipopt.java: call of the native OptimizeTNLP not found")
    args = [a.strip().replace("this.", "") for a in q.group(1).split(",")]
    out = {}
    for g, role in acc.items():
        w = re.search(r"\b%s\s*\(\s*\)\s*\{[^}]*?return\s+(?:this\.)?(\w+)" % g, s)
        if not w:
            raise AnalysisError("Ipopt.java: accessor %s not found" % g)
        if w.group(1) not in args:
            out[role] = -99
            continue
        out[role] = args.index(w.group(1))
    return out

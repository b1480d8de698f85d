"""C08: limits and user stop requests are honoured at every iteration."""
from sa.engine import Engine, Client, TRUE, FALSE
from sa.guards import Guard, engine, facts, field, is_opt, is_pure, chain, options, short
from sa.scenario import enum_values, calls_named
from sa.model import walk, show, deref
from sa.db import AnalysisError

LIMITS = {"max_iter", "max_cpu_time", "max_wall_time", "max_resto_iter"}
ICB = {"IntermediateCallBack", "intermediate_callback"}


def limits(m, st):
    """what is known about the limits on this path"""
    F = facts(st)
    it = any(op in ('<=', '<') and is_opt(m, a, "max_iter") and is_pure(b, "iter_count") for op, a, b in F)
    noit = any((op == '<' and is_pure(a, "iter_count") and is_opt(m, b, "max_iter")) for op, a, b in F)

    def el(x, cpu):
        return x[0] == 'e' and x[1] == '-' and len(x) == 4 and is_pure(x[2], "CpuTime" if cpu else "WallclockTime") and \
            is_pure(x[3], "StartCpuTime" if cpu else "StartWallclockTime") and "OverallAlgorithm" in chain(x[3])
    hit = {}
    miss = {}
    for cpu, o in ((True, "max_cpu_time"), (False, "max_wall_time")):
        hit[o] = any(op in ('<=', '<') and is_opt(m, a, o) and el(b, cpu) for op, a, b in F)
        miss[o] = any((op in ('<', '<=') and el(a, cpu) and is_opt(m, b, o)) or
                      (op in ('<=', '<') and a[0] == 'c' and not isinstance(a[1], str) and a[1] >= 1e19 and is_opt(m, b, o)) for op, a, b in F)
    rlim = any(op in ('<=', '<') and is_opt(m, a, "max_resto_iter") for op, a, b in F)
    return it, noit, hit, miss, rlim


def run(m, r):
    r.rule("R1", "a convergence check lets the algorithm continue only if the intermediate callback did not ask to stop and no iteration, CPU-time or wall-clock limit is reached")
    r.rule("R2", "each limit status is returned only when its own limit (option) is reached, and USER_STOP whenever the callback returned false")
    r.rule("R3", "the main loop makes a convergence check (with the user callback) between any two steps, after counting the iteration")
    r.rule("R4", "the result of the user's intermediate callback is handed up unchanged through every interface layer, with the arguments in order")
    r.rule("R5", "the restoration phase gets what is left of the time limits, measured from the start of the run, and continues the iteration count")
    r.rule("R6", "the clock the limits are measured with is never disabled, and started when the run starts")
    cs = enum_values(m, "ConvergenceCheck::ConvergenceStatus")
    inv = {v: k for k, v in cs.items()}
    checks = [f for f in m.fns.values() if f.name() == "CheckConvergence" and f.c and m.is_a(f.c, "Ipopt::ConvergenceCheck")]
    for f in sorted(checks, key=lambda f: f.f):
        def observe(eng, st, n, fns, obj, args):
            if short(n) in ICB and n.get("k") == "call":
                return [(st.withprop("go").step("%s: callback asks to continue" % eng.loc(n)), TRUE),
                        (st.withprop("stop").step("%s: callback asks to stop" % eng.loc(n)), FALSE)]
            if n.get("k") == "call" and short(n) == "Set_tol" and st.prop != "stop":
                # converged, but the tolerance of the restoration phase is tightened: goes on for one more check
                return [(st.withprop("tighten"), ('void',))]
            if n.get("k") == "call" and short(n) == "TestOrigProgress":
                return [(x, ('c', v)) for v in (cs["CONTINUE"], cs["CONVERGED"]) for x, _ in eng.havoc_call(st, n, fns, obj, args, eng.ptypes(n, fns))]
            return None
        cl = Guard(m, inline=lambda g, f=f: (g.c is None and g.file == f.file) or g.c and (m.is_a(f.c, g.c)) and m.is_a(g.c, "Ipopt::ConvergenceCheck") and
                   g.name() not in ("CurrentIsAcceptable", "TestOrigProgress"), observe=observe)
        cl.types = ("ConvergenceStatus",)
        base = cl.merge_key
        cl.merge_key = lambda eng, st, base=base: (base(eng, st), frozenset(
            k for k, t in st.cons.items() if any(field(x) and options(m).get(field(x), frozenset()) & LIMITS for x in k[2:])))
        eng = engine(m, cl, cap=400)
        rets, thr = eng.run(f, None)
        r.analysed([f])
        if not f.p:
            raise AnalysisError("CheckConvergence has no parameter any more")
        par = ('r', ('p', f.p[0]["n"]))
        bad = {}
        seen = set()
        for st, v in rets:
            v = eng.norm(st, v)
            if v[0] != 'c' or v[1] not in inv:
                # the status computed elsewhere: any of them
                raise AnalysisError("%s returns a status the analysis cannot name: %s" % (f.f, v))
            name = inv[v[1]]
            seen.add(name)
            it, noit, hit, miss, rlim = limits(m, st)
            if name == "CONTINUE":
                if st.prop == "stop":
                    bad.setdefault("user-stop", ("continues although the callback asked to stop", st))
                if st.prop is None and eng.truth(st, par) is not False:
                    bad.setdefault("callback", ("continues without calling the intermediate callback", st))
                if not noit:
                    bad.setdefault("max_iter", ("continues without having found the iteration count below max_iter", st))
                for o in miss:
                    if not miss[o] and st.prop != "tighten":
                        bad.setdefault(o, ("continues without having found the elapsed time below %s" % o, st))
            if st.prop == "stop" and name != "USER_STOP":
                bad.setdefault("stop-status", ("the callback asked to stop but the status is " + name, st))
            if name == "USER_STOP" and st.prop != "stop":
                bad.setdefault("stop-unasked", ("USER_STOP although the callback did not ask to stop", st))
            if name == "MAXITER_EXCEEDED" and not (it or rlim):
                bad.setdefault("maxiter-early", ("MAXITER_EXCEEDED although no iteration limit is reached", st))
            if name == "CPUTIME_EXCEEDED" and not hit["max_cpu_time"]:
                bad.setdefault("cpu-early", ("CPUTIME_EXCEEDED although the CPU limit is not reached", st))
            if name == "WALLTIME_EXCEEDED" and not hit["max_wall_time"]:
                bad.setdefault("wall-early", ("WALLTIME_EXCEEDED although the wall-clock limit is not reached", st))
        for t, st in thr:
            if st.prop == "stop":
                bad.setdefault("stop-throw", ("the callback asked to stop but an exception is raised", st))
        for k in ("user-stop", "callback", "max_iter", "max_cpu_time", "max_wall_time"):
            b = bad.get(k)
            r.check(b is None, "R1", f.f + ":" + k, f.at(), "%s %s" % (f.f, b[0] if b else ""), b[1].path() if b else None)
        for k in ("stop-status", "stop-unasked", "maxiter-early", "cpu-early", "wall-early", "stop-throw"):
            b = bad.get(k)
            r.check(b is None, "R2", f.f + ":" + k, f.at(), "%s: %s" % (f.f, b[0] if b else ""), b[1].path() if b else None)
        for k in ("CONTINUE", "USER_STOP", "MAXITER_EXCEEDED", "CPUTIME_EXCEEDED", "WALLTIME_EXCEEDED"):
            r.check(k in seen, "R2", f.f + ":gives-" + k, f.at(), "%s can no longer return %s" % (f.f, k))
    main_loop(m, r, cs)
    forward(m, r)
    resto(m, r)
    clock(m, r)
    r.floor("R1", 5, "limits of convergence checks")
    r.floor("R2", 10, "statuses")
    r.floor("R3", 2, "main loop")
    r.floor("R4", 5, "callback layers")
    r.floor("R5", 3, "restoration limits")
    r.floor("R6", 2, "clock")
    r.assume += ["time limits of 1e20 or more mean 'no limit'", "facts hold for the program points where they were tested (time goes on)"]


class Loop(Client):
    """prop: (checked, counted, iterations accepted since last count)"""
    max_depth = 2

    def __init__(s, m, cs, file):
        s.m, s.cs, s.file = m, cs, file
        s.bad = {}
        s.n = 0
        s.chk = 0

    def inline(s, fn, depth):
        return False

    @staticmethod
    def is_check(n):
        return n["k"] == "call" and short(n) == "CheckConvergence" and len(n["a"]) == 1

    STEP = {"ComputeSearchDirection", "ComputeAcceptableTrialPoint", "AcceptTrialPoint"}

    def on_call(s, eng, st, n, fns, obj, args):
        b = short(n)
        f = n.get("f", "")
        if s.is_check(n):
            s.chk += 1
            full = args[0] == TRUE
            out = []
            for x, v in eng.havoc_call(st, n, fns, obj, args, eng.ptypes(n, fns)):
                if not full:
                    out.append((x, v))
                    continue
                if not x.prop[1]:
                    s.bad.setdefault("count", ("a convergence check is made before the accepted step is counted", eng.loc(n), x))
                out.append((x.withprop((True, True)), ('c', s.cs["CONTINUE"])))
                out.append((x.withprop(("done", True)), ('c', s.cs["MAXITER_EXCEEDED"])))     # any other status
            return out
        if f == "Ipopt::IpoptAlgorithm::" + b and b in s.STEP:
            s.n += 1
            if b == "ComputeAcceptableTrialPoint" or b == "ComputeSearchDirection":
                if st.prop[0] is not True:
                    s.bad.setdefault("unchecked", ("%s is called without a convergence check since the last accepted step" % b, eng.loc(n), st))
            if b == "AcceptTrialPoint":
                return [(x.withprop((False, False)).step("%s: step accepted" % eng.loc(n)), v) for x, v in eng.havoc_call(st, n, fns, obj, args, eng.ptypes(n, fns))]
        if b == "Set_iter_count" and f.startswith("Ipopt::IpoptData"):
            return [(x.withprop((x.prop[0], True)), v) for x, v in eng.havoc_call(st, n, fns, obj, args, eng.ptypes(n, fns))]
        return None


def main_loop(m, r, cs):
    f = m.fn("Ipopt::IpoptAlgorithm::Optimize")
    helpers = {g.u for g in m.fns.values() if g.c == f.c and g is not f and g.file == f.file and any(
        Loop.is_check(n) and n["a"][0]["k"] == "bool" and n["a"][0]["v"] or short(n) == "Set_iter_count" or n.get("f") in ("Ipopt::IpoptAlgorithm::" + x for x in Loop.STEP)
        for n in g.calls()) and "Ipopt::IpoptAlgorithm::" + g.name() not in ["Ipopt::IpoptAlgorithm::" + x for x in Loop.STEP]}
    cl = Loop(m, cs, f.file)
    cl.inline = lambda g, d: g.u in helpers
    eng = Engine(m, cl, cap=64)
    rets, thr = eng.run(f, (False, True))
    r.analysed([f])
    if cl.n < 3 or cl.chk < 1:
        raise AnalysisError("main loop not recognised (%d steps, %d convergence checks)" % (cl.n, cl.chk))
    for k in ("unchecked", "count"):
        b = cl.bad.get(k)
        r.check(b is None, "R3", "Optimize:" + k, b[1] if b else f.at(), b[0] if b else "", b[2].path() if b else None)
    # the increment is one
    for n in f.calls():
        pass
    incs = []
    for g in [f] + [m.fns[u] for u in helpers]:
        for n in g.calls():
            if n["k"] == "call" and short(n) == "Set_iter_count":
                a = n["a"][0]
                while a["k"] == "cast":
                    a = a["e"]
                incs.append((g, n, a))
    for g, n, a in incs:
        ok = a["k"] == "bin" and a["op"] == "+" and any(x["k"] == "int" and x["v"] == 1 for x in (a["a"], a["b"])) or a["k"] == "ref"
        r.check(ok, "R3", "Optimize:increment", g.at(n), "the iteration count is not incremented by one: " + show(a))


def forward(m, r):
    """return value and arguments of the intermediate callback through the layers"""
    for f in sorted([g for g in m.fns.values() if g.name() in ICB], key=lambda g: g.f):
        class Fw(Client):
            max_depth = 2

            def __init__(s):
                s.n = []

            def on_call(s, eng, st, n, fns, obj, args):
                b = short(n)
                fe = deref(n.get("fe")) if n.get("fe") else None
                while fe is not None and fe["k"] in ("cast", "un"):
                    fe = fe["e"]
                cb = b in ICB or (fe is not None and fe["k"] in ("mem", "ref") and "intermediate" in fe["n"].lower()) or \
                    (f_java(n) and any(x["k"] == "mem" and "intermediate" in x["n"] for a in n["a"] for x in walk(a)))
                if not cb:
                    return None
                s.n.append((n, [eng.norm(st, a) for a in args], st))
                return [(x.withprop(("called", t)), ('c', t)) for t in (1, 0) for x, _ in eng.havoc_call(st, n, fns, obj, args, eng.ptypes(n, fns))]
        cl = Fw()
        eng = Engine(m, cl, cap=64)
        rets, thr = eng.run(f, None)
        r.analysed([f])
        bad = None
        for st, v in rets:
            t = eng.truth(st, v)
            if st.prop is not None:
                if t is None or t != bool(st.prop[1]):
                    bad = bad or ("the answer of the user's callback is not handed on", st)
            elif t is not True:
                bad = bad or ("asks to stop although the user's callback was not called", st)
        default = not cl.n
        if default:
            # no callback below: the default must say 'continue'
            r.check(bad is None, "R4", f.f, f.at(), bad[0] if bad else "", bad[1].path() if bad else None)
            continue
        if bad is None:
            names = [p["n"] for p in f.p]
            for n, args, st in cl.n:
                got = []
                for a in args:
                    nm = None
                    x = a
                    if x[0] == '&':
                        x = x[1]
                        if x[0] == 'p':
                            nm = x[1]
                    while x[0] == 'e' and len(x) == 3:
                        x = x[2]
                    if x[0] == 'r' and x[1][0] == 'p':
                        nm = x[1][1]
                    got.append(nm)
                order = [names.index(g) for g in got if g in names]
                if order != sorted(order):
                    bad = ("the arguments of the callback are handed on in a different order", st)
                scal = [p["n"] for p in f.p if "*" not in p["t"]]
                miss = [p for p in scal if p not in got]
                if miss:
                    bad = bad or ("argument %s of the callback is not handed on" % miss[0], st)
        r.check(bad is None, "R4", f.f, f.at(), "%s: %s" % (f.f, bad[0] if bad else ""), bad[1].path() if bad else None)


def f_java(n):
    return n.get("f", "").startswith("JNIEnv_::Call")


def resto(m, r):
    f = m.fn("Ipopt::MinC_1NrmRestorationPhase::PerformRestoration")
    helpers = {g.u for g in m.fns.values() if g.c == f.c and not g.virt and any(short(n) in ("SetNumericValue", "CpuTime", "WallclockTime", "Set_iter_count") for n in g.calls())}
    seen = {}
    state = {}

    def observe(eng, st, n, fns, obj, args):
        b = short(n)
        if n["k"] != "call":
            return None
        if b == "SetNumericValue" and n.get("f", "").startswith("Ipopt::OptionsList") and len(args) >= 2:
            v = lambda a: eng.norm(st, eng.read(st, a[1]) if a[0] == '&' else a)
            o, val = v(args[0]), v(args[1])
            if o[0] == 'c' and isinstance(o[1], str):
                key = o[1].rsplit(".", 1)[-1]
                if key in ("max_cpu_time", "max_wall_time"):
                    cpu = key == "max_cpu_time"
                    el = lambda x: x[0] == 'e' and x[1] == '-' and is_pure(x[2], "CpuTime" if cpu else "WallclockTime") and \
                        is_pure(x[3], "StartCpuTime" if cpu else "StartWallclockTime") and "OverallAlgorithm" in chain(x[3])
                    ok = val[0] == 'e' and val[1] == '-' and is_opt(m, val[2], key) and el(val[3])
                    seen.setdefault(key, []).append((ok, eng.loc(n), st))
                    return [(st.withprop(st.prop | {key}), TRUE)]
        if b == "Set_iter_count":
            v = eng.norm(st, eng.read(st, args[0][1]) if args[0][0] == '&' else args[0])
            ok = v[0] == 'e' and v[1] == '+' and any(is_pure(x, "iter_count") for x in v[2:]) and any(x == ('c', 1) for x in v[2:])
            seen.setdefault("iter", []).append((ok, eng.loc(n), st))
            return [(st.withprop(st.prop | {"iter"}), ('void',))]
        if b == "Optimize" and n.get("f", "").startswith("Ipopt::IpoptAlgorithm"):
            F = facts(st)
            for key in ("max_cpu_time", "max_wall_time"):
                inf = any(a[0] == 'c' and not isinstance(a[1], str) and a[1] >= 1e19 and is_opt(m, c, key) for op, a, c in F if op in ('<', '<='))
                if key not in st.prop and not inf:
                    state.setdefault(key, (eng.loc(n), st))
            if "iter" not in st.prop:
                state.setdefault("iter", (eng.loc(n), st))
            return []       # what comes afterwards is C06's business
        return None
    cl = Guard(m, inline=lambda g: g.u in helpers, observe=observe)
    cl.term_any = False
    eng = engine(m, cl, cap=200)
    rets, thr = eng.run(f, frozenset())
    r.analysed([f])
    for key in ("max_cpu_time", "max_wall_time", "iter"):
        s = seen.get(key)
        if not s:
            r.bad("R5", key, f.at(), "the restoration phase is started without %s" % ("the remaining " + key if key != "iter" else "continuing the iteration count"))
            continue
        b = next((x for x in s if not x[0]), None)
        r.check(b is None, "R5", key, b[1] if b else s[0][1], "the restoration phase gets a wrong %s" % key, b[2].path() if b else None)
        b = state.get(key)
        r.check(b is None, "R5", key + ":always", b[0] if b else f.at(), "the restoration phase can be started without %s" % key, b[1].path() if b else None)
    # statuses thrown when nothing is left are C06's


def clock(m, r):
    cls = "Ipopt::TimingStatistics::"
    for f in sorted(m.fns.values(), key=lambda f: f.f):
        for n in f.calls():
            if n.get("f") == "Ipopt::TimedTask::Disable" and n.get("o") is not None:
                o = deref(n["o"])
                nm = (o.get("n") or o.get("f") or "").rsplit("::", 1)[-1]
                r.check(not nm.startswith("OverallAlgorithm"), "R6", f.f + ":" + nm, f.at(n), "the clock of the overall algorithm is disabled: time limits would be measured from an undefined start")
    # Optimize starts it before the first convergence check

    class St_(Client):
        def __init__(s):
            s.bad = None
            s.n = 0

        def on_call(s, eng, st, n, fns, obj, args):
            b = short(n)
            if b == "Start" and n.get("o") is not None and any(x["k"] == "call" and short(x) == "OverallAlgorithm" for x in walk(n["o"])):
                s.n += 1
                return [(st.withprop(True), ('void',))]
            if Loop.is_check(n) and not st.prop:
                s.bad = s.bad or (eng.loc(n), st)
            return None

        def skip_loop(s, eng, n):
            return False
    f = m.fn("Ipopt::IpoptAlgorithm::Optimize")
    cl = St_()
    helpers = {g.u for g in m.fns.values() if g.c == f.c and any(short(n) == "OverallAlgorithm" for n in g.calls())}
    cl.inline = lambda g, d: g.u in helpers
    eng = Engine(m, cl, cap=32)
    eng.run(f, False)
    r.check(cl.bad is None and cl.n > 0, "R6", "Optimize:start", cl.bad[0] if cl.bad else f.at(), "time limits are tested before the clock is started", cl.bad[1].path() if cl.bad else None)
    # the start times come from the right clocks
    g = m.fn("Ipopt::TimedTask::Start")
    r.analysed([f, g])
    for n in g.nodes():
        if n["k"] == "bin" and n["op"] == "=":
            t = deref(n["a"])
            if t["k"] == "mem":
                nm = t["n"].rsplit("::", 1)[-1]
                want = {"start_cputime_": "CpuTime", "start_systime_": "SysTime", "start_walltime_": "WallclockTime"}.get(nm)
                if want:
                    r.check(any(x["k"] == "call" and short(x) == want for x in walk(n["b"])), "R6", "TimedTask::Start:" + nm, g.at(n), "%s is not taken from %s()" % (nm, want))

"""C01: a failed problem callback is never turned into success."""
from sa.engine import Engine, Client, TRUE, FALSE
from sa.model import show, walk, deref
from sa.chain import callbacks, fp_member, jni_call, C_CB, F_CB, AMPL_CB

# Functions in which a failed callback has another documented outcome than "report failure":
# (function, callback or helper) -> reason.
TOLERATED = {
    ("Ipopt::GradientScaling::DetermineScalingParametersImpl", "*"): "documented fallback with a warning: no scaling of that part",
    ("Ipopt::WarmStartIterateInitializer::SetInitialIterates", "GetWarmStartIterate"): "documented fallback: normal starting point when no warm start iterate is provided",
    ("Ipopt::TNLPAdapter::GetSpaces", "DetermineDependentConstraints"): "documented fallback with a warning: assume full rank",
    ("Ipopt::TNLPAdapter::FinalizeSolution", "ResortBoundMultipliers"): "after the solve nothing can be reported but a warning",
    ("Ipopt::TNLPReducer::finalize_solution", "eval_g"): "after the solve nothing can be reported",
}
BOOLISH = ("bool", "int", "unsigned char")
JNI_CB = ("eval_f_", "eval_grad_f_", "eval_g_", "eval_jac_g_", "eval_h_", "get_bounds_info_",
          "get_starting_point_", "get_scaling_parameters_", "get_list_of_nonlinear_variables_")
PURE = {"Asum", "Nrm2", "Amax", "Dim", "GetTag", "IsHomogeneous", "NRows", "NCols", "Scalar"}


class Ctx:
    def __init__(s, m):
        s.m = m
        s.cbs = callbacks(m)
        s.summ = {}      # usr -> helper name: bool functions proven to report every failure
        s.rel = set()

    def event(s, n):
        if n["k"] != "call":
            return None
        u = n.get("u")
        if u in s.cbs:
            return ("bool", s.cbs[u])
        if u in s.summ:
            return ("bool", s.summ[u])
        if n.get("fe") is not None:
            fm = fp_member(n)
            if fm in C_CB:
                return ("bool", fm)
            if fm in F_CB or fm in AMPL_CB:
                return ("code", fm)
        j = jni_call(n)
        if j in JNI_CB:
            return ("bool", j)
        return None


class Chain(Client):
    """property state: (frozenset of (callback, call site) whose latest outcome was failure)"""
    max_depth = 5

    def __init__(s, cx):
        s.cx = cx
        s.sites = set()
        s.badadd = {}
        s.adds = set()
        s._skip = {}

    def inline(s, fn, depth):
        return fn.u in s.cx.rel and fn.u not in s.cx.summ and depth < s.max_depth

    def skip_loop(s, eng, node):
        k = id(node)
        if k not in s._skip:
            r = True
            for n in walk(node):
                if n["k"] in ("return", "throw", "goto", "try"):
                    r = False
                elif n["k"] == "call":
                    if s.cx.event(n) or "::AddCachedResult" in n.get("f", "") or any(t.u in s.cx.rel for t in eng.m.targets(n)):
                        r = False
                if not r:
                    break
            s._skip[k] = (r, node)
        return s._skip[k][0]

    def pure(s, eng, st, n, obj):
        if n.get("cm") and not n["a"] and obj is not None and n.get("f", "").rsplit("::", 1)[-1] in PURE:
            return [(st, ('e', 'pure', ('c', n["f"].rsplit("::", 1)[-1]), obj))]
        return None

    def on_call(s, eng, st, n, fns, obj, args):
        if "::AddCachedResult" in n.get("f", ""):
            fr = eng.frames[0]["fn"]
            key = "%s:%s" % (fr.f, show(deref(n.get("o"))))
            s.adds.add(key)
            if st.prop[0]:
                s.badadd.setdefault(key, ({a for a, _ in st.prop[0]}, st.path(), eng.loc(n)))
            return None
        e = s.cx.event(n)
        if e is None:
            return s.pure(eng, st, n, obj)
        kind, name = e
        s.sites.add(name)
        site = (name, eng.site(n))
        out = []
        for x, v in eng.havoc_call(st, n, fns, obj, args, eng.ptypes(n, fns)):
            good = x.withprop((x.prop[0] - {site},)).step("%s: %s succeeds" % (eng.loc(n), name))
            bad = x.withprop((x.prop[0] | {site},)).step("%s: %s reports failure" % (eng.loc(n), name))
            if kind == "bool":
                out += [(good, TRUE), (bad, FALSE)]
            else:
                # error code delivered through the last pointer argument; without one the callee cannot return after an error
                p = args[-1]
                lv = p[1] if p[0] == '&' else ('d', p)
                good, bad = good.copy(), bad.copy()
                good.env[lv] = ('c', 0)
                bad.env[lv] = ('c', 1)
                out.append((good, v))
                bad = eng.assume(bad, p, True)
                if bad is not None:
                    out.append((bad, v))
        return out


class Second(Chain):
    """the second request: state (1,) once it has called back"""
    def skip_loop(s, eng, node):
        return True

    def after_skip(s, eng, st, node):
        # the first request failed inside such a loop or beyond it: passing through it is calling back
        return st if Chain.skip_loop(s, eng, node) else st.withprop((1,))

    def on_call(s, eng, st, n, fns, obj, args):
        if s.cx.event(n) is None:
            return s.pure(eng, st, n, obj)
        return [(x.withprop((1,)), v) for x, v in eng.havoc_call(st, n, fns, obj, args, eng.ptypes(n, fns))]


def run(m, r):
    r.rule("R1", "on every path through a function that asks the problem for data or an evaluation, a failed callback ends in 'false'/an exception, never in a normal successful return")
    r.rule("R2", "after a failed request, asking for the same quantity again does not report success without evaluating again")
    r.rule("R3", "a result is stored in an evaluation cache only when every callback on the path to the store succeeded")
    r.assume += ["distinct pointer values denote distinct objects", "callbacks report failure only through their return value / error code",
                 "tolerated failures (documented fallbacks): " + "; ".join("%s<-%s: %s" % (a, b, c) for (a, b), c in sorted(TOLERATED.items()))]
    cx = Ctx(m)
    cbs = cx.cbs
    LAYERS = ("src/Interfaces/", "src/Algorithm/", "src/Apps/", "contrib/")
    direct = {f.u for f in m.fns.values() if f.file.startswith(LAYERS) and any(cx.event(c) for c in f.calls())}
    rel = set(direct)
    cg = m.callgraph()
    changed = True
    while changed:
        changed = False
        for f in m.fns.values():
            if f.u not in rel and f.file.startswith(("src/Interfaces/", "src/Apps/")) and f.u not in cbs and f.f.startswith(("Ipopt::TNLP", "Ipopt::Ampl", "Ipopt::StdI", "Ipopt::Orig", "Get", "ip", "Java", "Jipopt")):
                if f.f.startswith("Ipopt::OrigIpoptNLP"):
                    continue
                if any(t in rel and t not in cbs for t in cg[f.u]):
                    rel.add(f.u)
                    changed = True
    small = {f.u for f in m.fns.values() if f.name() == "nerror_ok"}
    cx.rel = (rel | small) - set(cbs)
    callers = m.callers()

    def analyse(f):
        cl = Chain(cx)
        eng = Engine(m, cl, cap=24)
        rets, thr = eng.run(f, (frozenset(),))
        bad = {}
        for st, v in rets:
            if not st.prop[0]:
                continue
            if f.rt in BOOLISH and eng.truth(st, eng.norm(st, v)) is (f.rt == "int" and f.file.endswith("FInterface.c")):
                continue         # (the Fortran interface returns 0 for success)
            for s, _ in st.prop[0]:
                bad.setdefault(s, (st, v))
        return cl, eng, rets, bad

    results, order, busy = {}, [], set()

    def visit(f):
        if f.u in results or f.u in busy:
            return
        busy.add(f.u)
        for t in sorted(cg[f.u]):
            if t in rel and t not in cbs:
                visit(m.fns[t])
        res = analyse(f)
        results[f.u] = res
        order.append(f)
        # a bool function that reports every failure is from now on an event for its callers
        if f.rt == "bool" and f.u not in cbs and not f.virt and res[0].sites and not [k for k in res[3] if (f.f, k) not in TOLERATED] and f.file.endswith((".cpp", ".hpp")):
            cx.summ[f.u] = f.name()

    for u in sorted(direct | rel, key=lambda u: (m.fns[u].file, m.fns[u].l)):
        visit(m.fns[u])

    for f in order:
        cl, eng, rets, bad = results[f.u]
        r.analysed([f])
        if f.u not in cbs and not f.virt and f.u not in cx.summ and \
                any(c in rel for c in callers.get(f.u, ())) and f.file.endswith((".cpp", ".hpp")):
            continue      # a helper without a failure report of its own: judged inlined in its callers
        for s in sorted(cl.sites):
            inst = "%s<-%s" % (f.f, s)
            if (f.f, s) in TOLERATED or (f.f, "*") in TOLERATED:
                continue
            if s in bad:
                st, v = bad[s]
                r.bad("R1", inst, f.at(), "%s can return %s although %s failed" %
                      (f.f, "success" if f.rt in BOOLISH else "normally", s), st.path())
            else:
                r.ok("R1", inst, f.at())
        for k in sorted(cl.adds):
            hit = cl.badadd.get(k)
            r.check(hit is None, "R3", k, hit[2] if hit else f.at(),
                    "a cache entry is added on a path where %s failed" % (", ".join(sorted(hit[0])) if hit else ""),
                    hit[1] if hit else None)

    # members holding the tag of the current evaluation point
    tagged = set()
    for f in m.fns.values():
        if f.c and f.file.startswith("src/Interfaces/"):
            for n in f.nodes():
                if n["k"] == "bin" and n["op"] == "=" and n["a"]["k"] == "mem" and n["b"]["k"] == "call" and n["b"].get("f", "").endswith("::GetTag"):
                    tagged.add(n["a"]["n"])

    # R2: run again from every failing exit; helpers are looked into (their own caches matter)
    cx.summ = {}
    for f in order:
        if f.rt != "bool" or not f.f.startswith(("Ipopt::TNLPAdapter::", "Ipopt::Ampl", "Ipopt::StdInterfaceTNLP::")) or not f.file.endswith(".cpp"):
            continue
        cl = Chain(cx)
        eng = Engine(m, cl, cap=200)

        def setup0(e, st, f=f):
            st = st.copy()
            for x in tagged:      # an evaluation point has been set; tags are never 0
                st.ne[e.read(st, ('f', ('this',), x))] = frozenset({0})
            return st
        rets, thr = eng.run(f, (frozenset(),), setup=setup0)
        fails = []
        seen = set()
        for st, v in rets:
            if st.prop[0] and eng.truth(st, v) is False:
                st1 = st.copy()
                st1.prop = (frozenset(),)
                pids = {p["id"] for p in f.p}
                for x in [x for x in st1.env if x[0] == 't' or (x[0] == 'v' and not (x[1] == () and x[2] in pids))]:
                    del st1.env[x]
                for p in f.p:        # the second request has the same arguments
                    st1.env[('v', (), p["id"])] = ('&', ('p', p["n"])) if p["t"].endswith("&") else ('r', ('p', p["n"]))
                eng.gc(st1)
                if st1.key() not in seen:
                    seen.add(st1.key())
                    fails.append(st1)
        bad2 = None
        for base in fails[:60]:
            eng2 = Engine(m, Second(cx), cap=200)
            eng2.rerun = True

            def setup(e, st):
                y = base.copy()
                for k, v in st.env.items():
                    y.env.setdefault(k, v)
                y.prop = (0,)
                return y.step("--- the same request again ---")
            rets2, _ = eng2.run(f, (0,), setup=setup)
            for st, v in rets2:
                if st.prop[0] == 0 and eng2.truth(st, v) is not False:
                    bad2 = st
                    break
            if bad2:
                break
        if fails:
            r.check(bad2 is None, "R2", f.f, f.at(),
                    "after a failed evaluation, the next %s at the same point can return success without calling back" % f.f,
                    bad2.path() if bad2 else None)
    r.floor("R1", 60, "callback x caller pairs")
    r.floor("R2", 10, "repeated requests")
    r.floor("R3", 4, "cache stores after an evaluation")

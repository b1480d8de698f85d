"""C02: non-finite evaluation results are evaluation errors; failed trial points are never accepted."""
from sa.engine import Engine, Client, TRUE, FALSE
from sa.model import walk, show, deref
from sa.db import AnalysisError
from sa.loops import counting, covers

NORMS = {"Nrm2", "Asum", "Sum"}           # propagate NaN and Inf
VALUE_EVALS = {"Eval_f", "Eval_grad_f", "Eval_c", "Eval_d"}
DERIV_EVALS = {"Eval_jac_c", "Eval_jac_d", "Eval_h"}
PURE = NORMS | {"HasValidNumbers", "Nonzeros", "NRows", "NCols", "Dim", "NComps_Rows", "NComps_Cols", "NComps_Dim", "NComps", "NTerms"}
FINITE = {"IsFiniteNumber", "isfinite"}


def short(n):
    return n.get("f", "").rsplit("::", 1)[-1]


class Eval(Client):
    """prop: (kind, value of the delivered quantity) while it has not been tested, else None"""
    max_depth = 3

    def __init__(s, m, own):
        s.m = m
        s.own = own
        s.evals = {}
        s.bad = {}
        s._skip = {}

    def inline(s, fn, depth):
        return fn.c == s.own and fn.u in s.helpers

    helpers = ()

    def on_call(s, eng, st, n, fns, obj, args):
        b = short(n)
        if b in FINITE and len(args) == 1:
            return [(st, ('e', 'pure', ('c', 'finite'), eng.norm(st, args[0])))]
        if n.get("cm") and not n["a"] and obj is not None and b in PURE:
            return [(st, ('e', 'pure', ('c', b), obj))]
        if b in VALUE_EVALS | DERIV_EVALS and n.get("f", "").startswith("Ipopt::NLP::"):
            out = []
            for x, v in eng.havoc_call(st, n, fns, obj, args, eng.ptypes(n, fns)):
                o = args[-1]
                if b == "Eval_f":
                    o = eng.read(x, o[1]) if o[0] == '&' else o
                else:
                    o = o if o[0] != '&' else ('&', o[1])
                s.evals.setdefault(b, eng.loc(n))
                out.append((x.withprop((b, o)).step("%s: %s delivers a value" % (eng.loc(n), b)), v))
            return out
        if b.startswith("AddCachedResult"):
            s.judge(eng, st, eng.loc(n), "stored for reuse")
        return None

    def judge(s, eng, st, loc, what):
        if st.prop is None:
            return
        kind, o = st.prop
        if kind in VALUE_EVALS:
            if kind == "Eval_f":
                ok = eng.truth(st, ('e', 'pure', ('c', 'finite'), o))
            else:
                ok = any(eng.truth(st, ('e', 'pure', ('c', 'finite'), ('e', 'pure', ('c', x), o))) for x in NORMS) or \
                    eng.truth(st, ('e', 'pure', ('c', 'HasValidNumbers'), o))
        else:
            opt = [v for k, v in st.env.items() if k[0] == 'f' and k[1] == ('this',) and k[2].endswith("::check_derivatives_for_naninf_")]
            ok = any(eng.truth(st, v) is False for v in opt) or eng.truth(st, ('e', 'pure', ('c', 'HasValidNumbers'), o)) or \
                any(eng.truth(st, ('e', 'pure', ('c', 'finite'), ('e', 'pure', ('c', x), o))) for x in NORMS)
        if not ok:
            s.bad.setdefault(kind, (what, loc, st))


class Valid(Client):
    """prop: 'bad' once a component was found invalid"""
    max_depth = 3

    def __init__(s, m, cls):
        s.m = m
        s.cls = cls
        s.tests = 0
        s.lens = []

    def inline(s, fn, depth):
        return fn.c == s.cls and not fn.virt and "bool" in fn.rt and any(short(n) == "HasValidNumbers" or short(n) in FINITE for n in fn.calls())

    def on_call(s, eng, st, n, fns, obj, args):
        b = short(n)
        if b == "HasValidNumbers" and n.get("o") is not None and not n["a"] or (b in FINITE and len(args) == 1):
            s.tests += 1
            return [(st.step("%s: %s is true" % (eng.loc(n), show(n)[:60])), TRUE),
                    (st.withprop("bad").step("%s: %s is false" % (eng.loc(n), show(n)[:60])), FALSE)]
        if b == "IpBlasAsum" and len(args) == 3:
            s.lens.append((eng.norm(st, args[0]), args[1], eng.loc(n)))
        if n.get("cm") and not n["a"] and b in PURE:
            return [(st, ('e', 'pure', ('c', b), obj))]
        return None


class Trial(Client):
    """prop: True while the current trial point's evaluation has failed"""
    max_depth = 2

    def __init__(s, m, thrower, file):
        s.m = m
        s.thrower = thrower
        s.file = file
        s.mod = None

    def inline(s, fn, depth):
        return fn.file == s.file and s.has_handler(fn)

    @staticmethod
    def has_handler(fn):
        return any(n["k"] == "try" and any("Eval_Error" in (h.get("t") or "") for h in n["h"]) for n in fn.nodes())

    def on_call(s, eng, st, n, fns, obj, args):
        mod = eng.modsets()
        if any("Ipopt::IpoptData::trial_" in mod.get(t.u, ()) for t in fns):
            # a new trial point
            st = st.withprop(False)
        if any(t.u in s.thrower for t in fns):
            eng.pending.append(("Ipopt::IpoptNLP::Eval_Error", st.withprop(True).step("%s: %s fails to evaluate" % (eng.loc(n), show(n)[:50]))))
        out = []
        if len(fns) == 1 and s.inline(fns[0], 0) and len(eng.frames) <= s.max_depth and not any(f["fn"] is fns[0] for f in eng.frames):
            return eng.inline_call(st, n, fns[0], obj, args)
        return eng.havoc_call(st, n, fns, obj, args, eng.ptypes(n, fns))


def run(m, r):
    r.rule("R1", "objective value, gradient and constraint vectors delivered by the problem pass a test that fails for NaN/Inf before they are returned or cached")
    r.rule("R2", "Jacobians and Hessian pass the validity test before they are returned or cached whenever check_derivatives_for_naninf is set")
    r.rule("R3", "a vector's or matrix's validity test reports 'invalid' if any examined part is invalid and 'valid' otherwise")
    r.rule("R4", "the validity test of a vector or matrix class examines every numeric component that its products use")
    r.rule("R5", "the finiteness test is the C library's test applied to the value")
    r.rule("R6", "a trial point at which an evaluation failed is not accepted by the line search")
    # ---------------- R1/R2
    for kind in sorted(VALUE_EVALS | DERIV_EVALS):
        fs = [f for f in m.fns.values() if f.c == "Ipopt::OrigIpoptNLP" and
              any(short(n) == kind and n.get("f", "").startswith("Ipopt::NLP::") for n in f.calls())]
        if not fs:
            raise AnalysisError("nobody calls NLP::%s any more" % kind)
        own = "Ipopt::OrigIpoptNLP"
        callers = m.callers()
        for f in fs:
            helpers = {f.u}
            top = [f]
            # a helper that returns before the test: judge its callers
            for _ in range(3):
                new = []
                for g in top:
                    cs = [m.fns[u] for u in callers.get(g.u, ()) if m.fns[u].c == own and not g.virt]
                    new += cs if cs else [g]
                helpers |= {g.u for g in new}
                top = list({g.u: g for g in new}.values())
            for g in top:
                cl = Eval(m, own)
                cl.helpers = helpers
                eng = Engine(m, cl, cap=64)
                rets, thr = eng.run(g, None)
                r.analysed([g])
                for st, v in rets:
                    cl.judge(eng, st, g.at(), "returned")
                b = cl.bad.get(kind)
                r.check(b is None, "R1" if kind in VALUE_EVALS else "R2", "%s:%s" % (g.f, kind), g.at(),
                        "the result of %s is %s without having been tested for NaN/Inf" % (kind, b[0] if b else ""), b[2].path() if b else None)
    # ---------------- R3/R4
    impls = [f for f in m.fns.values() if f.name() == "HasValidNumbersImpl" and f.body is not None]
    LENS = {"Nonzeros": 1}
    for f in sorted(impls, key=lambda f: f.f):
        cl = Valid(m, f.c)
        eng = Engine(m, cl, cap=64)
        rets, thr = eng.run(f, None)
        r.analysed([f])
        bad = None
        for st, v in rets:
            t = eng.truth(st, v)
            if st.prop == "bad" and t is not False:
                bad = bad or ("reports valid although a part is invalid", st)
            if st.prop != "bad" and t is not True:
                bad = bad or ("reports invalid although every examined part is valid", st)
        if cl.tests == 0 and f.c == "Ipopt::Matrix":
            continue          # default of classes that have no numbers of their own (R4 looks at those that have)
        if cl.tests == 0:
            if all(v == TRUE for st, v in rets):
                bad = ("examines nothing", rets[0][0])
            else:
                raise AnalysisError("%s: no recognised validity test" % f.f)
        r.check(bad is None, "R3", f.f, f.at(), bad[0] if bad else "", bad[1].path() if bad else None)
        for ln, arr, loc in cl.lens:
            names = sorted(x[1] for x in all_terms(ln) if x[0] == 'c' and isinstance(x[1], str))
            okl = ln[0] == 'e' and ((ln[1] == 'pure') or (ln[1] == '*' and all(y[0] == 'e' and y[1] == 'pure' for y in ln[2:])))
            if ln[0] == 'e' and ln[1] in ('+', '-', '/'):
                r.bad("R4", f.f + ":length", loc, "the validity test does not cover the whole value array (length %s)" % names)
            elif okl:
                r.ok("R4", f.f + ":length", loc)
    # loops of the validity tests run over everything
    for f in sorted(impls, key=lambda f: f.f):
        lv = []
        for n in f.nodes():
            if n["k"] == "for":
                x = counting(f, n)
                if x:
                    c = covers(f, n, lv)
                    lv.append(x[0])
                    if c is not None:
                        r.check(c == "full", "R4", "%s:loop%d" % (f.f, len(lv)), f.at(n), "the validity test leaves out the first or last components")
    # nothing is skipped inside these loops because of its position
    for f in sorted(impls, key=lambda f: f.f):
        for n in f.nodes():
            if n["k"] not in ("for", "while", "do", "rfor") or n.get("b") is None:
                continue
            inner = set()
            for x in walk(n):
                if x["k"] == "decl" or x["k"] == "for":
                    for v in (x.get("v") or []) if isinstance(x.get("v"), list) else []:
                        inner.add(v.get("id"))
            for c in walk(n["b"]):
                if c["k"] not in ("if", "cond"):
                    continue
                sub = list(walk(c["c"]))
                idx = any(x["k"] == "sub" and not any(t in x.get("t", "") for t in ("Number", "double", "float", "SmartPtr", "Matrix", "Vector", "bool")) for x in sub)
                pos = any(x["k"] == "bin" and x["op"] in ("<", "<=", ">", ">=", "==", "!=", "%") and
                          all(y["k"] in ("ref", "int", "num", "cast", "bin", "paren") for side in ("a", "b") for y in walk(x[side])) and
                          any(y["k"] == "ref" for y in walk(x)) and "Number" not in "".join(y.get("t", "") for y in walk(x)) for x in sub)
                there = any(x["k"] == "call" and (short(x) in ("Diagonal", "ConstComp", "ConstVec", "IsValid", "IsNull", "HasValidNumbers", "GetComp", "GetRawPtr")) for x in sub)
                r.check(not idx and (there or not pos), "R4", "%s:skip" % f.f, f.at(c), "the validity test skips entries depending on their position")
    # components
    EXC = {"factors_": "scalar factors of sum matrices are set by the algorithm, not by the problem"}
    for c in sorted(m.subclasses("Ipopt::Matrix") | m.subclasses("Ipopt::Vector")):
        mult = [g for g in m.fns.values() if g.c == c and g.name() in ("MultVectorImpl", "TransMultVectorImpl", "Nrm2Impl", "DotImpl")]
        if not mult:
            continue
        f = None
        for b in [c] + supers_in_order(m, c):
            f = next((g for g in impls if g.c == b), None)
            if f:
                break
        if f is None:
            raise AnalysisError("no validity test found for " + c)
        numeric = {}
        for b in [c] + list(m.superclasses(c)):
            if b in ("Ipopt::Matrix", "Ipopt::SymMatrix", "Ipopt::Vector", "Ipopt::TaggedObject", "Ipopt::ReferencedObject", "Ipopt::Subject"):
                continue
            for fl in m.classes.get(b, {}).get("fields", []):
                t = fl["t"]
                if "Space" in t or "bool" in t or "Index" in t or t.strip() == "int":
                    continue
                if "Number" in t or "double" in t or "Matrix" in t or "Vector" in t:
                    numeric[fl["n"]] = t

        def reads(g, seen=None):
            seen = seen if seen is not None else set()
            if g.u in seen:
                return set()
            seen.add(g.u)
            out = {n["n"] for n in g.nodes() if n["k"] == "mem" and n["n"] in numeric}
            for x in g.calls():
                for t in m.targets(x):
                    if t.c == c or (t.c and m.is_a(c, t.c)):
                        out |= reads(t, seen)
            return out
        used = set()
        for g in mult:
            used |= reads(g)
        if f.c == "Ipopt::Vector":
            continue        # generic test through the norm, which is defined by the class itself
        have = reads(f)
        r.analysed([f] + mult)
        for x in sorted(used):
            sh = x.rsplit("::", 1)[-1]
            if sh in EXC:
                continue
            # two views of one member (values_ / non-const twin vectors) are one component
            twin = {y for y in have if y.rsplit("::", 1)[-1].replace("const_", "") == sh.replace("const_", "")}
            r.check(x in have or bool(twin), "R4", "%s:%s" % (c, sh), f.at(),
                    "%s is used in products but not examined by the validity test" % sh)
    # ---------------- R5
    f = m.fn("Ipopt::IsFiniteNumber")
    r.analysed([f])
    p = f.p[0]["id"]
    tests = [n for n in f.calls() if short(n).strip("_") in ("isfinite", "finite", "isfinitef", "finitef", "builtin_isfinite") or short(n) in ("isnan", "isinf")]
    calls_ok = [n for n in tests if any(x["k"] == "ref" and x.get("id") == p for a in n["a"] for x in walk(a))]
    consts = [n for n in f.nodes() if n["k"] == "return" and n.get("e") and n["e"]["k"] in ("bool", "int")]
    if not tests and not consts:
        raise AnalysisError("IsFiniteNumber: no recognised test")
    neg = any(n["k"] == "un" and n["op"] == "!" and any(short(x).strip("_") in ("isfinite", "finite") for x in walk(n["e"]) if x["k"] == "call") for n in f.nodes())
    r.check(bool(calls_ok) and not (neg and len(tests) == 1 and not any(n["k"] == "if" for n in f.nodes())), "R5", f.f, f.at(),
            "the finiteness test does not test the value")
    # ---------------- R6
    evals = [g.u for g in m.fns.values() if g.c == "Ipopt::OrigIpoptNLP" and any(short(n) in VALUE_EVALS for n in g.calls())]
    thrower, st_ = set(evals), list(evals)
    callers = m.callers()
    while st_:
        x = st_.pop()
        for c in callers.get(x, ()):
            if c not in thrower and not Trial.has_handler(m.fns[c]):
                thrower.add(c)
                st_.append(c)
            elif c not in thrower:
                thrower.add(c)      # may still throw outside its handler
                st_.append(c)
    LS = [f for f in m.fns.values() if Trial.has_handler(f) and f.c and
          (m.is_a(f.c, "Ipopt::LineSearch") or m.is_a(f.c, "Ipopt::BacktrackingLSAcceptor"))]
    skipf = {n["n"] for g in m.fns.values() if g.name() == "CheckSkippedLineSearch" for n in g.nodes() if n["k"] == "mem"}
    for f in sorted(LS, key=lambda f: f.f):
        cl = Trial(m, thrower, None)
        eng = Engine(m, cl, cap=64)
        rets, thr = eng.run(f, False)
        r.analysed([f])
        bad = None
        for st, v in rets:
            if any(st.env.get(('f', ('this',), k)) == TRUE for k in skipf):
                continue            # line search declared skipped: the caller does not accept the point
            if st.prop and (f.rt == "void" or eng.truth(st, v) is not False):
                bad = st
                break
        r.check(bad is None, "R6", f.f, f.at(), "%s can end with the trial point accepted although its evaluation failed" % f.f, bad.path() if bad else None)
    r.floor("R1", 4, "quantities")
    r.floor("R2", 3, "derivative matrices")
    r.floor("R3", 10, "validity tests")
    r.floor("R4", 9, "components")
    r.floor("R5", 1, "finiteness test")
    r.floor("R6", 3, "line-search functions with a handler for evaluation errors")
    r.assume += ["sums/norms of values are non-finite iff a value is (no overflow)", "matrix validity of scaled/sum matrices is that of the wrapped matrices; scaling factors are the algorithm's own"]


def supers_in_order(m, c):
    out = []
    for b in m.classes.get(c, {}).get("bases", ()):
        out.append(b)
        out += supers_in_order(m, b)
    return out


def all_terms(v):
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(y for y in x if isinstance(y, tuple))

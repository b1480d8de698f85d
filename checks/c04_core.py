"""C04 R5: the result cache itself."""
from sa.quant import Facts, show
from sa.guards import engine, short
from sa.db import AnalysisError
from checks.c04_tags import gettag, own, par

NT_ALL, NT_DESTROYED, NT_CHANGED = "NT_All", "NT_BeingDestroyed", "NT_Changed"


class Core(Facts):
    """vector elements as terms; calls are recorded in order"""
    term_any = True
    keep = consts = ()

    def on_call(s, eng, st, n, fns, obj, args):
        b = short(n)
        if n["k"] == "call" and b in ("operator[]", "at") and n.get("o") is not None:
            loc = ('m', s.base(eng, st, obj), s.val(eng, st, args[0]))
            if loc[1][0] == 'p' and loc[1][1] in s.consts:
                return [(st, eng.read(st, loc))]
            return [(st, ('&', loc))]
        if n["k"] == "call" and b in s.keep:
            a = tuple(s.val(eng, st, x) for x in args)
            st = s.log(st, (b,) + ((s.val(eng, st, obj),) if obj is not None else (None,)) + a)
            if fns and n.get("t") == "bool" or b in ("DependentsIdentical", "IsStale"):
                return [(st, ('e', 'pure', ('c', b), s.val(eng, st, obj)) + a)]
            if b in ("GetResult",):
                return [(st, ('e', 'pure', ('c', b), s.val(eng, st, obj)))]
            return [(st, ('void',))]
        return super().on_call(eng, st, n, fns, obj, args)

    def base(s, eng, st, o):
        while o[0] == '&':
            o = o[1]
        return o

    def log(s, st, ev):
        d = dict(st.prop)
        log = d.get(('log',), ())
        if log and log[-1] == ev:
            return st
        return s.put(st, ('log',), (log if len(log) < 5 else log[:1] + log[-3:]) + (ev,))

    def on_assign(s, eng, st, lv, val, node):
        if lv[0] == 'x':
            lv = ('m', s.base(eng, st, lv[1]), lv[2])
        if lv[0] == 'm' and lv[2] in (('c', 0), ('c', 1), ('c', 2), ('c', 3)):
            st = s.put(st, ('el', lv), s.val(eng, st, val))
        return st


def run_core(m, f, keep=(), cap=300):
    cl = Core(m, opaque=lambda n: False)
    cl.keep = keep
    cl.consts = {p["n"] for p in f.p if p["t"].startswith("const ")}
    eng = engine(m, cl, cap)
    eng.termdepth = 60
    rets, _ = eng.run(f, frozenset())
    return cl, eng, rets


def vec(b):
    while b[0] in ('&', 'r', 'd'):
        b = b[1]
    return b[1] if b[0] == 'p' else b[2].rsplit("::", 1)[-1] if b[0] == 'f' else "local" if b[0] == 'v' else None


def element(t):
    """(vector, index) a value was read from"""
    if t[0] == 'r':
        t = t[1]
    if t[0] in ('m', 'x'):
        return (vec(t[1]), t[2])
    return None


def identical(m, f, r):
    cl, eng, rets = run_core(m, f)
    D, S = f.p[0]["n"], f.p[1]["n"]
    bad = None
    proof = set()
    ntrue = 0
    for st, v in rets:
        if eng.norm(st, v) in (('c', 0), ('c', False)):
            continue
        ntrue += 1
        fs = cl.factterms(eng, st)
        eq, zero = set(), set()
        size = {}
        for op, a, b in fs:
            for x, y in ((a, b), (b, a)):
                if op == '==' and y == ('c', 0) and element(x):
                    zero.add(element(x))
                elif op == '==' and y[0] != 'c':
                    eq.add((x, y))
        for V in (D, S):
            sized = any(op == '==' and is_size(a) and is_size(b) and V in (is_size(a), is_size(b)) for op, a, b in fs)
            none = any(op in ('<=', '==') and is_size(a) == V and b == ('c', 0) for op, a, b in fs)
            e = (V, ('c', 0))
            wide = any(element(x) and element(x)[0] == V and element(x)[1][0] != 'c' for op, a, b in fs for x in (a, b)) or widened(fs, V)
            vague = not any(is_size(x) == V and y[0] == 'c' or is_size(y) == V and x[0] == 'c' for op, x, y in fs)
            ok = sized and (none or wide or vague)
            for x, y in eq:
                g = element(gettag(x)) if gettag(x) else element(x)
                h = element(y)
                if h and g == e and h[1] == ('c', 0) and (gettag(x) is not None) == (V == D) and h[0] not in (D, S):
                    ok = sized
                    proof.add(V)
            if e in zero and any(z[0] not in (D, S) and z[1] == ('c', 0) for z in zero):
                ok = sized
            if not ok and bad is None:
                bad = (V, st)
    if bad is None and ntrue and len(proof) < 2:
        bad = (({D, S} - proof).pop(), rets[0][0])
    r.check(bad is None and ntrue, "R5", "a result is found only under identical dependencies", "%s:%s" % (f.file, f.l),
            "%s calls lists identical whose %s were not all compared" % (f.f, bad[0] if bad else ""), bad[1].path() if bad else [])


def is_size(t):
    if t[0] == 'e' and t[1] == 'pure' and t[2][1] == "size":
        o = t[3]
        if o[:2] == ('e', 'list') and len(o) > 2 and element(o[2]):
            return element(o[2])[0]
        if o[0] == 's' and o[2] and o[2][0] == 'h':
            o = o[2][1]
        if o[0] == 'j':
            o = o[2]
        return vec(o)
    return None


def widened(fs, vec):
    return any(op in ('<', '<=') and (is_size(a) == vec and b[0] != 'c' and is_size(b) is None or is_size(b) == vec and a[0] != 'c' and is_size(a) is None) for op, a, b in fs)


def remember(m, f, r):
    cl, eng, rets = run_core(m, f, keep=("RequestAttach",))
    D = f.p[1]["n"]
    bad = None
    seen = 0
    for st, v in rets:
        fs = cl.factterms(eng, st)
        d = dict(st.prop)
        if not any(op == '<' and a == ('c', 0) and is_size(b) == D for op, a, b in fs):
            if not any(op in ('<=', '==') and is_size(a) == D and b == ('c', 0) for op, a, b in fs) and not widened(fs, D):
                bad = bad or st
            continue
        seen += 1
        e = (D, ('c', 0))
        null = any(op == '==' and element(a) == e and b == ('c', 0) for op, a, b in fs)
        el = [x for k, x in d.items() if k[0] == 'el' and element(k[1]) and element(k[1])[1] == ('c', 0) and element(k[1])[0] != D]
        if null:
            good = el == [('c', 0)]
        else:
            att = [x for x in d.get(('log',), ()) if x[0] == "RequestAttach" and element(x[3]) == e]
            good = len(el) == 1 and gettag(el[0]) is not None and element(gettag(el[0])) == e and att
        if not good:
            bad = bad or st
    ini = {}
    for n in f.rec.get("init", []) or []:
        ini[n.get("n", "").rsplit("::", 1)[-1]] = n
    r.check(bad is None and seen, "R5", "a result remembers the state of every dependency and watches it", "%s:%s" % (f.file, f.l),
            "%s does not keep the tag of a dependency or does not watch it" % f.f, bad.path() if bad else [])


def notified(m, f, r, enum):
    cl, eng, rets = run_core(m, f)
    bad = None
    for st, v in rets:
        fs = cl.factterms(eng, st)
        other = any(op == '!=' and par(a) == f.p[0]["n"] and b == ('c', enum[NT_CHANGED]) or
                    op == '==' and par(a) == f.p[0]["n"] and b[0] == 'c' and b != ('c', enum[NT_CHANGED]) for op, a, b in fs)
        val = eng.norm(st, eng.read(st, ('f', ('this',), f.c + "::stale_")))
        if not other and val not in (('c', 1), ('c', True)):
            bad = st
    r.check(bad is None, "R5", "a result becomes stale when a dependency changes", "%s:%s" % (f.file, f.l),
            "%s leaves the result valid although a dependency changed" % f.f, bad.path() if bad else [])


def lookup(m, f, r):
    cl, eng, rets = run_core(m, f, keep=("CleanupInvalidatedResults", "DependentsIdentical", "GetResult", "IsStale"))
    bad, n = None, 0
    for st, v in rets:
        if eng.norm(st, v) in (('c', 0), ('c', False)):
            continue
        n += 1
        log = dict(st.prop).get(('log',), ())
        fs = cl.factterms(eng, st)
        names = [x[0] for x in log]
        ident = [x for x in log if x[0] == "DependentsIdentical" and any(op == '!=' and b == ('c', 0) and a[0] == 'e' and a[1] == 'pure' and a[2][1] == x[0] and a[3] == x[1] for op, a, b in fs)]
        last = [x for x in log if x[0] == "DependentsIdentical"][-1:]
        got = [x for x in log if x[0] == "GetResult"]
        ok = last and got and got[-1][1] == last[0][1] and [par2(x) for x in last[0][2:]] == [p["n"] for p in f.p[1:]] and \
            "CleanupInvalidatedResults" in names and names.index("CleanupInvalidatedResults") < names.index("DependentsIdentical") and ident
        if not ok:
            bad = bad or st
    r.check(bad is None and n, "R5", "a lookup returns a result found under the given dependencies, after stale ones were dropped", "%s:%s" % (f.file, f.l),
            "%s may return a stale result or one with other dependencies" % f.f, bad.path() if bad else [])


def par2(t):
    while t[0] in ('&', 'r', 'd'):
        t = t[1]
    return t[1] if t[0] == 'p' else None


def wrappers(m, fs, r):
    for f in fs:
        if len(f.p) < 2:
            continue
        keep = ("GetCachedResult", "AddCachedResult", "GetCachedResult1Dep", "AddCachedResult1Dep", "GetCachedResult2Dep", "AddCachedResult2Dep",
                "GetCachedResult3Dep", "AddCachedResult3Dep")
        if f.name() in ("GetCachedResult", "AddCachedResult") and len(f.p) == 3:
            continue
        cl, eng, rets = run_core(m, f, keep=keep)
        bad = None
        kind = f.name()[:3]
        for st, v in rets:
            log = [x for x in dict(st.prop).get(('log',), ()) if x[0] in keep]
            if len(log) != 1 or not log[0][0].startswith(kind):
                bad = st
                continue
            c = log[0]
            want = [p["n"] for p in f.p]
            if "Dep" in c[0]:
                have = [par2(x) for x in c[2:]]
                good = have == want and c[0][-4] == str(len(want) - 1)
            elif f.name().endswith("Dep"):
                els = {k[1][2]: par2(x) for k, x in dict(st.prop).items() if k[0] == 'el'}
                good = par2(c[2]) == want[0] and els == {('c', i): w for i, w in enumerate(want[1:])}
            else:
                good = [par2(x) for x in c[2:2 + len(want)]] == want
            if f.name().startswith("Get") and eng.norm(st, v)[:2] != ('e', 'pure') and eng.norm(st, v)[0] not in ('s', 'void'):
                good = False
            if not good:
                bad = st
        r.check(bad is None and rets, "R5", "%s/%d passes on every dependency" % (f.name(), len(f.p)) + (" by reference" if "&" in f.p[1]["t"] and f.name().endswith("Dep") else ""), "%s:%s" % (f.file, f.l),
                "%s loses or mixes up a dependency" % f.f, bad.path() if bad else [])


def run(m, r):
    C = [f for f in m.fns.values() if f.body is not None and f.c in ("Ipopt::CachedResults", "Ipopt::DependentResult")]
    by = {}
    for f in C:
        by.setdefault((f.c.rsplit("::", 1)[-1], f.name()), []).append(f)
    need = [("DependentResult", "DependentsIdentical"), ("DependentResult", "ReceiveNotification"), ("DependentResult", "DependentResult"), ("CachedResults", "GetCachedResult"), ("CachedResults", "AddCachedResult")]
    for k in need:
        if k not in by:
            raise AnalysisError("C04: %s::%s not found" % k)
    enum = m.enum("Ipopt::Observer::NotifyType") if hasattr(m, "enum") else None
    if not enum:
        enum = {NT_ALL: 0, NT_DESTROYED: 1, NT_CHANGED: 2}
    for f in by[need[0]]:
        identical(m, f, r)
    for f in by[need[2]]:
        remember(m, f, r)
    for f in by[need[1]]:
        notified(m, f, r, enum)
    for f in by[need[3]]:
        if len(f.p) == 3:
            lookup(m, f, r)
    wrappers(m, [f for f in C if f.c.endswith("CachedResults") and f.name().startswith(("GetCached", "AddCached"))], r)
    return C

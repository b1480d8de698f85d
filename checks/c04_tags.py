"""C04 R4: change detection by tags."""
from sa.quant import Facts, show
from sa.guards import engine, field, short
from sa.db import AnalysisError


def runf(m, f, cap, inline=None):
    cl = Facts(m, opaque=lambda n: False, inline=inline)
    cl.term_any = True
    eng = engine(m, cl, cap)
    eng.termdepth = 60
    rets, _ = eng.run(f, frozenset())
    return cl, eng, rets


def gettag(t):
    """the object whose tag this is"""
    if t[0] == 'e' and t[1] == 'pure' and t[2][1] == "GetTag":
        return t[3]
    return None


def par(t):
    while t[0] in ('&',):
        t = t[1]
    if t[0] == 'r' and t[1][0] == 'p':
        return t[1][1]
    if t[0] == 'r' and t[1][0] == 'd':
        return par(t[1][1])
    if t[0] == 'p':
        return t[1]
    if t[0] == 'd':
        return par(t[1])
    return None


def own(t):
    """own member this value was read from"""
    if t[0] == 'r' and t[1][0] == 'f' and t[1][1] == ('this',):
        return t[1][2]
    return None


def detectors(m):
    out = []
    for f in m.fns.values():
        if f.body is None or not f.c or f.rt != "bool" or len(f.p) < 4:
            continue
        tags = [n for n in f.calls() if short(n) == "GetTag" and n.get("o") is not None]
        if len(tags) >= 3:
            out.append(f)
    return out


def ties(f, cl, eng, st):
    """parameter -> members it is known to agree with"""
    fs = cl.factterms(eng, st)
    eq, zero = {}, set()
    for op, a, b in fs:
        if op != '==':
            continue
        for x, y in ((a, b), (b, a)):
            if y == ('c', 0):
                if par(x):
                    zero.add(par(x))
                if own(x):
                    zero.add(own(x))
            if own(y):
                o = gettag(x)
                p = par(o) if o is not None else par(x)
                if p:
                    eq.setdefault(p, set()).add((own(y), o is not None))
    return eq, zero


def detector(m, f, r):
    cl, eng, rets = runf(m, f, 600, inline=lambda g: g.c == f.c)
    tie, bad = {}, {}
    n = 0
    names = {p["n"] for p in f.p}
    pend = []
    for st, v in rets:
        v = eng.norm(st, v)
        if v not in (('c', 0), ('c', False)):
            continue
        n += 1
        eq, zero = ties(f, cl, eng, st)
        pend.append((eq, zero, st))
        for p, s in eq.items():
            tie[p] = tie[p] & s if p in tie else set(s)
    if not n:
        return None
    for eq, zero, st in pend:
        for p in names:
            if p in eq and eq[p] & tie[p]:
                continue
            if p in zero and p in tie and any(x in zero for x, t in tie[p]):
                continue
            bad.setdefault(p, st)
    for p in sorted(names):
        r.check(p not in bad, "R4", "%s/%s" % (f.f.split("Ipopt::", 1)[-1], p), "%s:%s" % (f.file, f.l),
                "%s may answer \"unchanged\" although %s changed" % (f.f, p), bad[p].path() if p in bad else [])
    return {p: next(iter(s)) for p, s in tie.items() if s}


class Stores(Facts):
    def on_assign(s, eng, st, lv, val, node):
        st = super().on_assign(eng, st, lv, val, node)
        if lv[0] == 'f' and lv[1] == ('this',) and lv[2] in s.watch:
            st = s.put(st, ('stored', lv[2]), val)
        return st


def stores(m, f, tie, r):
    """whoever remembers one input remembers all of them"""
    idx = {p["n"]: i for i, p in enumerate(f.p)}
    fields = {x: (idx[p], t, p) for p, (x, t) in tie.items()}
    n = 0
    for g in m.fns.values():
        if g.c != f.c or g.body is None or g.kind in ("ctor", "dtor") or g.name() in ("InitializeImpl", "Initialize"):
            continue
        w = {x["a"]["n"] for x in g.nodes() if x["k"] == "bin" and x["op"] == "=" and x["a"]["k"] == "mem"} & set(fields)
        if not w:
            continue
        n += 1
        cl = Stores(m, opaque=lambda n: False)
        cl.watch, cl.term_any = fields, True
        eng = engine(m, cl, 300)
        eng.termdepth = 60
        rets, _ = eng.run(g, frozenset())
        bad = {}
        for st, v in rets:
            d = dict(st.prop)
            vals = {x: d.get(('stored', x), ('e', 'not stored')) for x in fields}
            if all(v == ('e', 'not stored') for v in vals.values()):
                continue
            vals = {x: cl.term(eng, st, eng.norm(st, v)) for x, v in vals.items()}
            _, zero = ties(g, cl, eng, st)
            for x, (i, tag, p) in fields.items():
                v = vals[x]
                want = g.p[i]["n"] if i < len(g.p) else None
                o = gettag(v) if tag else v
                good = o is not None and par(o) == want or v == ('c', 0) and want in zero
                if not good:
                    bad.setdefault(x, (st, v))
        for x in sorted(fields):
            r.check(x not in bad, "R4", "%s/stores %s" % (g.f.split("Ipopt::", 1)[-1], x.rsplit("::", 1)[-1]), "%s:%s" % (g.file, g.l),
                    "%s remembers the matrix it worked with, but %s becomes %s" % (g.f, x.rsplit("::", 1)[-1], show(bad[x][1]) if x in bad else ""),
                    bad[x][0].path() if x in bad else [])
    return n


class Uses(Facts):
    term_any = True

    def on_call(s, eng, st, n, fns, obj, args):
        if n["k"] == "call" and fns and any(g is s.det for g in fns):
            s.calls.append((eng.loc(n), [par(s.term(eng, st, s.val(eng, st, a))) or par(a) for a in args]))
            return [(s.put(st, ('changed',), True).step("%s: the inputs changed" % eng.loc(n)), ('c', 1)), (st, ('c', 0))]
        if n["k"] == "call" and fns and any(g.u in s.storing for g in fns):
            st = s.after(eng, st)
            s.stores.append((eng.loc(n), [par(s.term(eng, st, s.val(eng, st, a))) or par(a) for a in args]))
            return [(s.put(st, ('renewed',), True), ('void',))]
        if n["k"] == "call" and fns and n.get("t", "").endswith("ESymSolverStatus") and (obj is None or obj == ('this',)):
            out = []
            for status, what in (("ok", "succeeds"), ("failed", "fails")):
                out.append((s.put(st, ('status',), status).step("%s: %s %s" % (eng.loc(n), short(n), what)), ('c', 0) if status == "ok" else ('c', 3)))
            return out
        return super().on_call(eng, st, n, fns, obj, args)

    def on_assign(s, eng, st, lv, val, node):
        st = super().on_assign(eng, st, lv, val, node)
        if lv[0] == 'f' and lv[1] == ('this',) and lv[2] in s.watch:
            st = s.put(s.after(eng, st), ('renewed',), True)
        return st

    def after(s, eng, st):
        if dict(st.prop).get(('status',)) == "failed":
            st = s.put(st, ('garbage',), True)
        return st


def uses(m, f, tie, r):
    fields = {x for x, t in tie.values()}
    storing = {g.u for g in m.fns.values() if g.c == f.c and g.body is not None and g.kind not in ("ctor", "dtor") and g.name() not in ("InitializeImpl", "Initialize") and
               any(x["k"] == "bin" and x["op"] == "=" and x["a"]["k"] == "mem" and x["a"]["n"] in fields for x in g.nodes())}
    for g in m.fns.values():
        if g.body is None or not any(c.get("u") == f.u for c in g.calls()):
            continue
        if g.u not in storing and not any(c.get("u") in storing for c in g.calls()):
            continue            # never remembers anything: everything counts as changed
        cl = Uses(m, opaque=lambda n: False)
        cl.det, cl.storing, cl.watch, cl.calls, cl.stores = f, storing - {g.u}, fields, [], []
        eng = engine(m, cl, 200)
        eng.termdepth = 40
        rets, _ = eng.run(g, frozenset())
        bad = garbage = None
        for st, v in rets:
            d = dict(st.prop)
            if d.get(('garbage',)):
                garbage = garbage or st
            if d.get(('changed',)) and not d.get(('renewed',)):
                if eng.truth(st, v) is not True:        # otherwise it reports failure
                    bad = st
        nm = g.f.split("Ipopt::", 1)[-1]
        r.check(bad is None, "R4", "%s/renews" % nm, "%s:%s" % (g.file, g.l), "%s goes on with the old matrix although its inputs changed" % g.f, bad.path() if bad else [])
        r.check(garbage is None, "R4", "%s/only after success" % nm, "%s:%s" % (g.file, g.l), "%s remembers its inputs although the work for them failed" % g.f, garbage.path() if garbage else [])
        own_ = [p["n"] for p in g.p]
        k = len(f.p)
        for what, cs in (("compares", cl.calls), ("stores", cl.stores)):
            wrong = [(loc, a) for loc, a in cs if a[:k] != own_[:k]]
            r.check(not wrong, "R4", "%s/%s its own inputs" % (nm, what), wrong[0][0] if wrong else "%s:%s" % (g.file, g.l), "%s mixes up the inputs: %s" % (g.f, wrong[0][1] if wrong else ""))


IMPL = {"Nrm2": "Nrm2Impl", "Asum": "AsumImpl", "Amax": "AmaxImpl", "Max": "MaxImpl", "Min": "MinImpl", "Sum": "SumImpl",
        "SumLogs": "SumLogsImpl", "HasValidNumbers": "HasValidNumbersImpl"}


def lazies(m, r):
    """value kept together with the tag of the object it was computed for"""
    pairs = {}
    for f in m.fns.values():
        if f.c not in ("Ipopt::Vector", "Ipopt::Matrix") or f.name() not in IMPL or f.body is None:
            continue
        cl, eng, rets = runf(m, f, 100)
        good, why, pair = True, None, set()
        for st, v in rets:
            v = cl.term(eng, st, v)
            T = [(x, cl.term(eng, st, w)) for (k, o, x), w in [(k, w) for k, w in st.env.items() if k[0] == 'f' and k[1] == ('this',)]]
            T = [(x, w) for x, w in T if own(w) != x]
            tag = [x for x, w in T if gettag(w) == ('this',)]
            if v[0] == 'e' and v[1] == 'pure' and v[2][1] == IMPL[f.name()]:
                cs = [x for x, w in T if w == v]
                if len(tag) != 1 or len(cs) != 1 or len(T) != 2:
                    good, why = False, st
                else:
                    pair.add((tag[0], cs[0]))
            elif own(v):
                eq = [own(b) or own(a) for op, a, b in cl.factterms(eng, st) if op == '==' and (gettag(a) == ('this',) or gettag(b) == ('this',))]
                if len(eq) != 1 or T:
                    good, why = False, st
                else:
                    pair.add((eq[0], own(v)))
            else:
                good, why = False, st
        good = good and len(pair) == 1
        r.check(good, "R4", f.f.split("Ipopt::", 1)[-1], "%s:%s" % (f.file, f.l),
                "%s does not return what belongs to the current state of the object" % f.f, why.path() if why else [])
        if good:
            pairs[(f.c, f.name())] = next(iter(pair))
    return pairs


def isdim(t):
    return t[0] == 'e' and t[1] == 'pure' and t[2][1] == "Dim" and t[3] == ('this',)


class Versions(Facts):
    """the tag of this object before and after it announced a change"""

    def on_call(s, eng, st, n, fns, obj, args):
        own = obj == ('this',) or obj is None and n.get("o") is not None and n["o"]["k"] == "this"
        if own and short(n) == "ObjectChanged":
            return [(s.put(st, ('version',), dict(st.prop).get(('version',), 0) + 1), ('void',))]
        if own and short(n) == "GetTag":
            return [(st, ('e', 'pure', ('c', 'GetTag'), ('this',), ('c', dict(st.prop).get(('version',), 0))))]
        return super().on_call(eng, st, n, fns, obj, args)


def num(t):
    return t[1] if t[0] == 'c' else None


def kept(m, pairs, r):
    """other functions that keep such a value alive"""
    by = {p: n for (c, n), p in pairs.items() if c == "Ipopt::Vector"}
    fields = {x: p for p in by for x in p}
    nice = {p: n for p, n in by.items()}
    for f in m.fns.values():
        if f.c != "Ipopt::Vector" or f.body is None or f.kind in ("ctor", "dtor") or f.name() in IMPL:
            continue
        if not any(n["k"] == "bin" and n["op"].endswith("=") and n["a"]["k"] == "mem" and n["a"]["n"] in fields for n in f.nodes()):
            continue
        rets = []
        cl = Versions(m, opaque=lambda n: False)
        cl.term_any = True
        eng = engine(m, cl, 3000)
        eng.termdepth = 60
        eng.compound = True
        rets, _ = eng.run(f, frozenset())
        bad = {}
        for st, v in rets:
            fs = cl.factterms(eng, st)
            now = dict(st.prop).get(('version',), 0)
            if any(op == '==' and gettag(a) == ('this',) and gettag(b) == ('this',) and a != b for op, a, b in fs):
                continue                # a new tag differs from all earlier ones
            for p, name in nice.items():
                t = cl.term(eng, st, eng.read(st, ('f', ('this',), p[0])))
                v = cl.term(eng, st, eng.read(st, ('f', ('this',), p[1])))
                if own(t) == p[0] and own(v) == p[1]:
                    continue
                if gettag(t) == ('this',) and t[4] != ('c', now) and now:
                    continue            # belongs to an earlier state: never looked at again
                if own(t) == p[0] and gettag(t) is None:
                    bad.setdefault(p, (st, v))      # value changed, tag not
                elif not valid(f, name, v, fs, by):
                    bad.setdefault(p, (st, v))
        for p, name in nice.items():
            r.check(p not in bad, "R4", "%s/%s" % (f.f.split("Ipopt::", 1)[-1], name), "%s:%s" % (f.file, f.l),
                    "%s keeps %s for %s" % (f.f, show(bad[p][1])[:200] if p in bad else "", name), bad[p][0].path() if p in bad else [])


def valid(f, name, v, fs, by):
    inv = {n: p for p, n in by.items()}

    def fresh_here(n, obj=None):
        """the kept value of n is the current one (of the other vector)"""
        T = inv[n][0]
        for op, a, b in fs:
            if op == '==':
                for x, y in ((a, b), (b, a)):
                    o = gettag(x)
                    if obj is None and o == ('this',) and own(y) == T:
                        return True
                    if obj is not None and o is not None and par(o) == obj and y[0] == 'r' and y[1][0] == 'f' and y[1][2] == T and y[1][1] != ('this',):
                        return True
        return False

    def read(t, obj):
        if t[0] == 'r' and t[1][0] == 'f' and (t[1][1] == ('this',)) == (obj is None):
            return next((n for n, p in inv.items() if p[1] == t[1][2]), None)
        return None
    others = [p["n"] for p in f.p if p["t"].startswith("const") and "Vector" in p["t"]]
    if f.name() == "Copy" and others:
        return read(v, others[0]) == name and fresh_here(name, others[0])
    if f.name() == "Scal":
        a = f.p[0]["n"]
        isalpha = lambda t: par(t) == a

        def sign(want):
            for op, x, y in fs:
                if op in ('<', '<=') and (isalpha(x) and num(y) is not None and num(y) <= 0 and want < 0 or
                                          isalpha(y) and num(x) is not None and num(x) >= 0 and want > 0):
                    return True
            return False
        fac, base, plus = 1, v, None
        if v[0] == 'e' and v[1] in ('*', 'prod', '+', 'lin'):
            xs = list(v[2:])
            if v[1] in ('*', 'prod') and len(xs) == 2:
                base = next((x for x in xs if read(x, None)), None)
                fac = next((x for x in xs if x is not base), None)
                if base is None:
                    return False
            elif v[1] == 'lin' and len(xs) == 2 and all(x[2] == ('c', 1) or x[2] == ('c', 1.0) for x in xs):
                xs = [x[3] for x in xs]
                base = next((x for x in xs if read(x, None)), None)
                plus = next((x for x in xs if x is not base), None)
                if base is None:
                    return False
        src = read(base, None)
        if src is None or not fresh_here(src):
            return False
        isabs = fac != 1 and fac[0] == 'e' and fac[1] == 'pure' and fac[2][1] in ("abs", "fabs") and isalpha(fac[3])
        if name in ("Nrm2", "Asum", "Amax"):
            return src == name and isabs and plus is None
        if name == "Sum":
            return src == name and fac != 1 and isalpha(fac) and plus is None
        if name in ("Max", "Min"):
            return fac != 1 and isalpha(fac) and plus is None and (src == name and sign(1) or src in ("Max", "Min") and src != name and sign(-1))
        if name == "SumLogs":
            if src != name or fac != 1:
                return False
            if plus is None:
                return any(op in ('==', '<=') and isdim(x) and num(y) == 0 for op, x, y in fs)
            return plus[0] == 'e' and plus[1] in ('*', 'prod') and len(plus) == 4 and any(isdim(x) for x in plus[2:]) and \
                any(x[0] == 'e' and x[1] == 'pure' and x[2][1] == "log" and isalpha(x[3]) for x in plus[2:])
    return False


def local_cache(m, q, r):
    """the factorisation that may be used again was made for the matrices that are solved with"""
    n = 0
    for f in q.loops:
        deps = set()
        for x in f.nodes():
            if x["k"] == "bin" and x["op"] == "=" or x["k"] == "call" and short(x) == "operator=" and x.get("o") is not None:
                a, b = (x["a"], x["b"]) if x["k"] == "bin" else (x["o"], x["a"][0] if isinstance(x["a"], list) and x["a"] else None)
                if a["k"] == "call" and short(a) == "operator[]" and b is not None:
                    deps |= names(b)
        for c in f.calls():
            if c["k"] != "call" or short(c) not in ("Solve", "MultiSolve") or "AugSystemSolver" not in c.get("f", "") or len(c["a"]) < 12:
                continue
            n += 1
            used = set()
            for i in (0, 2, 4, 6, 7, 9, 10):
                used |= names(c["a"][i])
            r.check(not used - deps, "R4", "%s/%s uses only what is watched" % (f.f.split("Ipopt::", 1)[-1], short(c)), "%s:%s" % (f.file, c.get("l")),
                    "%s solves with %s, changes of which go unnoticed" % (f.f, ", ".join(sorted(used - deps))))
    if not n:
        raise AnalysisError("C04: no solve guarded by a cache found")


def names(n):
    out = set()
    from sa.model import walk
    for x in walk(n):
        if x["k"] in ("ref", "var", "mem") and "n" in x and x.get("t", "").find("(") < 0:
            out.add(x["n"])
    return out


def run(m, q, r):
    ds = detectors(m)
    k = 0
    for f in ds:
        t = detector(m, f, r)
        if t is None:
            raise AnalysisError("%s never answers \"unchanged\"" % f.f)
        k += stores(m, f, t, r)
        uses(m, f, t, r)
    if len(ds) < 3 or k < 3:
        raise AnalysisError("only %d change detectors, %d functions that store what they compare with" % (len(ds), k))
    pairs = lazies(m, r)
    if len(pairs) >= 7:
        kept(m, pairs, r)
    local_cache(m, q, r)
    return ds

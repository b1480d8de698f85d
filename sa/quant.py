"""What cached quantities are: for every function that uses a result cache, the
value it stores, the dependencies it stores it under, and what it returns."""
from .terms import Terms, subterms, lin, ONE
from .guards import engine, short, facts
from .db import AnalysisError

PURE = ("Ipopt::NLPScalingObject::", "Ipopt::IpoptNLP::", "Ipopt::OrigIpoptNLP::", "Ipopt::IpoptData::",
        "Ipopt::IteratesVector::", "Ipopt::NLP::", "Ipopt::CGPenaltyData::")
NOTPURE = ("MakeNew", "set", "Set")
ALSO = ("ComputeDampingIndicators", "CalcNormOfType", "curr_cg_pert_fact")


def cached(f):
    return any("CachedResults" in n.get("f", "") for n in f.calls())


class Rec:
    __slots__ = ("kind", "cache", "val", "deps", "sdeps", "facts", "loc", "fn", "trace")

    def __init__(s, **k):
        for a, b in k.items():
            setattr(s, a, b)


class Quant:
    def __init__(s, m, extract=True):
        s.m = m
        s.fns = [f for f in m.fns.values() if f.body and f.c and "CachedResults" not in f.c and "DependentResult" not in f.c
                 and f.kind not in ("ctor", "dtor") and
                 any("CachedResults::" in n.get("f", "") and short(n).startswith(("Get", "Add")) for n in f.calls())]
        s.loops = [f for f in s.fns if any(n["k"] in ("while", "do") for n in f.nodes())]
        s.fns = [f for f in s.fns if f not in s.loops]
        s.by = {}
        for f in s.fns:
            s.by[(f.c, f.name())] = f
        s.recs, s.rets, s.memo = {}, {}, {}
        s.failed = []
        if extract:
            for f in list(s.fns):
                s.extract(f)

    def opaque(s, n):
        b = short(n)
        return n.get("f", "").startswith(PURE) and not b.startswith(NOTPURE) or b in ALSO

    def inline(s, home):
        def p(g):
            return g.body is not None and not cached(g) and not g.name().startswith("Tmp") and g.name() not in ALSO and \
                g.kind not in ("ctor", "dtor") and (g.c == home.c or (not g.c and g.file == home.file)) and g.name() not in ("InitializeImpl", "Initialize")
        return p

    def run(s, f, inline=None):
        recs = []

        def record(eng, st, kind, cache, val, dp, sd, n):
            recs.append(Rec(kind=kind, cache=cache, val=val, deps=tuple(dp), sdeps=tuple(sd), facts=cl.factterms(eng, st),
                            loc=eng.loc(n), fn=f, trace=st.trace))
        cl = Facts(s.m, inline=inline or s.inline(f), record=record, opaque=s.opaque)
        eng = engine(s.m, cl, 200)
        eng.termdepth = 60
        eng.compound = True
        rets, thrown = eng.run(f, frozenset())
        rets = [(cl.term(eng, st, v), cl.factterms(eng, st), st) for st, v in rets]
        s.last = (cl, eng)
        return recs, rets

    def extract(s, f):
        try:
            s.recs[f.u], s.rets[f.u] = s.run(f)
        except AnalysisError:
            s.fns = [g for g in s.fns if g is not f]
            s.by.pop((f.c, f.name()), None)
            s.failed.append(f)


class Facts(Terms):
    def factterms(s, eng, st):
        out = []
        for op, a, b in facts(st):
            out.append((op, s.term(eng, st, a), s.term(eng, st, b)))
        for k, v in st.cons.items():
            if k[0] in ('r', 'e') and k[1] not in ('<', '<=', '=='):
                out.append(('!=' if v else '==', s.under(eng, st, k), ("c", 0)))
        for k, v in st.bind.items():
            if k[0] in ('r', 'e'):
                out.append(('==', s.under(eng, st, k), v if isinstance(v, tuple) else ("c", v)))
        for k, vs in st.ne.items():
            if k[0] in ('r', 'e'):
                out += [('!=', s.under(eng, st, k), v if isinstance(v, tuple) else ("c", v)) for v in vs]
        return tuple(out)

    def under(s, eng, st, k):
        """term that is known to have a value, not that value"""
        st = st.copy() if hasattr(st, "copy") else st
        if k[0] == 'r':
            return k
        return k[:2] + tuple(s.term(eng, st, x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in k[2:])


def show(t, depth=0):
    """readable form of a term"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    if t[0] == 'c':
        return "%g" % t[1] if isinstance(t[1], (int, float)) else str(t[1])
    if t[0] == 'this':
        return "this"
    if t[0] == 'r' and t[1][0] == 'f':
        return t[1][2].rsplit("::", 1)[-1]
    if t[0] == 'r' and t[1][0] == 'p':
        return "$" + t[1][1]
    if t[0] == 'e':
        if t[1] == 'pure':
            return "%s(%s)" % (t[2][1], ",".join(show(x) for x in t[3:] if x != ('this',)))
        if t[1] == 'lin':
            return "(" + " + ".join((show(x[2]) + "*" if x[2] != ONE else "") + show(x[3]) for x in t[2:]) + ")" if len(t) > 2 else "0"
        if t[1] == 'prod':
            return "*".join(show(x) for x in t[2:])
        if t[1] == 'mat':
            return "%s%s*%s" % (show(t[3]), "'" if t[2][1] == "T" else "", show(t[4]))
        if t[1] == 'vprod':
            return ".*".join(show(x) for x in t[2:])
        if t[1] == 'vquot':
            return "%s./%s" % (show(t[2]), show(t[3]))
        if t[1] == 'ones':
            return "1s"
        if t[1] in ('out', 'upd'):
            return "%s<%s>" % (t[2][1], ",".join(show(x) for x in t[3:] if x != ('this',)))
        return "%s<%s>" % (t[1], ",".join(show(x) for x in t[2:]))
    return "?"

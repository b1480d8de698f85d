"""Argument terms of chosen calls, on every path."""
from .quant import Facts, Quant
from .guards import engine, short


class Call:
    __slots__ = ("name", "obj", "args", "facts", "loc", "fn", "trace", "st", "n")

    def __init__(s, **k):
        for a, b in k.items():
            setattr(s, a, b)


class Capture(Facts):
    def __init__(s, m, want, until=None, **k):
        Facts.__init__(s, m, **k)
        s.want, s.calls, s.until = want, [], until
        s.home = None

    def on_call(s, eng, st, n, fns, obj, args):
        if s.want(n):
            s.calls.append(Call(name=short(n), obj=s.term(eng, st, obj) if obj is not None else None, args=[s.term(eng, st, x) for x in args],
                                facts=s.factterms(eng, st), loc=eng.loc(n), fn=s.home, trace=st.trace, st=st, n=n))
            if s.until:
                k = s.until(n)
                c = dict(st.prop).get(('count',), 0) + 1
                if k and c >= k:
                    return []           # nothing after this call matters
                if k:
                    st = s.put(st, ('count',), c)
        r = Facts.on_call(s, eng, st, n, fns, obj, args)
        return st if r is None else r


def capture(m, q, f, want, until=None, inline=None, compound=True, states=400, track=(), skip_loops=False):
    """track: parameters holding objects that the function changes in place"""
    cl = Capture(m, want, until=until, inline=inline or q.inline(f), opaque=q.opaque)
    cl.home = f
    eng = engine(m, cl, states)
    eng.termdepth = 60
    eng.compound = compound
    init = frozenset((('r', ('p', p)), ('e', 'pure', ('c', 'initial'), ('c', p))) for p in track)
    rets, thrown = eng.run(f, init)
    return cl, eng, [(cl.term(eng, st, v), cl.factterms(eng, st), st) for st, v in rets]

"""Guard facts: what is known (from the branches taken) where something happens.
Calls of const member functions with constant arguments, and of listed free
functions, are terms; comparisons of terms are remembered by the engine."""
from .engine import Engine, Client, subs
from .db import AnalysisError


def short(n):
    return n.get("f", "").rsplit("::", 1)[-1]


class Guard(Client):
    max_depth = 4
    FREE = {"CpuTime", "WallclockTime", "SysTime", "Max", "Min", "abs", "fabs", "sqrt", "pow", "IsFiniteNumber", "Compare_le"}
    term_any = False      # also terms for calls with non-constant arguments

    def __init__(s, m, inline=None, observe=None):
        s.m = m
        s.inl = inline
        s.observe = observe

    types = ()

    def merge_key(s, eng, st):
        """locals of the listed (status) types keep states apart"""
        if not s.types:
            return None
        ids = s.__dict__.setdefault("_ids", {})
        out = []
        for k, v in st.env.items():
            if k[0] == 'v':
                fr = next((f for f in eng.frames if f["ctx"] == k[1]), None)
                if fr is None:
                    continue
                fn = fr["fn"]
                if fn.u not in ids:
                    ids[fn.u] = {d["id"] for n in fn.nodes() if n["k"] == "decl" for d in n["v"]
                                 if "id" in d and any(d["t"].replace("const ", "").split("::")[-1] == t for t in s.types)}
                if k[2] in ids[fn.u]:
                    out.append((k, eng.norm(st, v)))
        return frozenset(out)

    def inline(s, fn, depth):
        return bool(s.inl and s.inl(fn))

    def on_call(s, eng, st, n, fns, obj, args):
        if s.observe:
            r = s.observe(eng, st, n, fns, obj, args)
            if r is not None:
                return r
        b = short(n)
        if n["k"] != "call":
            return None
        if b == "ProduceOutput":
            return [(st, ('c', 0))]         # blocks that only print are not followed
        if b in s.FREE and "o" not in n:
            return [(st, ('e', 'pure', ('c', b)) + tuple(s.val(eng, st, a) for a in args))]
        if n.get("o") is not None and obj is not None and (n.get("cm") or s.getter(n, b)) and \
                not (fns and s.inl and len(fns) == 1 and s.inl(fns[0])):
            a = [s.val(eng, st, x) for x in args]
            if all(x[0] == 'c' for x in a) or s.term_any or n.get("f", "").startswith(s.PURECLS):
                return [(st, ('e', 'pure', ('c', b), obj) + tuple(a))]
        return None

    PURECLS = ("Ipopt::IpoptCalculatedQuantities::", "Ipopt::TimingStatistics::", "Ipopt::RestoIpoptNLP::Orig")

    @staticmethod
    def getter(n, b):
        return b in ("IpData", "IpCq", "IpNLP", "TimingStats", "CGPenCq", "CGPenData") or n.get("f", "").startswith(Guard.PURECLS)

    def val(s, eng, st, v):
        """argument value (through references)"""
        if v[0] == '&':
            v = eng.read(st, v[1])
        return eng.norm(st, v)


def engine(m, client, cap=64):
    e = Engine(m, client, cap=cap)
    e.termdepth = 10
    return e


def is_pure(v, *names):
    return v[0] == 'e' and v[1] == 'pure' and v[2][1] in names


def chain(v):
    """names of a getter chain, outermost first: TimingStats().X().Y() -> [Y, X, TimingStats]"""
    out = []
    while v[0] == 'e' and v[1] == 'pure':
        out.append(v[2][1])
        if len(v) < 4:
            break
        v = v[3]
    return out


def field(v):
    """name of the member a value was read from (unmodified), or None"""
    if v[0] == 'r' and v[1][0] == 'f':
        return v[1][2]
    return None


def facts(st):
    """[(op, a, b)] with op in <, <=, ==, != known on this path"""
    out = []
    for k, t in st.cons.items():
        if k[0] == 'e' and k[1] in ('<', '<=', '=='):
            op, a, b = k[1], k[2], k[3]
            if op == '==':
                out.append(('==' if t else '!=', a, b))
            elif t:
                out.append((op, a, b))
            else:
                out.append(('<=' if op == '<' else '<', b, a))
    return out


def options(m):
    """member name -> set of option names read into it"""
    if not hasattr(m, "_optfields"):
        out = {}
        for f in m.fns.values():
            for n in f.calls():
                if n["k"] == "call" and n.get("f", "").startswith("Ipopt::OptionsList::Get") and len(n["a"]) >= 2:
                    o, t = n["a"][0], n["a"][1]
                    while o is not None and o["k"] in ("ctor", "cast"):
                        o = o["a"][0] if o["k"] == "ctor" and o["a"] else o.get("e")
                    while t is not None and t["k"] == "cast":
                        t = t["e"]
                    if o is not None and o["k"] == "str" and t is not None and t["k"] == "mem":
                        out.setdefault(t["n"], set()).add(o["v"])
        if len(out) < 100:
            raise AnalysisError("only %d members are set from options" % len(out))
        m._optfields = out
    return m._optfields


def is_opt(m, v, name):
    f = field(v)
    return f is not None and name in options(m).get(f, ())

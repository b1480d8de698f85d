"""Scenario runs: a designated callee is given each possible outcome (a constant or
an exception) and the analysis follows where that outcome goes."""
from .engine import Engine, Client
from .model import walk


class Scenario(Client):
    """prop = (scenario name, extra)"""
    max_depth = 4

    def __init__(s, m, designate, outcomes, observe=None, types=(), inline_file=None, extra_inline=None):
        """designate(node) -> bool; outcomes: list of (name, ('val', const)|('throw', type)|('go', const));
        'go' outcomes do not set the scenario (e.g. CONTINUE)."""
        s.m = m
        s.designate = designate
        s.outcomes = outcomes
        s.observe = observe
        s.types = types
        s.file = inline_file
        s.extra_inline = extra_inline
        s.hits = 0
        s._rel = {}
        s._skip = {}

    def reaches(s, fn, seen=None):
        """the designated call (or a throw / a status type) occurs in fn, transitively within its file"""
        if fn.u in s._rel:
            return s._rel[fn.u]
        s._rel[fn.u] = False
        r = any(t in (fn.rt or "") or any(t in p["t"] for p in fn.p) for t in s.types)
        if not r:
            for n in fn.nodes():
                if n["k"] == "call":
                    if s.designate(n) or (s.observe and s.observe(None, None, n, None) is True):
                        r = True
                        break
                    for t in s.m.targets(n):
                        if t.file == fn.file and not n.get("virt") and s.reaches(t):
                            r = True
                            break
                if r:
                    break
        s._rel[fn.u] = r
        return r

    def merge_key(s, eng, st):
        ids = s.__dict__.setdefault("_ids", {})
        out = []
        for k, v in st.env.items():
            if k[0] == 'v':
                fr = next((f for f in eng.frames if f["ctx"] == k[1]), None)
                if fr is None:
                    continue
                fn = fr["fn"]
                if fn.u not in ids:
                    ids[fn.u] = {d["id"] for n in fn.nodes() if n["k"] == "decl" for d in n["v"]
                                 if "id" in d and any(d["t"].replace("const ", "").split("::")[-1] == t for t in s.types)}
                if k[2] in ids[fn.u]:
                    out.append((k, eng.norm(st, v)))
        return frozenset(out)

    def inline(s, fn, depth):
        if s.extra_inline and s.extra_inline(fn):
            return True
        return fn.file == s.file and s.reaches(fn)

    def skip_loop(s, eng, node):
        k = id(node)
        if k not in s._skip:
            r = True
            for n in walk(node):
                if n["k"] in ("return", "throw", "goto", "try"):
                    r = False
                    break
                if n["k"] == "call" and (s.designate(n) or (s.observe and s.observe(None, None, n, None)) or
                                         any(t.file == s.file and s.reaches(t) for t in eng.m.targets(n))):
                    r = False
                    break
            s._skip[k] = (r, node)
        return s._skip[k][0]

    def on_call(s, eng, st, n, fns, obj, args):
        if s.observe:
            r = s.observe(eng, st, n, args)
            if r is not None and r is not True:
                return r
        if not s.designate(n):
            return None
        s.hits += 1
        out = []
        for x, v in eng.havoc_call(st, n, fns, obj, args, eng.ptypes(n, fns)):
            for name, (kind, val) in s.outcomes:
                y = x.withprop((name if kind != "go" else None,) + x.prop[1:])
                y = y.step("%s: outcome %s" % (eng.loc(n), name))
                if kind == 'throw':
                    eng.pending.append((val, y))
                else:
                    out.append((y, ('c', val)))
        return out


def enum_values(m, name):
    """{enumerator short name: value}; name may be qualified"""
    for k, lst in m.enums.items():
        if k == name or k.endswith("::" + name):
            return {v["n"].rsplit("::", 1)[-1]: v["v"] for v in lst[0]["vals"]}
    from .db import AnalysisError
    raise AnalysisError("anchor enum not found: " + name)


def calls_named(*names):
    """predicate on call nodes: callee's qualified name ends with one of names (Class::method)"""
    def p(n):
        f = n.get("f", "")
        return n["k"] == "call" and any(f == x or f.endswith("::" + x) for x in names)
    return p

"""Which exception types may leave a function: throw expressions, filtered by the
handlers around them, propagated over the call graph (virtual calls: every
overrider).  Context-insensitive, so a superset of what can happen."""
from .model import kids


class Escape:
    def __init__(s, m, alloc=False, skip=None, foreign=None, known=None):
        """alloc: new-expressions may throw std::bad_alloc; skip(call)->True: callee is assumed not to throw;
        foreign(call)->True: callee may throw anything; known(cond)->True/False/None: assumed value of a condition"""
        s.m, s.alloc, s.skip, s.foreign, s.known = m, alloc, skip, foreign, known
        s.esc = {u: {} for u in m.fns}        # u -> {type: origin}
        s.callers = m.callers()
        work = list(m.fns)
        inq = set(work)
        while work:
            u = work.pop()
            inq.discard(u)
            f = m.fns[u]
            if f.body is None and not f.rec.get("inits"):
                continue
            new = s.of(f)
            if set(new) - set(s.esc[u]):
                for t in new:
                    s.esc[u].setdefault(t, new[t])
                for c in s.callers.get(u, ()):
                    if c not in inq:
                        inq.add(c)
                        work.append(c)

    def of(s, f):
        out = {}
        for i in f.rec.get("inits", []):
            if i.get("e") is not None:
                s.add(out, s.node(f, i["e"], None))
        if f.body is not None:
            s.add(out, s.node(f, f.body, None))
        return out

    @staticmethod
    def add(a, b):
        for k, v in b.items():
            a.setdefault(k, v)

    def node(s, f, n, caught):
        """exceptions out of n; caught: types the enclosing handler may hold (for rethrow)"""
        out = {}
        k = n["k"]
        if k == "try":
            b = s.node(f, n["b"], caught)
            for h in n["h"]:
                ht = h.get("t")
                hits = {}
                for t in list(b):
                    if ht is None or s.catches(ht, t):
                        hits[t] = b.pop(t)
                    elif s.maycatch(ht, t):
                        hits[t] = b[t]
                if h.get("b") is not None:
                    s.add(out, s.node(f, h["b"], hits))
            s.add(out, b)
            return out
        if k == "lambda":
            return out
        if k == "throw":
            if n.get("e") is None and not n.get("t"):
                s.add(out, caught or {})
            else:
                t = (n.get("t") or n["e"].get("t", "")).replace("const ", "").replace("&", "").strip()
                out[t] = (f.u, n.get("l"), None)
        elif k == "call" or k == "ctor":
            if not (s.skip and s.skip(n)):
                if s.foreign and s.foreign(n):
                    out["(foreign)"] = (f.u, n.get("l"), None)
                for g in s.m.targets(n):
                    for t in s.esc[g.u]:
                        out.setdefault(t, (f.u, n.get("l"), g.u))
        elif k in ("if", "cond") and s.known and s.known(n["c"]) is not None:
            s.add(out, s.node(f, n["c"], caught))
            b = n.get("t") if s.known(n["c"]) else n.get("e")
            if b is not None:
                s.add(out, s.node(f, b, caught))
            return out
        elif k == "seq" and s.known:
            for c in n["s"]:
                s.add(out, s.node(f, c, caught))
                if c["k"] == "if" and s.known(c["c"]) is not None:
                    b = c.get("t") if s.known(c["c"]) else c.get("e")
                    if b is not None and s.leaves(b):
                        break
            return out
        elif k == "new" and s.alloc:
            out["std::bad_alloc"] = (f.u, n.get("l"), None)
        for c in kids(n):
            s.add(out, s.node(f, c, caught))
        return out

    def leaves(s, n):
        if n["k"] == "seq":
            return bool(n["s"]) and s.leaves(n["s"][-1])
        return n["k"] in ("return", "throw", "break", "continue", "goto")

    def catches(s, ht, t):
        a = ht.replace("const ", "").replace("&", "").strip()
        return t == a or s.m.is_a(t, a) or a == "std::exception" and t.startswith("std::")

    def maycatch(s, ht, t):
        return t == "(foreign)"

    def path(s, u, t):
        out = []
        seen = set()
        while u and u not in seen:
            seen.add(u)
            f, l, g = s.esc[u][t]
            out.append("%s:%s %s" % (s.m.fns[u].file, l, s.m.fns[u].f))
            u = g
        return out

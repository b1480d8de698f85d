"""C05: an object that takes part in caching tells everybody when it changes."""
from sa.guards import Guard, short
from sa.engine import Engine, subs
from sa.model import walk
from sa.db import AnalysisError
from checks.c05_obs import run_obs

TO = "Ipopt::TaggedObject"
RULES = {
    "R1": "every public operation that changes the content of a vector or matrix marks it as changed before it returns",
    "R2": "marking an object as changed gives it a tag never used before and notifies all its observers",
    "R3": "observers and subjects keep each other's lists complete: attach, detach and destruction are mirrored",
}
# fields that say how an object is used, not what it holds (each with the reason)
NOTCONTENT = {
    "cache_priority_": "tells caches what to drop first",
}


class Tags(Guard):
    """state of this: dirty = location of the first change since it was last marked"""
    max_depth = 8

    def __init__(s, m, r, content):
        Guard.__init__(s, m, inline=None)
        s.r, s.content = r, content
        s.home = None
        s.tag = m.subclasses(TO) | {TO}

    def inline(s, fn, depth):
        return fn.body is not None and fn.kind not in ("ctor", "dtor") and bool(fn.c) and s.m.is_a(s.home.c, fn.c) and fn.name() != "ObjectChanged" and not fn.rec.get("static")

    def get(s, st, k):
        return dict(st.prop).get(k)

    def put(s, st, k, v):
        d = dict(st.prop)
        d[k] = v
        return st.withprop(frozenset((a, b) for a, b in d.items() if b is not None))

    def mine(s, v):
        """the value is, or is reached through, content of this"""
        for x in subs(v):
            if x and x[0] == 'f' and len(x) > 2 and x[1] == ('this',) and x[2] in s.content:
                return True
        return False

    def dirty(s, eng, st, node):
        if s.get(st, "dirty"):
            return st
        return s.put(st, "dirty", eng.loc(node) if isinstance(node, dict) else s.home.f).step("content changed at %s" % eng.loc(node))

    def on_assign(s, eng, st, lv, val, node):
        if lv is None:
            return st
        if lv[0] == 'f' and lv[1] == ('this',):
            if lv[2] in s.content:
                return s.dirty(eng, st, node)
        elif lv[0] in ('x', 'd', 'f') and s.mine(eng.norm(st, lv[1]) if isinstance(lv[1], tuple) else lv):
            return s.dirty(eng, st, node)
        return st

    def on_call(s, eng, st, n, fns, obj, args):
        if n["k"] != "call":
            return None
        b = short(n)
        if b == "ProduceOutput":
            return [(st, ('c', 0))]
        o = eng.norm(st, s.val(eng, st, obj)) if obj is not None else None
        if b == "ObjectChanged":
            if o == ('this',) or o is None:
                st = s.put(st, "told", 1)
                return [(st, ('void',))]
            return None
        if o is not None and n.get("op") == "[]":
            return [(st, ('e', 'pure', ('c', '[]'), o) + tuple(s.val(eng, st, a) for a in args))]
        cm = n.get("cm")
        if o == ('this',) and not cm:
            inl = len(fns) == 1 and s.inline(fns[0], 0) and not any(f["fn"] is fns[0] for f in eng.frames)
            if not inl and not n.get("static") and not b.startswith("operator"):
                # overridable step: may change anything
                if fns and all(s.leaves(f) for f in fns):
                    return st
                return s.dirty(eng, st, n)
            return st
        if o is not None and not cm and s.mine(o):
            k = n.get("f", "").rsplit("::", 1)[0]
            if k in s.tag or k.startswith("std::vector"):
                if not (k.startswith("std::vector") and b in ("begin", "end", "size")):
                    st = s.dirty(eng, st, n)
        # content handed to something that may write through it
        pt = eng.ptypes(n, fns)
        for i, a in enumerate(args):
            t = pt[i] if i < len(pt) else ""
            if t.startswith("const ") or not (t.endswith("*") or t.endswith("&") or t.endswith("]")):
                continue
            v = a
            if v[0] == '&':
                if v[1][0] == 'f' and v[1][1] == ('this',) and v[1][2] in s.content or v[1][0] in ('x', 'd') and s.mine(v[1]):
                    st = s.dirty(eng, st, n)
                    continue
                if not t.endswith("&"):
                    continue
                continue
            if t.endswith(("*", "]")) and s.mine(eng.norm(st, v)):
                st = s.dirty(eng, st, n)
        if o is not None and (cm or s.getter(n, b)) and not (len(fns) == 1 and s.inline(fns[0], 0)) and n.get("t") != "void":
            return [(st, ('e', 'pure', ('c', b), o) + tuple(s.val(eng, st, a) for a in args))]
        return st

    def leaves(s, f):
        """a method that never touches content"""
        if f.body is None:
            return False
        memo = s.__dict__.setdefault("_leaves", {})
        if f.u in memo:
            return memo[f.u]
        memo[f.u] = True
        ok = True
        for n in f.nodes():
            if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                ok = ok and n["a"]["k"] == "ref"
            elif n["k"] == "call" and n.get("o") is not None and not n.get("cm"):
                ok = False
        memo[f.u] = ok
        return ok


def entries(m):
    subs_ = m.subclasses(TO)
    out = []
    for f in m.fns.values():
        if f.body is None or f.c not in subs_ or f.kind in ("ctor", "dtor"):
            continue
        rec = m.meth.get(f.u, {})
        if f.rec.get("const") or rec.get("const") or f.rec.get("static") or rec.get("static"):
            continue
        if rec.get("acc", "public") != "public" or f.name() in ("operator=",):
            continue
        out.append(f)
    return out


def run(m, r):
    for k, v in RULES.items():
        r.rule(k, v)
    subs_ = m.subclasses(TO)
    if len(subs_) < 25:
        raise AnalysisError("classes derived from TaggedObject not found")
    content = set()
    for c in subs_:
        for x in m.classes.get(c, {}).get("fields", []):
            if not x.get("mut") and not x.get("static"):
                nm = x["n"].rsplit("::", 1)[-1]
                if nm not in NOTCONTENT:
                    content.add(c + "::" + nm)
    es = entries(m)
    for f in sorted(es, key=lambda f: f.f):
        cl = Tags(m, r, content)
        cl.home = f
        eng = Engine(m, cl, cap=64)
        eng.termdepth = 10
        rets, thrown = eng.run(f, frozenset())
        r.analysed([f])
        nm = f.f.replace("Ipopt::", "") + ("(%d)" % len(f.p))
        raw = f.rt.endswith(("*", "&")) and not f.rt.startswith("const ") or "SmartPtr<" in f.rt and "SmartPtr<const " not in f.rt
        for st, v in rets:
            d = cl.get(st, "dirty")
            r.check(not d or bool(cl.get(st, "told")), "R1", nm, d or "%s:%d" % (f.file, f.l), "the content changes but the object is not marked as changed before %s returns" % f.name(), st.path())
            if raw and cl.mine(eng.norm(st, v)):
                r.check(bool(cl.get(st, "told")), "R1", nm + ":handed out", "%s:%d" % (f.file, f.l), "%s hands out changeable content without marking the object as changed" % f.name(), st.path())
    r.floor("R1", 60, "returns of mutating operations")
    run_obs(m, r)

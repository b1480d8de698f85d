"""Program model over the extractor's dump: functions, classes, virtual
dispatch, call graph, transitive effect summaries."""
import json
from collections import defaultdict
from . import db
from .db import AnalysisError, REPO


def kids(n):
    """direct child nodes of an AST node"""
    for v in n.values():
        if isinstance(v, dict):
            if 'k' in v:
                yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and 'k' in x:
                    yield x


def walk(n):
    """pre-order over all nodes below n (n a node, list or None)"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, list):
            st.extend(reversed(x))
            continue
        if not isinstance(x, dict):
            continue
        if 'k' in x:
            yield x
        st.extend(v for v in reversed(list(x.values())) if isinstance(v, (dict, list)))


def walk_parents(n, parents=()):
    if isinstance(n, list):
        for x in n:
            yield from walk_parents(x, parents)
        return
    if not isinstance(n, dict):
        return
    if 'k' in n:
        yield n, parents
        parents = parents + (n,)
    for v in n.values():
        if isinstance(v, (dict, list)):
            yield from walk_parents(v, parents)


class Fn:
    __slots__ = ("rec", "u", "f", "file", "l", "le", "c", "kind", "p", "rt", "virt", "_calls", "_all")

    def __init__(s, rec):
        s.rec = rec
        s.u = rec["u"]
        s.f = rec["f"]
        s.file = rec["file"]
        s.l = rec["l"]
        s.le = rec.get("le")
        s.c = rec.get("c")
        s.kind = rec.get("kind")
        s.p = rec["p"]
        s.rt = rec["rt"]
        s.virt = rec.get("virt", False)
        s._calls = None
        s._all = None

    @property
    def body(s):
        return s.rec.get("b")

    def name(s):
        return s.f.rsplit("::", 1)[-1]

    def nodes(s):
        """every node of the function (ctor initialisers included)"""
        if s._all is None:
            s._all = list(walk([i.get("e") for i in s.rec.get("inits", [])])) + list(walk(s.body))
        return s._all

    def calls(s):
        if s._calls is None:
            s._calls = [n for n in s.nodes() if n["k"] in ("call", "ctor")]
        return s._calls

    def at(s, n=None):
        return "%s:%s" % (s.file, (n or {}).get("l") or s.l)

    def __repr__(s):
        return "<%s %s:%d>" % (s.f, s.file, s.l)


class Model:
    def __init__(s, path=None):
        path = path or db.extract()
        s.fns = {}
        s.by_name = defaultdict(list)
        s.classes = {}
        s.enums = {}
        s.vars = []
        s.tus = []
        for line in open(path, encoding="utf-8"):
            o = json.loads(line)
            r = o["r"]
            if r == "fn":
                if o["u"] not in s.fns:
                    f = Fn(o)
                    s.fns[f.u] = f
                    s.by_name[f.f].append(f)
            elif r == "cls":
                s.classes.setdefault(o["n"], o)
            elif r == "enum":
                s.enums.setdefault(o["n"], []).append(o) if not any(
                    e["vals"] == o["vals"] and e["file"] == o["file"] for e in s.enums.get(o["n"], [])) else None
            elif r == "var":
                k = (o["u"], o["file"], o["l"])
                s.vars.append((k, o))
            elif r == "tu":
                if o["err"]:
                    raise AnalysisError("errors in " + o["file"])
                s.tus.append(o["file"])
        s.vars = list({k: v for k, v in s.vars}.values())
        # named constants: const scalars with a literal initialiser
        s.consts = {}
        for v in s.vars:
            i = v.get("i")
            if v.get("const") and i is not None and i["k"] in ("int", "bool"):
                s.consts[v["u"]] = int(i["v"])
        s._hier()

    # ------------------------------------------------------------------
    def _hier(s):
        s.derived = defaultdict(set)     # class -> direct subclasses
        for c in s.classes.values():
            for b in c["bases"]:
                s.derived[b].add(c["n"])
        s.overriders = defaultdict(set)  # usr -> usrs overriding it directly
        s.meth = {}                      # usr -> method record (+cls)
        for c in s.classes.values():
            for m in c["methods"]:
                s.meth[m["u"]] = m
                m["cls"] = c["n"]
                for b in m.get("ov", []):
                    s.overriders[b].add(m["u"])
        for f in s.fns.values():
            for b in f.rec.get("ov", []):
                s.overriders[b].add(f.u)

    def subclasses(s, c):
        out, st = set(), [c]
        while st:
            x = st.pop()
            for d in s.derived.get(x, ()):
                if d not in out:
                    out.add(d)
                    st.append(d)
        return out

    def superclasses(s, c):
        out, st = set(), [c]
        while st:
            x = st.pop()
            for b in s.classes.get(x, {}).get("bases", ()):
                if b not in out:
                    out.add(b)
                    st.append(b)
        return out

    def is_a(s, c, base):
        return c == base or base in s.superclasses(c)

    def all_overriders(s, u):
        out, st = set(), [u]
        while st:
            x = st.pop()
            for d in s.overriders.get(x, ()):
                if d not in out:
                    out.add(d)
                    st.append(d)
        return out

    def overridden_roots(s, u):
        """usr closure of methods overridden by u (itself included)"""
        out, st = {u}, [u]
        while st:
            x = st.pop()
            m = s.meth.get(x)
            ov = (m or {}).get("ov", [])
            f = s.fns.get(x)
            if f:
                ov = list(ov) + list(f.rec.get("ov", []))
            for b in ov:
                if b not in out:
                    out.add(b)
                    st.append(b)
        return out

    def targets(s, call):
        """possible callee definitions of a call/ctor node (virtual dispatch: all overriders)"""
        u = call.get("u")
        if not u:
            return []
        us = {u}
        if call.get("virt"):
            us |= s.all_overriders(u)
        return [s.fns[x] for x in us if x in s.fns]

    def fn(s, name, params=None, required=True):
        """the unique function definition with this qualified name"""
        c = s.by_name.get(name, [])
        if params is not None:
            c = [f for f in c if len(f.p) == params]
        if len(c) == 1:
            return c[0]
        if not c:
            if required:
                raise AnalysisError("anchor function not found: " + name)
            return None
        raise AnalysisError("anchor function ambiguous: %s (%d definitions)" % (name, len(c)))

    def cls(s, name):
        if name not in s.classes:
            raise AnalysisError("anchor class not found: " + name)
        return s.classes[name]

    def fields(s, name, inherited=False):
        out = list(s.cls(name)["fields"])
        if inherited:
            for b in s.superclasses(name):
                if b in s.classes:
                    out += s.classes[b]["fields"]
        return out

    def methods_of(s, cls):
        return [f for f in s.fns.values() if f.c == cls]

    # ------------------------------------------------------------------
    def callgraph(s):
        if not hasattr(s, "_cg"):
            s._cg = {}
            for f in s.fns.values():
                t = set()
                for c in f.calls():
                    for g in s.targets(c):
                        t.add(g.u)
                # functions whose address is taken
                for n in f.nodes():
                    if n["k"] == "ref" and n.get("d") == "func" and n.get("u") in s.fns:
                        t.add(n["u"])
                    if n["k"] == "del":
                        pass
                s._cg[f.u] = t
        return s._cg

    def reachable(s, roots):
        cg = s.callgraph()
        out, st = set(), [r.u if isinstance(r, Fn) else r for r in roots]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            st.extend(cg.get(x, ()))
        return out

    def callers(s):
        if not hasattr(s, "_callers"):
            s._callers = defaultdict(set)
            for u, ts in s.callgraph().items():
                for t in ts:
                    s._callers[t].add(u)
        return s._callers


# ----------------------------------------------------------------------
def show(n, depth=0):
    """readable rendering of an expression"""
    if n is None:
        return ""
    k = n["k"]
    if k in ("int", "flt", "bool", "chr"):
        return str(n["v"]).lower() if k == "bool" else str(n["v"])
    if k == "str":
        return '"%s"' % n["v"]
    if k == "null":
        return "NULL"
    if k == "this":
        return "this"
    if k == "ref":
        return n["n"].rsplit("::", 1)[-1]
    if k == "mem":
        b = n.get("b")
        nm = n["n"].rsplit("::", 1)[-1]
        if b is None or b["k"] == "this":
            return nm
        return show(b) + "." + nm
    if k == "call":
        op = n.get("op")
        if op == "->":
            return show(n.get("o"))
        nm = n.get("f", "?").rsplit("::", 1)[-1]
        if "fe" in n and not n.get("f"):
            nm = show(n["fe"])
        a = ", ".join(show(x) for x in n["a"])
        o = n.get("o")
        if o is not None and o["k"] != "this":
            return "%s.%s(%s)" % (show(o), nm, a)
        return "%s(%s)" % (nm, a)
    if k == "ctor":
        return "%s(%s)" % (n["c"].rsplit("::", 1)[-1], ", ".join(show(x) for x in n["a"]))
    if k == "bin":
        return "%s %s %s" % (show(n["a"]), n["op"], show(n["b"]))
    if k == "un":
        return (show(n["e"]) + n["op"]) if n.get("post") else n["op"] + show(n["e"])
    if k == "cond":
        return "%s ? %s : %s" % (show(n["c"]), show(n["a"]), show(n["b"]))
    if k == "sub":
        return "%s[%s]" % (show(n["a"]), show(n["i"]))
    if k == "cast":
        return show(n["e"])
    if k == "new":
        return "new " + n["t"]
    return k


def deref(n):
    """strip SmartPtr plumbing: operator->, operator*, GetRawPtr, ConstPtr, conversions,
    copy construction of smart pointers, address-of/dereference, casts"""
    while n is not None:
        k = n["k"]
        if k == "call" and n.get("op") in ("->", "*") and n.get("o") is not None and not n["a"]:
            n = n["o"]
        elif k == "call" and n.get("f", "").split("::")[-1] in ("GetRawPtr", "ConstPtr", "Ptr", "dynamic_ptr_cast", "static_ptr_cast") and (n["a"] or n.get("o")):
            n = n["a"][0] if n["a"] else n["o"]
        elif k == "ctor" and n["c"].endswith("::SmartPtr") and len(n["a"]) == 1:
            n = n["a"][0]
        elif k == "un" and n["op"] in ("*", "&"):
            n = n["e"]
        elif k == "cast":
            n = n["e"]
        else:
            return n
    return n

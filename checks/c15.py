"""C15: nothing of an earlier solve is left in the state of the algorithm."""
import os
from sa.model import walk
from sa.guards import short
from sa.db import AnalysisError

ALL = None      # after a return nothing more is read
BASES = ("Ipopt::AlgorithmStrategyObject",)
ALSO = {"Ipopt::IpoptData": ("InitializeDataStructures", "Initialize"), "Ipopt::CGPenaltyData": ("Initialize",), "Ipopt::IpoptCalculatedQuantities": ("Initialize",),
        "Ipopt::OrigIpoptNLP": ("Initialize", "InitializeStructures"), "Ipopt::IpoptApplication": ("call_optimize",)}
WIPE = ("clear", "Clear", "Reset", "ResetTimes", "assign", "resize", "Initialize", "InitPiecewisePenaltyList")
NOSTATE = ("CachedResults<", "const double", "const int", "const bool")     # caches are keyed by what they depend on (C04)


def base(t):
    """field of this object that an lvalue is, or is part of; True if all of it"""
    whole = True
    while t is not None and t["k"] in ("sub", "cast", "un", "paren", "mem", "call"):
        if t["k"] == "mem":
            b = t.get("b") or {"k": "this"}
            if b["k"] == "this":
                return t["n"], whole
            whole, t = False, b
        elif t["k"] == "call":
            if t.get("op") in ("->", "*", "[]") or short(t) in ("operator->", "operator*"):
                whole, t = False, t.get("o") or (t["a"][0] if t["a"] else None)
            else:
                return None, False
        elif t["k"] == "sub":
            whole, t = False, t["a"] if "a" in t else t.get("e")
        elif t["k"] == "un":
            if t["op"] not in ("*", "&"):
                return None, False
            whole, t = whole and t["op"] == "&", t["e"]
        else:
            t = t["e"]
    return None, False


def same(a, b):
    while a["k"] == "cast":
        a = a["e"]
    while b["k"] == "cast":
        b = b["e"]
    return a["k"] == b["k"] == "ref" and a.get("id") == b.get("id") and "id" in a


class Body:
    """what a method reads before it has set it, what it sets on every path, what it may change"""

    def __init__(s, scan, fn):
        s.scan, s.fn = scan, fn
        s.exposed, s.changed, s.before = {}, set(), {}
        s.rets, s.no = [], []
        end = s.st(fn.body, frozenset())
        if end is not ALL:
            s.rets.append((end, None))
        good = [w for w, v in s.rets if v is not False]
        s.must = frozenset.intersection(*good) if good else frozenset()

    def read(s, n, W, node):
        if W is not ALL and n not in W:
            s.exposed.setdefault(n, node.get("l"))

    def join(s, a, b):
        return b if a is ALL else a if b is ALL else a & b

    def st(s, n, W):
        if n is None or W is ALL:
            return W
        k = n["k"]
        if k == "seq":
            for x in n["s"]:
                W = s.st(x, W)
            return W
        if k == "if":
            c = n["c"]
            T, F = s.cond(c, W)
            if c["k"] == "un" and c["op"] == "!":       # what is returned below is false
                s.no.append(c["e"])
                A = s.st(n.get("t"), T)
                s.no.pop()
            else:
                A = s.st(n.get("t"), T)
            return s.join(A, s.st(n.get("e"), F))
        if k in ("while", "for", "do"):
            if k == "for":
                W = s.st(n.get("i"), W)
            if k == "do":
                W2 = s.st(n["b"], W)
                W = W2 if W2 is not ALL else W
                return s.ex(n.get("c"), W)
            W = s.ex(n.get("c"), W)
            s.st(n.get("inc"), s.st(n["b"], W))
            return W
        if k == "switch":
            W = s.ex(n.get("c"), W)
            ends = []
            cur = W
            for x in n["b"]["s"] if n["b"]["k"] == "seq" else [n["b"]]:
                if x["k"] in ("case", "default"):
                    cur = s.join(cur, W) if cur is not ALL else W
                    while x is not None and x["k"] in ("case", "default"):
                        x = x.get("s")
                if x is None:
                    continue
                if x["k"] == "break":
                    ends.append(cur)
                    cur = ALL
                else:
                    cur = s.st(x, cur)
            ends += [cur, W]
            out = ALL
            for e in ends:
                out = s.join(out, e)
            return out if out is not ALL else W
        if k == "return":
            v = n.get("e")
            if v and v["k"] == "bin" and v["op"] == "&&":       # false is failure
                W = s.cond(v, W)[0]
            else:
                W = s.ex(v, W)
            if v and any(same(v, x) for x in s.no):
                v = {"k": "bool", "v": False}
            s.rets.append((W, v["v"] if v and v["k"] == "bool" else None))
            return ALL
        if k in ("break", "continue", "goto"):
            return ALL
        if k == "throw":
            s.ex(n.get("e"), W)
            return ALL
        if k == "try":
            W2 = s.st(n["b"], W)
            for h in n.get("h", []):
                W2 = s.join(W2, s.st(h.get("b") if "b" in h else h, W))
            return W2
        if k == "decl":
            for v in n["v"]:
                if isinstance(v, dict) and v.get("i"):
                    W = s.ex(v["i"], W)
            return W
        if k in ("case", "default", "label"):
            return s.st(n.get("s"), W)
        return s.ex(n, W)

    def cond(s, c, W):
        """what is set where c is true, and where it is false"""
        if W is ALL or c is None:
            return W, W
        if c["k"] == "un" and c["op"] == "!":
            T, F = s.cond(c["e"], W)
            return F, T
        if c["k"] == "bin" and c["op"] in ("&&", "||"):
            T, F = s.cond(c["a"], W)
            if c["op"] == "&&":
                T, F2 = s.cond(c["b"], T)
                return T, s.join(F, F2)
            T2, F = s.cond(c["b"], F)
            return s.join(T, T2), F
        W = s.ex(c, W)
        if c["k"] == "call" and short(c) in ("IsValid", "IsNull") and c["a"] and W is not ALL:
            f, _ = base(c["a"][0])      # there is nothing to initialize otherwise
            if f:
                V = W | {"init:" + f}
                return (W, V) if short(c) == "IsValid" else (V, W)
        return W, W

    def ex(s, n, W):
        if n is None or W is ALL or not isinstance(n, dict):
            return W
        k = n["k"]
        if k == "bin" and n["op"] in ("=", "+=", "-=", "*=", "/=", "|=", "&=", "%="):
            f, whole = base(n["a"])
            W = s.ex(n["b"], W)
            if f is None or n["op"] != "=" or not whole:
                W = s.ex(n["a"], W)
            if f is not None:
                s.changed.add(f)
                if whole and n["op"] == "=" and W is not ALL and (f in W or not any(x["k"] == "mem" and base(x)[0] == f for x in walk(n["b"]))):
                    W = W | {f}     # unless the new value is made from the old one
            return W
        if k == "bin" and n["op"] in ("&&", "||"):
            W = s.ex(n["a"], W)
            s.ex(n["b"], W)
            return W
        if k == "cond":
            W = s.ex(n["c"], W)
            return s.join(s.ex(n["a"], W), s.ex(n["b"], W))
        if k == "un" and n["op"].strip("p") in ("++", "--") or k == "un" and ("++" in n["op"] or "--" in n["op"]):
            f, whole = base(n["e"])
            W = s.ex(n["e"], W)
            if f:
                s.changed.add(f)
            return W
        if k == "mem":
            f, whole = base(n)
            if f:
                s.read(f, W, n)
                return W
        if k in ("call", "ctor"):
            return s.call(n, W)
        if k == "delete":
            f, _ = base(n.get("e") or {})
            return s.ex(n.get("e"), W)
        for x in list(n.values()):
            if isinstance(x, dict) and "k" in x:
                W = s.ex(x, W)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, dict) and "k" in y:
                        W = s.ex(y, W)
        return W

    def call(s, n, W):
        b = short(n)
        if b == "Optimize" and n["k"] == "call":
            s.before[b] = W if b not in s.before else s.before[b] & W
        if n.get("f", "").endswith(("::Initialize", "::InitializeDataStructures", "::ResetTimes")):
            W = s.call1(n, W)
            if W is ALL:
                return W
            g = n["f"]
            if g.endswith("::Initialize") and s.scan.m.is_a(g.rsplit("::", 1)[0], "Ipopt::AlgorithmStrategyObject"):
                g = "Ipopt::AlgorithmStrategyObject::Initialize"
            return W | {"call:" + g}
        return s.call1(n, W)

    def call1(s, n, W):
        o = n.get("o")
        if o is None and n.get("op") in ("=",) and n["a"]:
            o, rest = n["a"][0], n["a"][1:]
        else:
            rest = n["a"] if "a" in n else []
        if isinstance(n.get("fe"), dict):
            W = s.ex(n["fe"], W)
        ps = s.scan.params(n)
        outs = []
        for i, a in enumerate(rest):
            f, whole = base(a)
            if f and i < len(ps) and ps[i].endswith("&") and not ps[i].startswith("const") or f and a["k"] == "un" and a["op"] == "&" and i < len(ps) and not ps[i].startswith("const"):
                # filled in by the callee (options and the like), or handed over to be changed
                s.changed.add(f)
                if whole and short(n) in ("GetNumericValue", "GetIntegerValue", "GetEnumValue", "GetBoolValue", "GetStringValue"):
                    outs.append(f)
                else:
                    s.read(f, W, a)
            else:
                W = s.ex(a, W)
        if n.get("op") in ("=",) or short(n) == "operator=":
            f, whole = base(o)
            if f is not None:
                s.changed.add(f)
                if whole:
                    outs.append(f)
                else:
                    s.read(f, W, n)
            else:
                W = s.ex(o, W)
        elif o is not None and o["k"] == "this" or n["k"] == "call" and o is None and s.scan.inclass(n):
            for g in s.scan.own(n):
                b = s.scan.body(g)
                if b is None:
                    continue
                for f, l in b.exposed.items():
                    s.read(f, W, {"l": n.get("l")})
                s.changed |= b.changed
                outs += list(b.must)
        elif o is not None:
            f, whole = base(o)
            if f and short(n) in ("Initialize", "ReducedInitialize") and not whole:
                outs.append("init:" + f)
            if f is None:
                W = s.ex(o, W)
            elif whole and not n.get("cm"):
                s.changed.add(f)
                if short(n) in WIPE:
                    outs.append(f)
                else:
                    s.read(f, W, n)
            else:
                s.read(f, W, n)
        return W | set(outs) if W is not ALL else W


class Scan:
    def __init__(s, m, cls):
        s.m, s.cls = m, cls
        s.memo = {}
        s.family = {cls} | set(x for x in m.superclasses(cls))
        s.fns = [f for f in m.fns.values() if f.c in s.family and f.body is not None and f.kind not in ("ctor", "dtor")]
        # methods of this class replace those of its base classes
        own = {f.name() for f in s.fns if f.c == cls}

    def params(s, n):
        g = s.m.fns.get(n.get("u")) or s.m.meth.get(n.get("u"))
        if g is None:
            return []
        ps = g.p if hasattr(g, "p") else g.get("p", [])
        return [p["t"] if isinstance(p, dict) else p for p in ps]

    def inclass(s, n):
        g = s.m.fns.get(n.get("u"))
        return g is not None and g.c in s.family

    def own(s, n):
        if n.get("virt"):
            return [g for g in s.m.targets(n) if g.c == s.cls] or [g for g in s.m.targets(n) if g.c in s.family]
        g = s.m.fns.get(n.get("u"))
        return [g] if g is not None and g.c in s.family and g.body is not None else []

    def body(s, g):
        if g.u in s.memo:
            return s.memo[g.u]
        s.memo[g.u] = None
        s.memo[g.u] = Body(s, g)
        return s.memo[g.u]


def state(m, cls, inits=("InitializeImpl",)):
    """{field: (changed in, read in, line, reset)} of what a class carries from call to call"""
    sc = Scan(m, cls)
    init = [f for f in sc.fns if f.name() in inits and f.c == cls] or [f for f in sc.fns if f.name() in inits]
    called = set()
    for f in sc.fns:
        for n in f.calls():
            if n["k"] == "call" and ((n.get("o") or {}).get("k") == "this" or n.get("o") is None):
                for g in sc.own(n):
                    if g is not f:
                        called.add(g.u)
    virt = lambda f: f.virt or f.rec.get("acc") == "public"
    must = frozenset()
    for f in init:
        must = must | sc.body(f).must
    changed, exposed = {}, {}
    for f in sc.fns:
        if f in init or f.name() == "RegisterOptions":
            continue
        b = sc.body(f)
        for n in f.nodes():
            pass
        for x in b.changed:
            changed.setdefault(x, set()).add(f.name())
        if f.u not in called or f.virt:
            for x, l in b.exposed.items():
                exposed.setdefault(x, (f, l))
    out = {}
    for x in changed:
        if x in exposed and x.rsplit("::", 1)[0] in sc.family:
            out[x] = (sorted(changed[x]), exposed[x][0], exposed[x][1], x in must)
    return out, init, must


LIST = os.path.join(os.path.dirname(os.path.abspath(__file__)), "c15_fields.txt")
# what must have been called when initialization succeeds, and the value the new solve starts from
CALLED = [
    ("Ipopt::IpoptAlgorithm", "InitializeImpl", ("Ipopt::IpoptData::Initialize", "Ipopt::IpoptCalculatedQuantities::Initialize", "Ipopt::IpoptNLP::Initialize"), None),
    ("Ipopt::IpoptApplication", "call_optimize", ("Ipopt::TimingStatistics::ResetTimes", "Ipopt::AlgorithmStrategyObject::Initialize"), "Optimize"),
    ("Ipopt::MinC_1NrmRestorationPhase", "PerformRestoration", ("Ipopt::AlgorithmStrategyObject::Initialize",), "Optimize"),
]


def classes(m):
    return [c for c in sorted(m.subclasses("Ipopt::AlgorithmStrategyObject")) + sorted(ALSO) if c in m.classes]


def entries():
    out = []
    for l in open(LIST):
        l = l.split("#")[0].split()
        if l:
            out.append(tuple(l))
    return out


def scan(m):
    out = {}
    for c in classes(m):
        o, init, must = state(m, c, ALSO.get(c, ("InitializeImpl",)))
        if init:
            out[c] = (o, init, must)
    return out


def snapshot(m):
    """the list as it stands (development only)"""
    res = scan(m)
    lines = []
    for c, (o, init, must) in res.items():
        if "LinearSolvers" in init[0].file or "sIPOPT" in init[0].file:
            continue
        for x, (w, f, l, ok) in sorted(o.items()):
            t = [y["t"] for y in m.classes[x.rsplit("::", 1)[0]]["fields"] if y["n"] == x][0]
            if ok and not x.startswith(("Ipopt::AlgorithmStrategy", "Ipopt::Referenced")) and "CachedResults" not in t and not ("SmartPtr" in t and "const Ipopt::" not in t):
                lines.append(("state", c, x))
    for c, (o, init, must) in res.items():
        lines += [("part", c, x[5:]) for x in sorted(must) if x.startswith("init:")]
    lines.append(("state", "Ipopt::IpoptApplication", "Ipopt::IpoptApplication::statistics_"))
    return lines


def run(m, r):
    r.rule("R1", "initialization sets every piece of state and every setting that a solve changes and reads before setting it, on every path on which it succeeds")
    r.rule("R2", "initialization of an object initializes the parts it consists of, whenever they are there")
    r.rule("R3", "a solve, and a restoration phase, starts by initializing the algorithm, its data, its calculated quantities and timers, and the structures of the iterates")
    res = scan(m)
    floors = {"R1": 0, "R2": 0, "R3": 0}
    for kind, c, x in entries():
        if c not in res:
            continue
        o, init, must = res[c]
        i = init
        where = "%s:%s" % (i[0].file, i[0].l)
        have = any(y["n"] == x for y in m.classes.get(x.rsplit("::", 1)[0], {"fields": []})["fields"])
        if kind == "state":
            if not have or x not in o:
                continue        # the field is gone, or no longer carries anything over
            w, f, l, ok = o[x]
            floors["R1"] += 1
            r.check(ok, "R1", "%s %s" % (c[7:], x.split("::")[-1]), where, "%s is read at %s line %s before it is set there, and %s does not set it on every path on which it succeeds: the value of an earlier solve remains" % (x, f.f.rsplit("(")[0] if hasattr(f, "f") else f.name(), l, " / ".join(sorted({g.name() for g in i}))))
        elif kind == "part":
            if not have:
                continue
            floors["R2"] += 1
            r.check("init:" + x in must, "R2", "%s %s" % (c[7:], x.split("::")[-1]), where, "there is a path on which %s succeeds without having initialized %s: this part still has the state of an earlier solve" % (i[0].name(), x))
    for c, name, want, before in CALLED:
        fs = [f for f in m.fns.values() if f.c == c and f.name() == name and f.body is not None]
        if not fs:
            raise AnalysisError("%s::%s not found" % (c, name))
        sc = Scan(m, c)
        for f in fs:
            b = sc.body(f)
            for wnt in want:
                floors["R3"] += 1
                got = b.before.get(before) if before else b.must
                if got is None:
                    raise AnalysisError("%s does not call %s" % (f.f, before))
                r.check("call:" + wnt in got, "R3", "%s %s" % (f.name(), "::".join(wnt.split("::")[-2:])), "%s:%s" % (f.file, f.l), "there is a path on which %s::%s %s without having called %s" % (c[7:], name, "calls " + before if before else "succeeds", wnt[7:]))
            r.analysed([f])
    for c, (o, init, must) in res.items():
        r.analysed(init)
    r.floor("R1", 120, "state and settings")
    r.floor("R2", 12, "parts")
    r.floor("R3", 5, "calls")

"""C05 R2, R3: giving out tags, and the lists that observers and subjects keep of each other."""
from checks.c04_core import Core, vec, par
from sa.guards import engine, short
from sa.loops import strip, resolve
from sa.model import walk
from sa.db import AnalysisError

TO, OB, SU = "Ipopt::TaggedObject", "Ipopt::Observer", "Ipopt::Subject"
KEEP = ("push_back", "insert", "erase", "AttachObserver", "DetachObserver", "RequestDetach", "ReceiveNotification", "ProcessNotification", "Notify", "pop_back", "clear", "emplace_back", "push_front", "remove")


class Obs(Core):
    """iterators are terms, so that a path knows whether something was found"""

    def on_call(s, eng, st, n, fns, obj, args):
        b = short(n)
        if n["k"] == "ctor" and "iterator" in n.get("t", "") and len(args) == 1:
            return [(st, s.val(eng, st, args[0]))]
        if n["k"] == "call":
            if b in ("begin", "end", "cbegin", "cend") and obj is not None:
                return [(st, ('e', 'pure', ('c', b.replace("c", "") if b[0] == "c" else b), s.base(eng, st, obj)))]
            if b == "operator=" and len(args) == 1 and obj is not None and "iterator" in n.get("t", ""):
                return [(eng.write(st, obj[1] if obj[0] == '&' else obj, s.val(eng, st, args[0]), n), obj)]
            if b == "find":
                return [(st, ('e', 'pure', ('c', 'find')) + tuple(s.val(eng, st, a) for a in args))]
            if b in ("operator!=", "operator==") and "iterator" in str(n.get("f")) + str(n["a"][0].get("t")):
                a = [s.val(eng, st, x) for x in ([obj] if obj is not None else []) + list(args)]
                if len(a) == 2:
                    return [(st, ('e', b[8:], a[0], a[1]))]
        return super().on_call(eng, st, n, fns, obj, args)


def runs(m, f):
    cl = Obs(m, opaque=lambda n: False)
    cl.keep = KEEP
    cl.consts = set()
    eng = engine(m, cl, 400)
    eng.termdepth = 60
    rets, _ = eng.run(f, frozenset())
    return [(st, dict(st.prop).get(('log',), ()), cl.factterms(eng, st), eng, cl) for st, v in rets]


def one(m, cls, name):
    l = [f for f in m.fns.values() if f.c == cls and f.name() == name and f.body is not None]
    if len(l) != 1:
        raise AnalysisError("%s::%s not found" % (cls, name))
    return l[0]


def lst(t):
    """name of the list field a term stands for"""
    while t and t[0] in ('&', 'r', 'd'):
        t = t[1]
    if t and t[0] == 's' and t[2] and t[2][0] == 'h':
        t = t[2][1]
    return t[2].rsplit("::", 1)[-1] if t and t[0] == 'f' else None


def null(fs, p):
    return any(op == '==' and par(a) == p and b == ('c', 0) for op, a, b in fs)


def find(t):
    return t[:3] == ('e', 'pure', ('c', 'find'))


def isend(t):
    return t[:3] == ('e', 'pure', ('c', 'end'))


def absent(fs, field, p, hasfind):
    """the path knows that p is not in the list"""
    if not hasfind:
        return True
    return any(op == '==' and (find(a) and isend(b) or find(b) and isend(a)) for op, a, b in fs)


def added(log, field, p):
    return any(x[0] in ("push_back", "insert", "emplace_back", "push_front") and lst(x[1]) == field and any(par(a) == p for a in x[2:]) for x in log)


def removed(log, field, p):
    for x in log:
        if x[0] in ("erase", "remove", "pop_back") and lst(x[1]) == field:
            if len(x) == 3 and find(x[2]):
                if par(x[2][5]) == p and x[2][3][2] == ('c', 'begin') and lst(x[2][3][3]) == field and isend(x[2][4]) and lst(x[2][4][3]) == field:
                    return True
            else:
                return True
    return False


def told(log, name, obj, arg):
    return any(x[0] == name and (par(x[1]) == obj or obj == "this" and x[1] == ('this',)) and any(a == ('this',) if arg == "this" else par(a) == arg for a in x[2:]) for x in log)


def hasfind(m, f):
    return any(n["k"] == "call" and short(n) == "find" for n in f.nodes())


# ------------------------------------------------------------------ loops over all members of a list

def field(n):
    n = strip(n)
    return n["n"].rsplit("::", 1)[-1] if n and n["k"] == "mem" else None


def isref(n, i):
    n = strip(n)
    return bool(n) and n["k"] == "ref" and n.get("id") == i


def callon(n, names, fld):
    n = strip(n)
    return bool(n) and n["k"] == "call" and short(n) in names and n.get("o") is not None and field(n["o"]) == fld


def step(n, i):
    n = strip(n)
    if not n:
        return 0
    if n["k"] == "un" and isref(n["e"], i):
        return {"++": 1, "--": -1}.get(n["op"], 0)
    if n["k"] == "call" and short(n) in ("operator++", "operator--") and isref(n.get("o") or (n["a"] or [None])[0], i):
        return 1 if short(n)[-1] == '+' else -1
    if n["k"] == "bin" and n["op"] in ("+=", "-=") and isref(n["a"], i) and strip(n["b"]).get("v") == 1:
        return 1 if n["op"] == "+=" else -1
    return 0


def unctor(n):
    n = strip(n)
    while n and n["k"] == "ctor" and len(n["a"]) == 1:
        n = strip(n["a"][0])
    return n


def element_of(fn, loop, fld):
    """(predicate 'this expression is the current element', direction)  or None"""
    if loop["k"] == "while":
        c = strip(loop["c"])
        neg = c["k"] == "un" and c["op"] == "!" and callon(c["e"], ("empty",), fld)
        pos = callon(c, ("size",), fld) or c["k"] == "bin" and c["op"] in (">", "!=", ">=") and callon(c["a"], ("size",), fld)
        if neg or pos:
            def cur(n):
                n = strip(n)
                if callon(n, ("back", "front"), fld):
                    return True
                return bool(n) and n["k"] == "call" and n.get("op") == "[]" and field(n["o"]) == fld
            return cur, 0
        return None
    if loop["k"] in ("rfor", "forrange"):
        return None
    if loop["k"] != "for" or not loop.get("i") or loop["i"]["k"] != "decl" or len(loop["i"]["v"]) < 1 or not loop.get("c"):
        return None
    v = loop["i"]["v"][0]
    i, a = v["id"], unctor(v.get("i"))
    c = strip(loop["c"])
    d = step(loop.get("inc"), i) if loop.get("inc") else 0
    if a and callon(a, ("begin", "cbegin"), fld):
        other = [x for x in ([c.get("o")] if c.get("o") else []) + list(c.get("a", [])) if not isref(x, i)] if c["k"] == "call" else []
        if d != 1 or c["k"] != "call" or short(c) != "operator!=" or not any(callon(unctor(resolve(fn, unctor(x))), ("end", "cend"), fld) for x in other):
            return None

        def cur(n):
            n = strip(n)
            return bool(n) and n["k"] == "call" and short(n) == "operator*" and isref(n.get("o") or n["a"][0], i)
        return cur, 1

    def at(n, off):
        n = strip(n)
        if not n or n["k"] != "call" or n.get("op") != "[]" and short(n) != "at" or field(n["o"]) != fld:
            return False
        x = strip(n["a"][0])
        if off == 0:
            return isref(x, i)
        return x["k"] == "bin" and x["op"] == "-" and isref(x["a"], i) and strip(x["b"]).get("v") == off
    zero = a and a["k"] == "int" and a["v"] == 0
    if zero and d == 1 and c["k"] == "bin" and c["op"] in ("<", "!=") and isref(c["a"], i) and callon(resolve(fn, c["b"]), ("size",), fld):
        return (lambda n: at(n, 0)), 1
    if a and callon(a, ("size",), fld) and c["k"] == "bin" and isref(c["a"], i) and strip(c["b"]).get("v") == 0 and c["op"] in (">", "!=") and d == -1:
        return (lambda n: at(n, 1)), -1
    return None


def always(n, pred, env):
    """every way through n makes the call; returns 1 yes, 0 no, -1 leaves the loop first"""
    if n is None:
        return 0
    k = n["k"]
    if k == "seq":
        for x in n["s"]:
            z = always(x, pred, env)
            if z:
                return z
        return 0
    if k in ("break", "continue", "return", "throw", "goto"):
        if k == "return" and n.get("e") is not None and any(pred(x, env) for x in walk(n["e"])):
            return 1
        return -1
    if k == "decl":
        for v in n["v"]:
            if v.get("i") is not None:
                if any(pred(x, env) for x in walk(v["i"])):
                    return 1
                env[v["id"]] = v["i"]
        return 0
    if k == "if":
        if any(pred(x, env) for x in walk(n["c"])):
            return 1
        a, b = always(n["t"], pred, env), always(n.get("e"), pred, env)
        return 1 if a == 1 and b == 1 else -1 if -1 in (a, b) else 0
    if k in ("for", "while", "do", "switch", "try"):
        return 1 if k == "try" and always(n["b"], pred, env) == 1 else 0
    return 1 if any(pred(x, env) for x in walk(n)) else 0


def everyone(m, f, fld, callee, argok, need_back=False, depth=0):
    """f calls callee for every member of the list; (ok, where, why)"""
    why = "no loop over %s" % fld
    for lp in [n for n in f.nodes() if n["k"] in ("for", "while")]:
        e = element_of(f, lp, fld)
        if e is None:
            continue
        cur, d = e

        def pred(n, env):
            if n["k"] != "call" or short(n) != callee:
                return False

            def res(x):
                x = strip(x)
                if x and x["k"] == "ref" and x.get("id") in env:
                    return env[x["id"]]
                return x
            o = [res(x) for x in ([n["o"]] if n.get("o") else []) + n["a"]]
            return any(x is not None and cur(x) for x in o) and argok(n)
        z = always(lp["b"], pred, {})
        if z != 1:
            why = "%s is not called for every member of %s" % (callee, fld)
            continue
        if need_back and d == 1:
            why = "members are skipped: the list shrinks while it is walked forwards"
            continue
        return True, lp["l"], None
    if depth < 2:
        for n in f.nodes():
            if n["k"] == "call" and n.get("o") is not None and strip(n["o"])["k"] == "this" and short(n) != callee:
                for g in m.targets(n) if hasattr(m, "targets") else [x for x in m.fns.values() if x.u == n.get("u")]:
                    if g.body is not None and g.c == f.c:
                        z = everyone(m, g, fld, callee, argok, need_back, depth + 1)
                        if z[0]:
                            return z
    return False, f.l, why


def run_obs(m, r):
    # ---- R2
    f = one(m, TO, "ObjectChanged")
    r.analysed([f])
    w = "%s:%d" % (f.file, f.l)
    tagf = TO + "::tag_"
    counters = set()
    for st, log, fs, eng, cl in runs(m, f):
        r.check(any(x[0] == "Notify" and x[1] == ('this',) and x[2] == ('c', changed(m)) for x in log), "R2", "observers are told", w, "a path through ObjectChanged does not notify the observers of the change", st.path())
    asg = [n for n in f.nodes() if n["k"] == "bin" and n["op"] == "=" and strip(n["a"])["k"] == "mem" and strip(n["a"])["n"] == tagf]
    good = False
    for n in asg:
        src = strip(n["b"])
        while src["k"] == "un" and src["op"] in ("++", "--"):
            src = strip(src["e"])
        if src["k"] == "ref" and src.get("d") == "local":
            src = next((strip(v["i"]) for x in f.nodes() if x["k"] == "decl" for v in x["v"] if v["id"] == src["id"] and v.get("i")), src)
            while src["k"] == "un":
                src = strip(src["e"])
        if src["k"] == "ref" and src["d"] == "global":
            counters.add(src["n"])
            good = True
    r.check(good and len(asg) == 1, "R2", "the tag comes from the shared counter", w, "ObjectChanged does not take the tag from the counter shared by all objects")

    def advances(n, env):
        if n["k"] == "un" and n["op"] == "++" or n["k"] == "bin" and n["op"] == "+=" and strip(n["b"]).get("v", 0) == 1:
            t = strip(n.get("e") or n.get("a"))
            return t["k"] == "ref" and t.get("n") in counters
        if n["k"] == "bin" and n["op"] == "=" and strip(n["a"]).get("n") in counters:
            b = strip(n["b"])
            return b["k"] == "bin" and b["op"] == "+"
        return False
    r.check(always(f.body, advances, {}) == 1, "R2", "the counter advances", w, "ObjectChanged does not advance the tag counter on every path: two objects can get the same tag")
    # nobody else writes tag or counter; the counter never starts at the value that means 'no dependency'
    for g in m.fns.values():
        if g.body is None or g is f:
            continue
        for n in g.nodes():
            t = None
            if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                t = strip(n["a"])
            elif n["k"] == "un" and n["op"] in ("++", "--"):
                t = strip(n["e"])
            if t and (t["k"] == "mem" and t.get("n") == tagf or t["k"] == "ref" and t.get("d") == "global" and t.get("n") in counters):
                r.check(False, "R2", "only ObjectChanged hands out tags", "%s:%d" % (g.file, n["l"]), "%s writes the tag or the tag counter" % g.f)
    r.ok("R2", "only ObjectChanged hands out tags", w)
    ctors = [g for g in m.fns.values() if g.c == TO and g.kind == "ctor" and g.body is not None]
    if not ctors:
        raise AnalysisError("constructor of TaggedObject not found")
    for g in ctors:
        r.check(always(g.body, lambda n, env: n["k"] == "call" and short(n) == "ObjectChanged", {}) == 1, "R2", "a new object gets a tag of its own", "%s:%d" % (g.file, g.l), "the constructor of TaggedObject does not draw a tag")
    r.floor("R2", 5, "facts about tags")

    # ---- R3
    def each(cls, name, rules):
        f = one(m, cls, name)
        r.analysed([f])
        hf = hasfind(m, f)
        for st, log, fs, eng, cl in runs(m, f):
            for what, ok in rules(f, log, fs, hf):
                r.check(ok, "R3", "%s::%s: %s" % (cls.split("::")[1], name, what), "%s:%d" % (f.file, f.l), "a path through %s does not %s" % (f.f, what), st.path())
    P = lambda f, i: f.p[i]["n"]
    each(OB, "RequestAttach", lambda f, log, fs, hf: [
        ("record the subject", null(fs, P(f, 1)) or added(log, "subjects_", P(f, 1))),
        ("enter this observer at the subject", null(fs, P(f, 1)) or told(log, "AttachObserver", P(f, 1), "this"))])
    each(OB, "RequestDetach", lambda f, log, fs, hf: [
        ("drop the subject", null(fs, P(f, 1)) or removed(log, "subjects_", P(f, 1)) or absent(fs, "subjects_", P(f, 1), hf)),
        ("leave the subject's list", null(fs, P(f, 1)) or told(log, "DetachObserver", P(f, 1), "this"))])
    each(SU, "AttachObserver", lambda f, log, fs, hf: [("record the observer", null(fs, P(f, 1)) or added(log, "observers_", P(f, 1)))])
    each(SU, "DetachObserver", lambda f, log, fs, hf: [("drop the observer", null(fs, P(f, 1)) or removed(log, "observers_", P(f, 1)) or absent(fs, "observers_", P(f, 1), hf))])

    def other(fs, p, v):
        return any(par(a) == p and (op == '!=' and b == ('c', v) or op == '==' and b[0] == 'c' and b != ('c', v)) for op, a, b in fs)
    enum = m.enums.get(OB + "::NotifyType") if hasattr(m, "enums") else None
    dest = enumval(m, "NT_BeingDestroyed")
    each(OB, "ProcessNotification", lambda f, log, fs, hf: [
        ("pass the notification on", null(fs, P(f, 1)) or absent2(fs, hf) or any(x[0] == "ReceiveNotification" and x[1] == ('this',) and par(x[2]) == P(f, 0) for x in log)),
        ("forget a subject that is being destroyed", null(fs, P(f, 1)) or absent2(fs, hf) or other(fs, P(f, 0), dest) or removed(log, "subjects_", P(f, 1)))])
    f = one(m, SU, "Notify")
    for cls, nm, fld, callee, argok, back in (
            (SU, "Notify", "observers_", "ProcessNotification", lambda n: strip(n["a"][0])["k"] == "ref" and strip(n["a"][0]).get("d") == "parm", False),
            (SU, "~Subject", "observers_", "ProcessNotification", lambda n: strip(n["a"][0]).get("v") == dest, False),
            (OB, "~Observer", "subjects_", "RequestDetach", lambda n: True, True)):
        f = one(m, cls, nm)
        r.analysed([f])
        ok, line, why = everyone(m, f, fld, callee, argok, back)
        r.check(ok, "R3", "%s reaches everyone" % f.f.replace("Ipopt::", ""), "%s:%d" % (f.file, line), why or "")
    r.floor("R3", 10, "paths and loops of the observer lists")


def absent2(fs, hf):
    return hf and any(op == '==' and (find(a) and isend(b) or find(b) and isend(a)) for op, a, b in fs)


def enumval(m, name):
    for f in m.fns.values():
        if f.body is not None and f.c in (OB, SU, TO, "Ipopt::DependentResult"):
            for n in f.nodes():
                if n["k"] == "ref" and n.get("d") == "enum" and n["n"].endswith("::" + name):
                    return n["v"]
    raise AnalysisError("enumerator %s not found" % name)


def changed(m):
    return enumval(m, "NT_Changed")

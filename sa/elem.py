"""Abstract interpretation of element-wise vector code.

An array is represented by the term of one generic element (and its allocation
state); loops over all elements are interpreted once for that element, and
variables that a loop accumulates into become reduction terms.  Numbers are
polynomials (with negative exponents) over atoms; conditions split paths and are
remembered as signs of polynomials.
"""
from fractions import Fraction as F
from sa.db import AnalysisError


# ---------------------------------------------------------------- terms
class P:
    __slots__ = ("d", "_h")

    def __init__(s, d):
        s.d = {k: v for k, v in d.items() if v != 0}
        s._h = None

    def key(s):
        if s._h is None:
            s._h = tuple(sorted(((tuple(sorted(k, key=repr)), v) for k, v in s.d.items()), key=repr))
        return s._h

    def __eq__(s, o):
        return isinstance(o, P) and s.key() == o.key()

    def __hash__(s):
        return hash(s.key())

    def __repr__(s):
        return show(s)

    def __add__(s, o):
        d = dict(s.d)
        for k, v in num(o).d.items():
            d[k] = d.get(k, 0) + v
        return P(d)
    __radd__ = __add__

    def __neg__(s):
        return P({k: -v for k, v in s.d.items()})

    def __sub__(s, o):
        return s + -num(o)

    def __rsub__(s, o):
        return num(o) - s

    def __mul__(s, o):
        d = {}
        for k, v in s.d.items():
            for k2, v2 in num(o).d.items():
                e = dict(k)
                for a, n in k2:
                    e[a] = e.get(a, 0) + n
                kk = frozenset((a, n) for a, n in e.items() if n)
                d[kk] = d.get(kk, 0) + v * v2
        return P(d)
    __rmul__ = __mul__

    def __truediv__(s, o):
        o = num(o)
        if not o.d:
            return s * atom("inf")
        if len(o.d) == 1:
            (k, v), = o.d.items()
            return s * P({frozenset((a, -n) for a, n in k): F(1) / v})
        return s * P({frozenset({(("sumof", o), -1)}): F(1)})

    def __rtruediv__(s, o):
        return num(o) / s

    def const(s):
        if not s.d:
            return F(0)
        if len(s.d) == 1 and frozenset() in s.d:
            return s.d[frozenset()]
        return None

    def atoms(s):
        return {a for k in s.d for a, n in k}


def num(x):
    return x if isinstance(x, P) else P({frozenset(): F(x).limit_denominator(10**12) if isinstance(x, float) else F(x)})


def atom(*a):
    return P({frozenset({(a, 1)}): F(1)})


def show(x):
    if isinstance(x, P):
        out = []
        for k, v in x.key():
            t = "*".join(show(a) + ("" if n == 1 else "^%s" % n) for a, n in k)
            out.append(t if t and v == 1 else "-" + t if t and v == -1 else "%s%s" % (v, "*" + t if t else ""))
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0] if out else "0"
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] in ("sym", "el", "scal"):
            return {"sym": "%s", "el": "%s_i", "scal": "all %s"}[x[0]] % x[1]
        return "%s(%s)" % (x[0], ", ".join(show(y) for y in x[1:]))
    if isinstance(x, frozenset):
        return "{%s}" % ", ".join(sorted(show(y) for y in x))
    return str(x)


def single(x):
    """the atom a term consists of"""
    a = next(iter(x.atoms()), None) if len(x.d) == 1 else None
    return a if a and x == atom(*a) else ("",)


def mx(kind, *xs):
    """Max / Min of several terms"""
    parts = set()
    for x in xs:
        x = num(x)
        a = single(x)
        if a[0] == kind and x == atom(*a):
            parts |= a[1]
        else:
            parts.add(x)
    cs = [p.const() for p in parts if p.const() is not None]
    if len(cs) > 1:
        parts = {p for p in parts if p.const() is None} | {num(max(cs) if kind == "max" else min(cs))}
    return next(iter(parts)) if len(parts) == 1 else atom(kind, frozenset(parts))


def isel(a):
    return any(y[0] == "el" or isel(y) for y in inner(a)) or a[0] in ("el",)


def uniform(e):
    """whether a content is the same number in all elements"""
    return not any(isel(x) for x in e.atoms()) and all(x[0] in ("scal", "sym", "abs", "max", "min") for x in e.atoms())


def inner(a):
    out = []
    for x in a[1:]:
        for p in (x if isinstance(x, frozenset) else [x]):
            if isinstance(p, P):
                out += p.atoms()
            elif isinstance(p, tuple) and p and isinstance(p[0], str):
                out.append(p)
    return out


def total(x):
    """sum over all elements"""
    r = num(0)
    for k, v in num(x).d.items():
        e = frozenset((a, n) for a, n in k if isel(a))
        c = P({frozenset((a, n) for a, n in k if not isel(a)): v})
        r = r + c * (atom("sum", P({e: F(1)})) if e else atom("sym", "dim"))
    return r


def fun(name, x):
    x = num(x)
    if name == "abs":
        c = x.const()
        if c is not None:
            return num(abs(c))
        k = x.key()
        if k and k[0][1] < 0:
            x = -x
        return atom("abs", x)
    return atom(name, x)


def subst(x, m):
    """replace atoms by terms, deep"""
    if isinstance(x, P):
        r = num(0)
        for k, v in x.d.items():
            t = num(v)
            for a, n in k:
                b = m.get(a)
                if b is None:
                    b = rebuild(a, m)
                for _ in range(abs(n)):
                    t = t * b if n > 0 else t / b
            r = r + t
        return r
    return x


def rebuild(a, m):
    if a[0] in ("max", "min"):
        return mx(a[0], *[subst(p, m) for p in a[1]])
    if a[0] == "sum":
        return total(subst(a[1], m))
    if a[0] in ("abs", "sqrt", "log"):
        return fun(a[0], subst(a[1], m))
    if a[0] == "sumof":
        return subst(a[1], m)
    return P({frozenset({(tuple(subst(y, m) if isinstance(y, P) else y for y in a), 1)}): F(1)})


# ---------------------------------------------------------------- states
SIGNS = {"<": {-1}, ">": {1}, "==": {0}, "!=": {-1, 1}, "<=": {-1, 0}, ">=": {0, 1}}
GARBAGE = atom("undefined")


class S:
    """state: env, fields, arrays (contents), signs, substitution, trace"""

    def __init__(s, o=None):
        s.env = dict(o.env) if o else {}
        s.fld = dict(o.fld) if o else {}
        s.arr = dict(o.arr) if o else {}
        s.sg = dict(o.sg) if o else {}
        s.sub = dict(o.sub) if o else {}
        s.trace = list(o.trace) if o else []
        s.ret = o.ret if o else None

    def copy(s):
        return S(s)

    def n(s, x):
        return subst(x, s.sub) if isinstance(x, P) and s.sub else x

    def sign(s, p):
        """possible signs of a term"""
        p = s.n(p)
        c = p.const()
        if c is None:
            p = reduced(s, p)
            c = p.const()
        if c is not None:
            return {(c > 0) - (c < 0)}, p, 1
        k = p.key()
        lead = k[0][1]
        q = p * num(F(1) / lead)
        f = 1 if lead > 0 else -1
        known = s.sg.get(q)
        if known is None:
            known = {-1, 0, 1}
            for z, sg in s.sg.items():
                if sg == {0} and len(z.d) <= 2 and len(q.d) <= 2:
                    for b in z.d:
                        if b and b in q.d:
                            c = (q - z * num(q.d[b] / z.d[b])).const()
                            if c is not None:
                                known = {(c > 0) - (c < 0)}
        a = single(q)
        if a[0] and (a[0] in ("abs", "sqrt") or a == ("sym", "dim")):
            known = known & {0, 1}
        return {x * f for x in known}, q, f

    def restrict(s, p, signs, loc):
        have, q, f = s.sign(p)
        got = have & signs
        if not got:
            return None
        if got == have:
            return s
        t = s.copy()
        t.sg[q] = {x * f for x in got}
        if loc is not None:
            t.trace.append(loc)
        if got == {0} and len(q.atoms()) >= 1:
            # solve for an atom that occurs alone and linearly
            for k, v in q.d.items():
                if len(k) == 1:
                    (a, n), = k
                    if n == 1 and a[0] in ("sym", "el", "scal") and sum(1 for kk in q.d if any(b == a for b, _ in kk)) == 1:
                        t.sub = {x: subst(y, {a: -(q - P({k: v})) / v}) for x, y in t.sub.items()}
                        t.sub[a] = -(q - P({k: v})) / v
                        break
        return t


class Elem:
    """model: functions by (class, name); vector classes share field names"""

    def __init__(s, m, cls, base, more=()):
        s.m, s.cls, s.base = m, cls, base
        s.fns = {}
        s.dims = {atom("sym", "dim")}
        s.adim = {}
        for f in m.fns.values():
            if f.body and (f.c in (cls, base) or f.c in more):
                s.fns.setdefault((f.c, f.name(), len(f.p)), f)
        s.seen = set()
        s.n = 0

    def err(s, n, what):
        raise AnalysisError("%s:%s: %s" % (s.cur.file, n.get("l"), what))

    # ------------------------------------------------------------ functions
    def call(s, st, f, this, args, depth=0):
        if depth > 12:
            raise AnalysisError("recursion in %s" % f.f)
        s.seen.add(f)
        save, st = st, st.copy()
        env = st.env
        st.env = {("this",): this}
        for p, a in zip(f.p, args):
            st.env[p["id"]] = a
        old = getattr(s, "cur", None)
        s.cur = f
        out = []
        for kind, t in s.stmt(st, f.body, depth):
            t = t.copy()
            t.env = dict(env)
            v, t.ret = t.ret, None
            out.append((t, v))
        s.cur = old
        return out

    def stmt(s, st, n, d):
        k = n["k"]
        if k == "seq":
            live, out = [st], []
            for x in n["s"]:
                nxt = []
                for t in live:
                    for kind, u in s.stmt(t, x, d):
                        (nxt if kind == "next" else out).append(u if kind == "next" else (kind, u))
                live = nxt
            return out + [("next", t) for t in live]
        if k == "nop":
            return [("next", st)]
        if k == "decl":
            sts = [st]
            for v in n["v"]:
                nxt = []
                for t in sts:
                    if v.get("i") is None:
                        t = t.copy()
                        t.env[v["id"]] = GARBAGE
                        nxt.append(t)
                    else:
                        for u, val in s.ev(t, v["i"], d):
                            u = u.copy()
                            u.env[v["id"]] = val
                            nxt.append(u)
                sts = nxt
            return [("next", t) for t in sts]
        if k == "if":
            out = []
            for t, b in s.cond(st, n["c"], d):
                br = n.get("t") if b else n.get("e")
                out += s.stmt(t, br, d) if br else [("next", t)]
            return out
        if k == "return":
            if n.get("e") is None:
                return [("ret", st)]
            out = []
            for t, v in s.ev(st, n["e"], d):
                t = t.copy()
                t.ret = v
                out.append(("ret", t))
            return out
        if k == "for":
            return s.loop(st, n, d)
        if k == "while":
            b = n["b"]["s"] if n["b"]["k"] == "seq" else [n["b"]]
            return s.loop(st, {"k": "for", "l": n["l"], "c": n["c"], "i": None, "inc": b[-1], "b": {"k": "seq", "l": n["l"], "s": b[:-1]}}, d)
        if k in ("break", "continue"):
            return [(k, st)]
        return [("next", t) for t, v in s.ev(st, n, d)]

    # ------------------------------------------------------------ loops
    def loop(s, st, n, d):
        i = n.get("i")
        sts = [("next", st)] if not i else s.stmt(st, i, d)
        c, inc = n.get("c") or {}, n.get("inc") or {}
        while inc.get("k") == "bin" and inc["op"] == ",":
            inc, more = inc["a"], inc["b"]
            n = dict(n, b={"k": "seq", "l": n["l"], "s": [n["b"], more]})
        if inc.get("k") == "bin" and inc["op"] in ("+=", "-=") and inc["b"].get("v") == 1:
            inc = {"k": "un", "op": inc["op"][0] * 2, "e": inc["a"]}
        step = inc["op"] if inc.get("k") == "un" and inc["op"] in ("++", "--") and inc["e"]["k"] == "ref" else None
        if not step or c.get("k") != "bin" or c["op"] not in ("<", "!=", "<=", ">", ">="):
            s.err(n, "loop is not over elements")
        var = inc["e"]["id"]
        lhs, rhs, rel = c["a"], c["b"], c["op"]
        if rhs["k"] == "ref" and rhs.get("id") == var:
            lhs, rhs, rel = rhs, lhs, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(rel, rel)
        if lhs.get("id") != var:
            s.err(n, "loop is not over elements")
        out = []
        for _, t in sts:
            start = t.env.get(var)
            (t, bound), = s.ev(t, rhs, d)
            ptr = isinstance(start, tuple) and start[0] == "arr"
            if ptr and isinstance(bound, tuple) and bound[0] == "arr" and bound[1] == start[1]:
                start, bound, ptr = start[2], bound[2], ("arr", start[1])
            if not isinstance(start, P) or not isinstance(bound, P):
                s.err(n, "loop is not over elements")
            dims = {t.n(x) for x in s.dims}
            if step == "--":
                over = start + 1
                ok = (rel == ">=" and bound == num(0) or rel in (">", "!=") and bound == num(-1)) and t.n(start + 1) in dims
                first = 0
            else:
                if rel == "<=":
                    bound = bound + 1
                over = bound
                ok = rel in ("<", "!=", "<=") and t.n(bound) in dims and num(start).const() in (0, 1)
                first = num(start).const()
            if not ok:
                out.append(("next", s.spoil(t, n, "loop does not run over all elements")))
                continue
            out += s.body(t, n, var, first, d, ptr, over)
        return out

    def spoil(s, t, n, why):
        t = t.copy()
        for a in t.arr:
            t.arr[a] = atom("unknown", why, n["l"])
        t.env = {k: (atom("unknown", why, n["l"]) if isinstance(v, P) else v) for k, v in t.env.items()}
        return t

    def body(s, t0, n, var, first, d, ptr, over):
        t = t0.copy()
        outer = t.fld.get("#loop")
        t.fld["#loop"] = over
        here = ptr + (atom("idx"),) if ptr else atom("idx")
        s.n += 1
        accs = {}
        for k, v in t.env.items():
            if isinstance(v, P) and k != var:
                accs[k] = atom("acc", k)
        for k, v in t.fld.items():
            if isinstance(v, P):
                accs[("F", k)] = atom("acc", k)
        # only those that the body changes
        probe = t.copy()
        probe.env[var] = here
        changed = set()
        res = s.stmt(probe, n["b"], d)
        # pointers and counters that move along with the loop
        along = {}
        for k, v in list(t.env.items()):
            if k == var or not res:
                continue
            ends = [u.env.get(k) for kind, u in res]
            if isinstance(v, tuple) and v[0] == "arr" and all(isinstance(x, tuple) and x == ("arr", v[1], v[2] + 1) for x in ends) and v[2] == num(0) and not first:
                along[k] = ("arr", v[1], atom("idx")), ("arr", v[1], over)
            elif isinstance(v, P) and v == num(0) and all(x == num(1) for x in ends) and not first:
                along[k] = atom("idx"), over
            elif isinstance(v, tuple) and any(x != v for x in ends):
                s.err(n, "pointer changed in a loop")
        if along:
            for k, (v, w) in along.items():
                probe.env[k] = v
                t.env[k] = v
                accs.pop(k, None)
            res = s.stmt(probe, n["b"], d)
        for kind, u in res:
            for k in accs:
                a, b = (u.fld[k[1]], t.fld[k[1]]) if isinstance(k, tuple) and k[0] == "F" else (u.env.get(k), t.env[k])
                if u.n(a) != u.n(b):
                    changed.add(k)
        run = t.copy()
        run.env[var] = here
        for k in changed:
            if isinstance(k, tuple):
                run.fld[k[1]] = accs[k]
            else:
                run.env[k] = accs[k]
        base = {q: set(v) for q, v in run.sg.items()}
        ends = []
        for kind, u in s.stmt(run, n["b"], d):
            if kind not in ("next", "continue"):
                s.err(n, "loop leaves early")
            ends.append(u)
        written = {a for u in ends for a in u.arr if u.arr[a] != t.arr.get(a)}
        outs = []
        if not changed:
            for u in ends:
                if first and written:
                    u = s.spoil(u, n, "the loop leaves out the first element")
                outs.append(u)
        else:
            if written:
                s.err(n, "loop both changes elements and accumulates")
            u = t.copy()
            for k in changed:
                init = t.fld[k[1]] if isinstance(k, tuple) else t.env[k]
                cases = []
                for e in ends:
                    v = e.n(e.fld[k[1]] if isinstance(k, tuple) else e.env[k])
                    # redundant conditions vanish
                    cond = frozenset((q, frozenset(x)) for q, x in e.sg.items() if x != base.get(q))
                    cases.append((cond, v))
                val = s.reduce(init, accs[k], cases, first, ends)
                if isinstance(k, tuple):
                    u.fld[k[1]] = val
                else:
                    u.env[k] = val
            outs = [u]
        for u in outs:
            u.fld["#loop"] = outer
            u.env.pop(var, None)
            for k, (v, w) in along.items():
                u.env[k] = w
        return [("next", u) for u in outs]

    def reduce(s, init, acc, cases, first, ends):
        (a,) = acc.atoms()
        # absolute value written with a comparison
        if len(cases) == 2:
            for (c1, v1), (c2, v2) in (cases, cases[::-1]):
                (q1, s1), (q2, s2) = (list(c)[0] if len(c) == 1 else (None, None) for c in (c1, c2))
                if q1 is not None and q1 == q2 and s1 <= {-1, 0} and s2 <= {0, 1} and s1 | s2 == {-1, 0, 1}:
                    x1, x2 = v1 - acc, v2 - acc
                    k = (x2 / q1).const()
                    if k and x1 == -x2 and not any(has(b, a) for b in x2.atoms()):
                        cases = [(frozenset(), acc + (fun("abs", x2) if k > 0 else -fun("abs", x2)))]
                        break
        vals = {v for c, v in cases}
        if len(vals) == 1:
            v = next(iter(vals))
            if v == acc:
                return init
            t = v - acc
            if not any(has(b, a) for b in t.atoms()):
                return init + total(t) if not first else atom("unknown", "sum leaves out the first element")
            for kind in ("max", "min"):
                b = single(v)
                if b[0] == kind and v == atom(*b) and acc in b[1]:
                    rest = b[1] - {acc}
                    if not any(has(y, a) for p in rest for y in p.atoms()):
                        return extreme(kind, init, [(frozenset(), r) for r in rest], first)
        # conditional extremum
        for kind in ("max", "min"):
            parts = []
            for c, v in cases:
                if v == acc:
                    continue
                b = single(v)
                if b[0] == kind and v == atom(*b) and acc in b[1]:
                    parts += [(c, r) for r in b[1] - {acc}]
                else:
                    parts = None
                    break
            if parts:
                return extreme(kind, init, parts, first)
        # extremum written with a comparison
        new = {v for v in vals if v != acc}
        if len(new) == 1:
            (v,) = new
            if not any(has(b, a) for b in v.atoms()):
                key = S().sign(v - acc)[1]
                for kind, f in (("max", 1), ("min", -1)):
                    parts, ok = set(), True
                    for (c, w), e in zip(cases, ends):
                        c = frozenset(x for x in c if x[0] != key)
                        sg = {x * f for x in e.sign(v - acc)[0]}
                        if w == acc and sg <= {-1, 0}:
                            parts.add((c, v))
                        elif w == v and sg <= {0, 1}:
                            parts.add((c, v))
                        elif w == v:
                            ok = False
                        elif sg & {1} and any(c == c2 for c2, _ in parts):
                            ok = False
                    if ok and parts:
                        # the conditions under which nothing happens must exclude those of an update
                        idle = {frozenset(x for x in c if x[0] != key) for (c, w), e in zip(cases, ends) if w == acc and not {x * f for x in e.sign(v - acc)[0]} <= {-1, 0}}
                        if not idle & {c for c, _ in parts}:
                            return extreme(kind, init, sorted(parts, key=repr), first)
        return atom("loop", num(init), frozenset((c, v) for c, v in cases))

    # ------------------------------------------------------------ conditions
    def cond(s, st, n, d):
        k = n["k"]
        if k == "bin" and n["op"] in ("&&", "||"):
            out = []
            for t, b in s.cond(st, n["a"], d):
                if b == (n["op"] == "||"):
                    out.append((t, b))
                else:
                    out += s.cond(t, n["b"], d)
            return out
        if k == "un" and n["op"] == "!":
            return [(t, not b) for t, b in s.cond(st, n["e"], d)]
        if k == "cast":
            return s.cond(st, n["e"], d)
        if k == "bin" and n["op"] in SIGNS:
            out = []
            for t, a in s.ev(st, n["a"], d):
                for u, b in s.ev(t, n["b"], d):
                    out += s.compare(u, n, a, b)
            return out
        out = []
        for t, v in s.ev(st, n, d):
            if isinstance(v, bool):
                out.append((t, v))
            elif v is None or isinstance(v, tuple):
                out.append((t, v is not None))
            elif isinstance(v, P):
                out += s.compare(t, dict(n, op="!="), v, num(0))
            else:
                s.err(n, "condition not understood")
        return out

    def compare(s, u, n, a, b):
        op = n["op"]
        if isinstance(a, P) and isinstance(b, P):
            p = a - b
            r = []
            for truth, sg in ((True, SIGNS[op]), (False, {-1, 0, 1} - SIGNS[op])):
                t = u.restrict(p, sg, (s.cur.file, n["l"], truth))
                if t is not None:
                    r.append((t, truth))
            return r
        if op in ("==", "!="):
            return [(u, (a == b) == (op == "=="))]
        s.err(n, "comparison not understood")

    # ------------------------------------------------------------ expressions
    def ev(s, st, n, d):
        k = n["k"]
        if k in ("int", "flt"):
            return [(st, num(n["v"]))]
        if k == "bool":
            return [(st, bool(n["v"]))]
        if k in ("null", "nullptr"):
            return [(st, None)]
        if k == "this":
            return [(st, st.env[("this",)])]
        if k == "cast":
            out = s.ev(st, n["e"], d)
            if "*" in n.get("t", "") or True:
                return [(t, None if isinstance(v, P) and v == num(0) and "*" in n.get("t", "") else v) for t, v in out]
        if k == "cond":
            out = []
            for t, b in s.cond(st, n["c"], d):
                out += s.ev(t, n["a"] if b else n["b"], d)
            return out
        if k in ("ref", "mem", "sub") or k == "un" and n["op"] == "*":
            return [(t, s.load(t, lv, n)) for t, lv in s.lv(st, n, d)]
        if k == "un":
            op = n["op"]
            if op == "&":
                return [(t, s.addr(lv)) for t, lv in s.lv(st, n["e"], d)]
            if op == "!":
                return s.cond(st, n, d)
            if op in ("-", "+"):
                return [(t, -v if op == "-" else v) for t, v in s.ev(st, n["e"], d)]
            if op in ("++", "--"):
                out = []
                for t, lv in s.lv(st, n["e"], d):
                    old = s.load(t, lv, n)
                    new = s.arith(n, op[0], old, num(1))
                    out.append((s.store(t, lv, new, n), old if n.get("post") else new))
                return out
        if k == "bin":
            op = n["op"]
            if op in ("&&", "||") or op in SIGNS:
                return s.cond(st, n, d)
            if op == ",":
                return [x for t, v in s.ev(st, n["a"], d) for x in s.ev(t, n["b"], d)]
            if op == "=":
                return [(s.store(u, lv, v, n), v) for t, v in s.ev(st, n["b"], d) for u, lv in s.lv(t, n["a"], d)]
            if op in ("+=", "-=", "*=", "/="):
                out = []
                for t, v in s.ev(st, n["b"], d):
                    for u, lv in s.lv(t, n["a"], d):
                        w = s.arith(n, op[0], s.load(u, lv, n), v)
                        out.append((s.store(u, lv, w, n), w))
                return out
            if op in "+-*/":
                return [(u, s.arith(n, op, a, b)) for t, a in s.ev(st, n["a"], d) for u, b in s.ev(t, n["b"], d)]
        if k == "call":
            return s.callx(st, n, d)
        if k == "ctor" and len(n.get("a", [])) == 1:
            return s.ev(st, n["a"][0], d)
        s.err(n, "%s %s not understood" % (k, n.get("op", "")))

    def arith(s, n, op, a, b):
        if isinstance(a, tuple) and a[0] == "arr" and isinstance(b, P) and op in "+-":
            return ("arr", a[1], a[2] + (b if op == "+" else -b))
        if not isinstance(a, P) or not isinstance(b, P):
            s.err(n, "arithmetic not understood")
        return a + b if op == "+" else a - b if op == "-" else a * b if op == "*" else a / b

    def addr(s, lv):
        return lv[1] if lv[0] == "O" else ("arr", lv[1], lv[2]) if lv[0] == "A" else ("ptr", lv)

    def lv(s, st, n, d):
        k = n["k"]
        if k == "ref":
            v = st.env.get(n.get("id"))
            if isinstance(v, tuple) and v[0] == "obj" and "&" in n.get("t", "") + "&":
                return [(st, ("O", v))]
            if isinstance(v, tuple) and v[0] == "refto":
                return [(st, v[1])]
            return [(st, ("V", n.get("id", n.get("n"))))]
        if k == "mem":
            return [(t, ("F", o, n["n"].split("::")[-1])) for t, o in s.ev(st, n["b"], d)]
        if k == "sub":
            out = []
            for t, a in s.ev(st, n["a"], d):
                for u, i in s.ev(t, n["i"], d):
                    if not isinstance(a, tuple) or a[0] not in ("arr", "ptr"):
                        s.err(n, "subscript of %s" % (a,))
                    if a[0] == "ptr":
                        out.append((u, a[1] if i == num(0) else ("X", "out of range")))
                    else:
                        out.append((u, ("A", a[1], a[2] + i)))
            return out
        if k == "un" and n["op"] == "*":
            out = []
            for t, v in s.ev(st, n["e"], d):
                if isinstance(v, tuple) and v[0] == "obj":
                    out.append((t, ("O", v)))
                elif isinstance(v, tuple) and v[0] == "ptr":
                    out.append((t, v[1]))
                elif isinstance(v, tuple) and v[0] == "arr":
                    out.append((t, ("A", v[1], v[2])))
                else:
                    s.err(n, "dereference not understood")
            return out
        if k == "cast":
            return s.lv(st, n["e"], d)
        if k in ("call", "cond"):
            out = []
            for t, v in s.ev(st, n, d):
                out.append((t, ("O", v) if isinstance(v, tuple) and v[0] == "obj" else ("T", v)))
            return out
        return [(t, ("T", v)) for t, v in s.ev(st, n, d)]

    def load(s, st, lv, n):
        k = lv[0]
        if k == "V":
            if lv[1] not in st.env:
                return GARBAGE
            return st.env[lv[1]]
        if k in ("O", "T"):
            return lv[1]
        if k == "F":
            if (lv[1], lv[2]) not in st.fld:
                return ("field",) + lv[1:]
            return st.fld[(lv[1], lv[2])]
        if k == "A":
            e = st.arr.get(lv[1], GARBAGE)
            i = lv[2]
            if i == atom("idx"):
                return e if st.n(s.adim.get(lv[1])) in (None, st.n(st.fld.get("#loop"))) else atom("unknown", "element of an array of another length")
            if uniform(e):
                return e
            if i == num(0):
                return e if e.atoms() and all(a[0] == "scal" for a in e.atoms()) else atom("first", e)
            for a in i.atoms():
                if a[0] == "iamax" and i == atom(*a) - 1:
                    return atom("largest", e) if a[1] == fun("abs", e) else atom("unknown", "element of another vector")
            return atom("element", e, i)
        return atom("unknown", "read")

    def store(s, st, lv, v, n):
        t = st.copy()
        k = lv[0]
        if k == "V":
            t.env[lv[1]] = v
        elif k == "F":
            t.fld[(lv[1], lv[2])] = v
        elif k == "A":
            if lv[2] == atom("idx"):
                ok = t.n(s.adim.get(lv[1])) in (None, t.n(t.fld.get("#loop"))) and ("log", lv[1]) not in t.arr
                t.arr[lv[1]] = v if ok else atom("unknown", "elements changed in a loop of another length", n.get("l"))
            elif s.scatter(t, lv, v):
                pass
            else:
                t.arr[lv[1]] = atom("unknown", "single element changed", n["l"])
        else:
            s.err(n, "assignment not understood")
        return t

    def scatter(s, t, lv, v):
        return False

    # ------------------------------------------------------------ calls
    NOTHING = ("ObjectChanged", "FreeInternalStorage", "AddCachedResult", "AddCachedResult1Dep", "AddCachedResult2Dep")

    def callx(s, st, n, d):
        b = n.get("f", "").split("::")[-1]
        outs = [(st, [])]
        for a in n["a"]:
            outs = [(u, vs + [v]) for t, vs in outs for u, v in s.arg(t, a, d)]
        objs = []
        for t, vs in outs:
            if n.get("o"):
                for u, o in s.ev(t, n["o"], d):
                    objs.append((u, vs, o))
            else:
                objs.append((t, vs, None))
        out = []
        for t, vs, o in objs:
            out += s.call1(t, n, b, vs, o, d)
        return out

    def arg(s, st, a, d):
        return s.ev(st, a, d)

    def call1(s, t, n, b, vs, o, d):
        if b in s.NOTHING:
            return [(t, None)]
        if b in ("operator*", "operator->", "GetRawPtr", "ConstPtr") and not (vs and o is not None):
            return [(t, o if o is not None else vs[0])]
        if b == "AllocateInternalStorage":
            t = t.copy()
            s.n += 1
            a = "new%d" % s.n
            t.arr[a] = GARBAGE
            if isinstance(o, tuple) and o[0] == "field" and (o[1], "#dim") in t.fld:
                s.adim[a] = t.fld[(o[1], "#dim")]
            return [(t, ("arr", a, num(0)))]
        if b == "Dim":
            return [(t, t.fld.get((o, "#dim"), atom("sym", "dim")))]
        if b == "GetTag":
            s.n += 1
            return [(t, atom("tag", s.n))]
        if b.startswith("GetCachedResult"):
            return [(t, False)]
        if b in ("Max", "Min", "max", "min", "fmax", "fmin") and len(vs) >= 2:
            return [(t, mx(b[-3:].lower(), *vs))]
        if b == "max" and not vs:
            return [(t, atom("sym", "largest number"))]
        if b in ("abs", "fabs", "sqrt", "log") and len(vs) == 1:
            b = {"fabs": "abs"}.get(b, b)
            return [(t, fun(b, vs[0]))]
        if b.startswith("IpBlas"):
            return [s.blas(t, n, b[6:], vs)]
        if isinstance(o, tuple) and o[0] == "obj":
            q = n.get("f", "").rsplit("::", 1)[0]
            k = len(n["a"])
            f = (s.fns.get((s.cls, b, k)) if n.get("virt") else None) or s.fns.get((q, b, k)) or s.fns.get((s.cls, b, k)) or s.fns.get((s.base, b, k))
            if f:
                return s.call(t, f, o, vs, d + 1)
        if n.get("f", "").startswith("std::"):
            u = s.algo(t, b, vs)
            if u:
                return u
        fs = [f for f in s.m.targets(n) if f.body]
        if len(fs) == 1 and fs[0].file.startswith("src/LinAlg/"):
            return s.call(t, fs[0], o, vs, d + 1)
        s.err(n, "call of %s not understood" % n.get("f"))

    def algo(s, t, b, vs):
        """standard algorithms over all elements"""
        dim = atom("sym", "dim")
        if not vs or not (isinstance(vs[0], tuple) and vs[0][0] == "arr" and vs[0][2] == num(0)):
            return None
        if b in ("fill_n", "copy_n"):
            vs = [vs[0], ("arr", vs[0][1], vs[1])] + vs[2:]
            b = b[:-2]
        if len(vs) != 3 or not (isinstance(vs[1], tuple) and vs[1][:2] == vs[0][:2] and t.n(vs[1][2]) == t.n(dim)):
            return None
        e = t.arr.get(vs[0][1], GARBAGE)
        u = t.copy()
        if b == "fill" and isinstance(vs[2], P):
            u.arr[vs[0][1]] = vs[2]
            return [(u, None)]
        if b == "copy" and isinstance(vs[2], tuple) and vs[2][0] == "arr" and vs[2][2] == num(0):
            u.arr[vs[2][1]] = e
            return [(u, vs[2])]
        if b == "accumulate" and isinstance(vs[2], P):
            return [(u, vs[2] + total(e))]
        return None

    def get(s, t, v, inc):
        if isinstance(v, tuple) and v[0] == "arr":
            if v[2] != num(0):
                return atom("part", t.arr.get(v[1], GARBAGE), v[2]) if inc == num(1) else atom("element", t.arr.get(v[1], GARBAGE), v[2])
            e = t.arr.get(v[1], GARBAGE)
            return e if inc == num(1) else atom("first", e)
        if isinstance(v, tuple) and v[0] == "ptr":
            x = s.load(t, v[1], {})
            return x if inc == num(0) else atom("unknown", "read beyond a number")
        return atom("unknown", "array")

    def blas(s, t, n, b, a):
        dim = atom("sym", "dim")
        if t.n(a[0]) not in {t.n(x) for x in s.dims}:
            a = [a[0]] + a[1:]
            part = True
        else:
            part = any(isinstance(v, tuple) and v[0] == "arr" and v[1] in s.adim and t.n(s.adim[v[1]]) != t.n(a[0]) for v in a)
        bad = atom("unknown", "number of elements", n["l"])

        def put(v, inc, x):
            u = t.copy()
            if isinstance(v, tuple) and v[0] == "arr" and inc == num(1) and v[2] == num(0):
                u.arr[v[1]] = bad if part else x
                return u
            if isinstance(v, tuple) and v[0] == "arr" and inc == num(1):
                u.arr[(v[1], "part", v[2], a[0])] = x
                return u
            s.err(n, "array written not understood")
        if b == "Copy":
            return put(a[3], a[4], s.get(t, a[1], a[2])), None
        if b == "Axpy":
            x = s.get(t, a[4], a[5]) + a[1] * s.get(t, a[2], a[3])
            if any(y == atom("idx") for y in t.env.values() if isinstance(y, P)):
                x = atom("repeated", x)
            return put(a[4], a[5], x), None
        if b == "Scal":
            x = a[1] * s.get(t, a[2], a[3])
            if any(y == atom("idx") for y in t.env.values() if isinstance(y, P)):
                x = atom("repeated", x)
            return put(a[2], a[3], x), None
        if part:
            return t, bad
        if b == "Dot":
            return t, total(s.get(t, a[1], a[2]) * s.get(t, a[3], a[4]))
        if b == "Nrm2":
            x = s.get(t, a[1], a[2])
            return t, fun("sqrt", total(x * x))
        if b == "Asum":
            return t, total(fun("abs", s.get(t, a[1], a[2])))
        if b == "Iamax":
            return t, atom("iamax", fun("abs", s.get(t, a[1], a[2])))
        s.err(n, "BLAS %s not understood" % b)


def settle(st, x):
    """a term simplified with the signs that are known"""
    m = {}
    for a in x.atoms():
        if a[0] in ("max", "min"):
            f = 1 if a[0] == "max" else -1
            ps = sorted((settle(st, p) for p in a[1]), key=repr)
            for p in list(ps):
                if any(q != p and {y * f for y in st.sign(q - p)[0]} <= {0, 1} for q in ps):
                    ps.remove(p)
            m[a] = mx(a[0], *ps)
        elif a[0] == "abs":
            sg = st.sign(a[1])[0]
            if sg <= {0, 1}:
                m[a] = a[1]
            elif sg <= {-1, 0}:
                m[a] = -a[1]
    return subst(x, m) if m else x


def reduced(st, d):
    """products whose value is known are replaced by it"""
    for z, sg in st.sg.items():
        if sg != {0} or not 1 <= len(z.d) <= 2:
            continue
        ms = [k for k in z.d if k]
        if len(ms) != 1:
            continue
        val = -z.d.get(frozenset(), 0) / z.d[ms[0]]
        out = num(0)
        for k, v in d.d.items():
            e = dict(k)
            if all(e.get(a, 0) >= n > 0 or e.get(a, 0) <= n < 0 for a, n in ms[0]):
                for a, n in ms[0]:
                    e[a] -= n
                out = out + P({frozenset((a, n) for a, n in e.items() if n): v * val})
            else:
                out = out + P({k: v})
        d = out
    return d


def agree(st, a, b):
    """whether two terms are known to agree"""
    if a == b:
        return True
    if not isinstance(a, P) or not isinstance(b, P):
        return False
    d = reduced(st, settle(st, a) - settle(st, b))
    return not d.d or st.sign(d)[0] == {0}


def has(b, a):
    return b == a or any(has(x, a) for x in inner(b))


def extreme(kind, init, parts, first):
    """extremum of init and of the parts over all elements"""
    keep = []
    init = num(init)
    ini = {init}
    a = single(init)
    if a[0] == kind and init == atom(*a):
        ini = set(a[1])
    vals = {v for c, v in parts}
    for i in list(ini):
        b = single(i)
        if b[0] == "first" and i == atom(*b) and b[1] in vals:
            ini.discard(i)
            first = 0
    if first:
        return atom("unknown", "the first element is left out")
    res = []
    for c, v in parts:
        res.append(atom("over", kind, c, v) if any(isel(x) for x in v.atoms()) or c else v)
    return mx(kind, *(list(ini) + res))

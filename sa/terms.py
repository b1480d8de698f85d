"""Value terms of vectors, matrices and numbers: what a function computes, as a
normalised expression over its inputs.  Objects made by MakeNew/MakeNewCopy are
tracked through the linear-algebra operations applied to them; sums of vectors
are kept as linear combinations (order of operations does not matter).  Cached
results are not followed: the value stored at a miss is what counts."""
import re
from .guards import Guard, short
from .engine import subs

ZERO = ('c', 0)


def num(v):
    return v[0] == 'c' and not isinstance(v[1], str)


def mul(a, b):
    if num(a) and num(b):
        return ('c', a[1] * b[1])
    if a == ('c', 1):
        return b
    if b == ('c', 1):
        return a
    if num(b):
        a, b = b, a
    return ('e', 'prod') + tuple(sorted(factors(a) + factors(b), key=repr)) if not (num(a) and a[1] == 0) else ZERO


def factors(a):
    if a[0] == 'e' and a[1] == 'prod':
        return [f for x in a[2:] for f in factors(x)]
    if a[0] == 'e' and a[1] == '*':
        return factors(a[2]) + factors(a[3])
    if a[0] == 'e' and a[1] == 'neg':
        return [('c', -1)] + factors(a[2])
    if a[0] == 'e' and a[1] == 'lin' and len(a) == 3:
        return factors(a[2][2]) + factors(a[2][3])
    return [a]


ONE = ('c', 1)


def scalar(x, y):
    """product of numbers, sums multiplied out"""
    ts = lambda v: [(t[2], t[3]) for t in v[2:]] if v[0] == 'e' and v[1] == 'lin' else [(ONE, v)]
    out = []
    for c1, a1 in ts(x):
        for c2, a2 in ts(y):
            k, fs = prod([c1, c2, a1, a2])
            out.append((('c', k), ONE if not fs else fs[0] if len(fs) == 1 else ('e', 'prod') + fs))
    return lin(out)


def prod(fs):
    c, out = 1, []
    for f in fs:
        for x in factors(f):
            if num(x):
                c *= x[1]
            else:
                out.append(x)
    return c, tuple(sorted(out, key=repr))


def lin(pairs):
    """[(coefficient value, atom)] -> canonical term"""
    acc = {}
    for c, a in pairs:
        k, syms = prod([c])
        if num(a) and a != ONE:
            k, a = k * a[1], ONE
        if a[0] == 'e' and a[1] == 'lin':
            for t in a[2:]:
                k2, s2 = prod([c, t[2]])
                acc[(s2, t[3])] = acc.get((s2, t[3]), 0) + k2
        elif k != 0:
            acc[(syms, a)] = acc.get((syms, a), 0) + k
    items = [(k, s, a) for (s, a), k in acc.items() if k != 0]
    if len(items) == 1 and items[0][0] == 1 and not items[0][1]:
        return items[0][2]
    if len(items) == 1 and not items[0][1] and items[0][2] == ONE:
        return ('c', items[0][0])
    out = []
    for k, s, a in items:
        c = ('c', k) if not s else ('e', 'prod') + ((('c', k),) if k != 1 else ()) + s if (k != 1 or len(s) != 1) else s[0]
        out.append(('e', 'term', c, a))
    return ('e', 'lin') + tuple(sorted(out, key=repr))


def terms_of(v):
    return [(t[2], t[3]) for t in v[2:]] if v[0] == 'e' and v[1] == 'lin' else [(ONE, v)]


def vprod(a, b):
    """element-wise product, bilinear"""
    return lin([(('e', 'prod', c1, c2), ONES if x == y == ONES else y if x == ONES else x if y == ONES else
                 ('e', 'vprod') + tuple(sorted(vf(x) + vf(y), key=repr)))
                for c1, x in terms_of(a) for c2, y in terms_of(b)])


def vquot(a, b):
    """element-wise quotient, linear in the numerator"""
    return lin([(c, ('e', 'vquot', x, b)) for c, x in terms_of(a)])


def mat(how, A, v):
    """matrix-vector product, linear in the vector"""
    return lin([(c, ('e', 'mat', ('c', how), A, x)) for c, x in terms_of(v)])


ONES = ('e', 'ones')

# vector operations
OPS = {
    "Copy": lambda o, a: a[0],
    "Set": lambda o, a: lin([(a[0], ONES)]),
    "Scal": lambda o, a: lin([(a[0], o)]),
    "Axpy": lambda o, a: lin([(ONE, o), (a[0], a[1])]),
    "AddScalar": lambda o, a: lin([(ONE, o), (a[0], ONES)]),
    "AddOneVector": lambda o, a: lin([(a[2], o), (a[0], a[1])]),
    "AddTwoVectors": lambda o, a: lin([(a[4], o), (a[0], a[1]), (a[2], a[3])]),
    "AddVectorQuotient": lambda o, a: lin([(a[3], o), (a[0], vquot(a[1], a[2]))]),
    "ElementWiseMultiply": lambda o, a: vprod(o, a[0]),
    "ElementWiseDivide": lambda o, a: vquot(o, a[0]),
}
FRESH = re.compile(r"(Ipopt::)?SmartPtr<(Ipopt::)?(Vector|Matrix|SymMatrix)>$")

# which argument of a matrix product is written
MATV = {"MultVector": False, "TransMultVector": True}


def vf(a):
    return list(a[2:]) if a[0] == 'e' and a[1] == 'vprod' else [a]


class Terms(Guard):
    max_depth = 6

    def __init__(s, m, inline=None, record=None, opaque=None):
        Guard.__init__(s, m, inline=inline)
        s.record = record or (lambda *a: None)
        s.opaque = opaque or (lambda n: False)
        s.k = 0

    def merge_key(s, eng, st):
        return None

    # ------------------------------------------------------------ objects
    def mem(s, st):
        return dict(st.prop)

    def put(s, st, o, t):
        d = dict(st.prop)
        d[o] = t
        return st.withprop(frozenset(d.items()))

    def fresh(s, eng, n):
        s.k += 1
        return ('s', ((eng.nid(n),), s.k), 'obj')

    def term(s, eng, st, v):
        """value with objects replaced by what they hold"""
        d = dict(st.prop)

        def go(v, depth=0):
            if depth > 60:
                return ('s', ('deep',), '')
            if v in d:
                t = go(d[v], depth + 1)
                ats = []
                for ix in sorted(d.get(('comps', v), ())):
                    c = d[('s', ('comp', v) + ix, 'obj')]
                    init = s.initcomp(d[v], ix)
                    if c != init or ('comps', ('s', ('comp', v) + ix, 'obj')) in d:
                        w = go(('s', ('comp', v) + ix, 'obj'), depth + 1)
                        if w != go(init, depth + 1) and not (t == ('e', 'undef') and w == t):
                            ats.append(('e', 'at') + tuple(('c', i) for i in ix) + (w,))
                if len(ats) == 8 and all(len(x) == 4 for x in ats):
                    t = ('e', 'undef')      # all parts of an iterate given
                return ('e', 'with', t) + tuple(ats) if ats else t
            if v[0] == '&':
                xs = {k[2][1]: w for k, w in list(st.env.items()) if k[0] == 'x' and k[1] == v and k[2][0] == 'c'}
                if xs:                  # a list of things
                    return ('e', 'list') + tuple(go(eng.norm(st, xs[i]), depth + 1) for i in sorted(xs))
                fs = sorted((k[2], w) for k, w in list(st.env.items()) if k[0] == 'f' and k[1] == v)
                if fs:
                    return ('e', 'record') + tuple(go(eng.norm(st, w), depth + 1) for _, w in fs)
                w = eng.read(st, v[1])
                w = eng.norm(st, w)
                if w == v:
                    return v
                return go(w, depth + 1)
            if v[0] == 'e':
                r = ('e', v[1]) + tuple(go(x, depth + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v[2:])
                if r[1] == 'term':
                    return r
                if r[1] == 'lin':
                    return lin([(t[2], t[3]) for t in r[2:]])
                return s.arith(r)
            return v
        return go(eng.norm(st, v))

    @staticmethod
    def arith(r):
        """sums and products of numbers"""
        op = r[1]
        if op == '+' and len(r) == 4:
            return lin([(('c', 1), r[2]), (('c', 1), r[3])])
        if op == '-' and len(r) == 4:
            return lin([(('c', 1), r[2]), (('c', -1), r[3])])
        if op == 'neg' and len(r) == 3:
            return lin([(('c', -1), r[2])])
        if op == '*' and len(r) == 4:
            return scalar(r[2], r[3])
        if op == 'pure' and r[2][1] in ("Max", "Min") and len(r) == 5 and "::" not in r[2][1]:
            parts = set()
            for x in r[3:]:
                parts |= set(x[3:]) if x[0] == 'e' and x[1] == 'pure' and x[2] == r[2] and len(x) > 4 else {x}
            if len(parts) == 1:
                return next(iter(parts))
            return r[:3] + tuple(sorted(parts, key=repr))
        return r

    # ------------------------------------------------------------ compound objects
    @staticmethod
    def initcomp(base, ix):
        return ('e', 'pure', ('c', 'GetComp'), base) + tuple(('c', i) for i in ix)

    def comp(s, eng, st, n, b, o, args):
        """component access on a tracked compound vector or matrix"""
        d = dict(st.prop)
        if n.get("f", "").startswith("Ipopt::IteratesVector::"):
            return s.part(eng, st, n, b, o, args)
        if b in ("GetComp", "GetCompNonConst", "GetTerm", "GetVector", "GetVectorNonConst"):
            ix, rest = args, []
        elif b in ("SetComp", "SetCompNonConst", "SetVector", "SetVectorNonConst"):
            ix, rest = args[:-1], args[-1:]
        elif b in ("SetTerm", "SetTermNonConst"):
            ix, rest = args[:1], args[1:]
        else:
            return None
        ix = [eng.norm(st, x) for x in ix]
        if not ix or any(x[0] != 'c' or not isinstance(x[1], (int, float)) for x in ix):
            return None
        ix = tuple(int(x[1]) for x in ix)
        k = d.get(('comps', o), ())
        y = ('s', ('comp', o) + ix, 'obj')
        if not rest:
            if ix not in k and "NonConst" not in b:
                return None
            if ix not in k:
                st = s.put(s.put(st, ('comps', o), k + (ix,)), y, s.initcomp(d[o], ix))
            return [(st, y)]
        t = [s.term(eng, st, x) for x in rest]
        t = t[0] if len(t) == 1 else ('e', 'times') + tuple(t)
        return [(s.put(s.put(st, ('comps', o), k if ix in k else k + (ix,)), y, t), ('void',))]

    PARTS = ("x", "s", "y_c", "y_d", "z_L", "z_U", "v_L", "v_U")
    GROUPS = {"Set_primal": (0, 1), "Set_eq_mult": (2, 3), "Set_bound_mult": (4, 5, 6, 7)}

    def part(s, eng, st, n, b, o, args):
        """named part of an iterate"""
        nc = b.endswith("_NonConst")
        stem = b[:-9] if nc else b
        if stem in s.GROUPS and len(args) == len(s.GROUPS[stem]):
            for i, a in zip(s.GROUPS[stem], args):
                st = s.setpart(st, o, i, s.term(eng, st, a))
            return [(st, ('void',))]
        if stem.startswith("Set_") and stem[4:] in s.PARTS and len(args) == 1:
            return [(s.setpart(st, o, s.PARTS.index(stem[4:]), s.term(eng, st, args[0])), ('void',))]
        d = dict(st.prop)
        if stem in s.PARTS and not args:
            i = s.PARTS.index(stem)
            if (i,) in d.get(('comps', o), ()):
                return [(st, ('s', ('comp', o, i), 'obj'))]
            if not nc:
                return None
            return [(s.setpart(st, o, i, ('e', 'pure', ('c', stem), d[o])), ('s', ('comp', o, i), 'obj'))]
        if stem.startswith("create_new_"):
            copy = stem.endswith("_copy")
            p = stem[11:-5] if copy else stem[11:]
            if p in s.PARTS:
                i = s.PARTS.index(p)
                t = ('e', 'undef')
                if copy:
                    y = ('s', ('comp', o, i), 'obj')
                    t = s.term(eng, st, y) if y in d else ('e', 'pure', ('c', p), d[o])
                return [(s.setpart(st, o, i, t), ('s', ('comp', o, i), 'obj'))]
        return None

    def setpart(s, st, o, i, t):
        k = dict(st.prop).get(('comps', o), ())
        if (i,) not in k:
            st = s.put(st, ('comps', o), k + ((i,),))
        return s.put(st, ('s', ('comp', o, i), 'obj'), t)

    # ------------------------------------------------------------ calls
    def own(s, f):
        """functions handing out a scratch vector of their class"""
        return f.name().startswith("Tmp")

    def aggregate(s, eng, st, a, v):
        """container passed by value: refer to the original"""
        while a["k"] in ("ctor", "cast"):
            a = a["a"][0] if a["k"] == "ctor" and a["a"] else a.get("e")
            if a is None:
                return v
        if a["k"] in ("ref", "mem"):
            for st2, lv in eng.lval(st, a):
                if lv is not None and any(k[0] in ("x", "f") and k[1] == ('&', lv) for k in st.env):
                    return ('&', lv)
        return v

    def on_call(s, eng, st, n, fns, obj, args):
        b = short(n)
        if n["k"] != "call":
            return Guard.on_call(s, eng, st, n, fns, obj, args)
        if b == "ProduceOutput":
            return [(st, ('c', 0))]
        if b.startswith(("GetCachedResult", "AddCachedResult", "InvalidateResult", "Clear")) and "CachedResults" in n.get("f", ""):
            return s.cache(eng, st, n, b, obj, args)
        T = lambda v: s.term(eng, st, v)
        if any(a["k"] == "ctor" and a.get("copy") for a in n["a"]):
            args = [s.aggregate(eng, st, a, v) for a, v in zip(n["a"], args)]
        if obj is not None and not args and fns and all(f.rt in ("Ipopt::Vector &", "Vector &") for f in fns) and s.own(fns[0]) and eng.norm(st, obj) == ('this',):
            x = ('s', ('scratch', b), 'obj')        # scratch vector of the class
            return [(st if x in dict(st.prop) else s.put(st, x, ('e', 'undef')), x)]
        if obj is not None and n.get("f", "").startswith("Ipopt::IteratesVector::"):
            o = s.ref(eng, st, obj)
            if o in dict(st.prop):
                r = s.part(eng, st, n, b, o, args)
                if r is not None:
                    return r
        if s.opaque(n) and not s.inl_now(fns):
            r = s.outargs(eng, st, n, fns, obj, args, b)
            if r is not None:
                return r
            v = ('e', 'pure', ('c', b)) + ((T(obj),) if obj is not None else ()) + tuple(T(x) for x in args)
            if FRESH.match(n.get("t", "")):
                x = s.fresh(eng, n)
                return [(s.put(st, x, v), x)]
            return [(st, v)]
        if obj is not None:
            o = s.ref(eng, st, obj)
            d = dict(st.prop)
            if b in ("MakeNew", "MakeNewCopy", "MakeNewIteratesVector", "MakeNewIteratesVectorCopy", "MakeNewContainer") or b.startswith("MakeNew") and b.endswith("Matrix"):
                x = s.fresh(eng, n)
                t = T(o) if "Copy" in b or b == "MakeNewContainer" else ('e', 'undef')
                return [(s.put(st, x, t), x)]
            if o in d:
                r = s.comp(eng, st, n, b, o, args)
                if r is not None:
                    return r
                if b in OPS and not n.get("cm"):
                    return [(s.put(st, o, OPS[b](d[o], [T(x) for x in args])), ('void',))]
            if b in MATV and len(args) == 4:
                y = s.ref(eng, st, args[3])
                old = d.get(y, T(y))
                p = mat("T" if MATV[b] else "N", T(o), T(args[1]))
                new = lin([(T(args[2]), old), (T(args[0]), p)])
                if y in d:
                    return [(s.put(st, y, new), ('void',))]
            if b == "AddMSinvZ" and len(args) == 4:
                y = s.ref(eng, st, args[3])
                if y in d:
                    p = mat('N', T(o), vquot(T(args[2]), T(args[1])))
                    return [(s.put(st, y, lin([(('c', 1), d[y]), (T(args[0]), p)])), ('void',))]
            if o in d and not n.get("cm") and n.get("f", "").startswith("Ipopt::") and "SmartPtr" not in n["f"] and not s.inl_now(fns):
                st = s.put(st, o, ('e', 'upd', ('c', b), d[o]) + tuple(T(x) for x in args))
                return [(st, ('void',) if n.get("t") == "void" else s.fresh(eng, n))]
        # objects handed to something that may change them
        if not s.inl_now(fns):
            r = s.outargs(eng, st, n, fns, obj, args, b)
            if r is not None:
                return r
            if obj is not None and (n.get("cm") or s.getter(n, b) or s.opaque(n)) and n.get("t") != "void":
                return [(st, ('e', 'pure', ('c', b), T(obj)) + tuple(T(x) for x in args))]
            if obj is None and n.get("t") != "void" and "o" not in n and b not in ("GetRawPtr", "ConstPtr"):
                return [(st, ('e', 'pure', ('c', b)) + tuple(T(x) for x in args))]
        return Guard.on_call(s, eng, st, n, fns, obj, args)

    def inl_now(s, fns):
        return bool(fns and s.inl and len(fns) == 1 and s.inl(fns[0]))

    def ref(s, eng, st, v):
        """object a value denotes"""
        for _ in range(4):
            if v[0] == '&':
                w = eng.norm(st, eng.read(st, v[1]))
                if w == v:
                    break
                v = w
        return eng.norm(st, v)

    def outargs(s, eng, st, n, fns, obj, args, b):
        pt = eng.ptypes(n, fns)
        d = dict(st.prop)
        hit = False
        ins = None
        for i, a in enumerate(args):
            t = pt[i] if i < len(pt) else ""
            if t.startswith("const ") or not t.endswith(("&", "*")):
                continue
            o = s.ref(eng, st, a)
            if o in d or (a[0] == '&' and ("Number" in t or "double" in t or "Index" in t or "SmartPtr" in t or t in ("int &", "bool &", "float &"))):
                if ins is None:
                    ins = tuple(s.term(eng, st, x) for x in ([obj] if obj is not None else []) + list(args))
                new = ('e', 'out', ('c', b), ('c', i)) + ins
                if o in d:
                    st = s.put(st, o, new)
                    if t.startswith("SmartPtr") or "SmartPtr<" in t:
                        pass
                else:
                    st = eng.write(st, a[1], new)
                hit = True
        if not hit:
            return None
        return [(st, ('void',) if n.get("t") == "void" else ('e', 'pure', ('c', b)) + ins)]

    # ------------------------------------------------------------ caches
    def deps(s, eng, st, v):
        """contents of a dependency list, or of a single dependency"""
        base = v
        out = {}
        for k, w in list(st.env.items()):
            if k[0] == 'x' and k[1] == base and k[2][0] == 'c':
                out[k[2][1]] = s.term(eng, st, w)
        return [out[i] for i in sorted(out)]

    def cache(s, eng, st, n, b, obj, args):
        c = obj[1][2] if obj is not None and obj[0] == '&' and obj[1][0] == 'f' else None
        if c is None:
            return None
        if b.startswith(("Invalidate", "Clear")):
            s.record(eng, st, "drop", c, None, [], [], n)
            return [(st, ('c', 1))]
        if "Dep" in b:
            dp = [s.term(eng, st, x) for x in args[1:]]
            sd = []
        else:
            dp = s.deps(eng, st, args[1])
            sd = s.deps(eng, st, args[2]) if len(args) > 2 else []
        if b.startswith("Get"):
            s.record(eng, st, "get", c, None, dp, sd, n)
            miss = (st.step("%s: not in %s" % (eng.loc(n), c.rsplit("::", 1)[-1])), ('c', 0))
            if args[0][0] != '&':
                return [miss]
            st2 = eng.write(st, args[0][1], ('e', 'hit', ('c', c)) + tuple(dp) + (('e', 'sdeps') + tuple(sd),))
            return [miss, (st2.step("%s: found in %s" % (eng.loc(n), c.rsplit("::", 1)[-1])), ('c', 1))]
        v = s.term(eng, st, args[0])
        s.record(eng, st, "add", c, v, dp, sd, n)
        return [(s.put(st, ('added', c), v), ('void',))]


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)

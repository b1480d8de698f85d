"""Definitions of quantities, compared with the terms the code computes.

A definition is written with the small algebra below; definition and code are
both brought to one normal form (receivers dropped, sums and products sorted,
products multiplied out), so only what is computed counts, not how."""
from .terms import lin, scalar, vprod, vquot, mat, Terms, ONE, ONES

RECEIVERS = ("ip_data_", "ip_nlp_", "ip_cq_", "orig_ip_nlp_")


def raw(x):
    if isinstance(x, E):
        return x.t
    if isinstance(x, (int, float)):
        return ('c', x)
    return x


class E:
    """expression; + - on anything, * and / on numbers"""

    def __init__(s, t):
        s.t = t

    def __add__(s, o):
        return E(lin([(ONE, s.t), (ONE, raw(o))]))
    __radd__ = __add__

    def __sub__(s, o):
        return E(lin([(ONE, s.t), (('c', -1), raw(o))]))

    def __rsub__(s, o):
        return E(lin([(ONE, raw(o)), (('c', -1), s.t)]))

    def __neg__(s):
        return E(lin([(('c', -1), s.t)]))

    def __mul__(s, o):
        return E(scalar(s.t, raw(o)))
    __rmul__ = __mul__

    def __truediv__(s, o):
        return E(('e', '/', s.t, raw(o)))

    def __rtruediv__(s, o):
        return E(('e', '/', raw(o), s.t))


def fn(name, *a):
    return E(('e', 'pure', ('c', name)) + tuple(raw(x) for x in a))


def par(name):
    return E(('r', ('p', name)))


def mem(name):
    return E(('r', ('f', ('this',), name)))


def sv(a, v):
    """number times vector"""
    return E(lin([(raw(a), raw(v))]))


def N(A, v):
    return E(mat('N', raw(A), raw(v)))


def T(A, v):
    return E(mat('T', raw(A), raw(v)))


def vp(a, b):
    return E(vprod(raw(a), raw(b)))


def vq(a, b):
    return E(vquot(raw(a), raw(b)))


def op(name, *a):
    return E(('e', name) + tuple(raw(x) for x in a))


def upd(name, *a):
    return E(('e', 'upd', ('c', name)) + tuple(raw(x) for x in a))


def rec(*a):
    return E(('e', 'record') + tuple(raw(x) for x in a))


def seq(*a):
    return E(('e', 'list') + tuple(raw(x) for x in a))


def out(name, i, *a):
    return E(('e', 'out', ('c', name), ('c', i)) + tuple(raw(x) for x in a))


ones = E(ONES)
zero = E(('c', 0))
undef = E(('e', 'undef'))
anything = E(('any',))


def smax(*a):
    return fn("Max", *a)


def smin(*a):
    return fn("Min", *a)


def receiver(x):
    return x[0] == 'sym' and (x[1] == 'this' or x[1] in RECEIVERS) or x in (('fn', 'IpData'), ('fn', 'IpCq'), ('fn', 'IpNLP')) or x[:2] == ('op', 'dyn') and receiver(x[-1])


COMM = ("vprod",)


def canon(t):
    """normal form"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'c':
        v = t[1]
        return ('n', float(v)) if isinstance(v, (int, float)) else ('n', v)
    if t[0] == 'any':
        return t
    if t[0] == 'this':
        return ('sym', 'this')
    if t[0] == 'r' and t[1][0] == 'f':
        n = t[1][2].rsplit("::", 1)[-1]
        if t[1][1] == ('this',):
            return ('sym', n)
        return ('sub', canon(t[1][1]), n)
    if t[0] == 'r' and t[1][0] == 'p':
        return ('par', t[1][1])
    if t[0] == 'r' and t[1][0] in ('d', 'e'):
        return canon(t[1])
    if t[0] == 'r':
        return ('r',) + tuple(canon(x) if isinstance(x, tuple) else x for x in t[1:])
    if t[0] == '&':
        if t[1][0] == 'p':
            return ('par', t[1][1])
        return ('at', canon(t[1]))
    if t[0] in ('p',):
        return ('par', t[1])
    if t[0] == 'f':
        return canon(('r', t))
    if t[0] == 'd':
        return canon(t[1])
    if t[0] != 'e':
        return t
    o = t[1]
    if o == 'lin':
        return clin(t[2:])
    if o in ('*', 'prod', '+', '-', 'neg'):
        if o == 'prod':
            v = t[2]
            for x in t[3:]:
                v = scalar(v, x)
            if v[:2] == ('e', 'prod'):
                return clin([('e', 'term', v, ONE)])
            return canon(v)
        v = Terms.arith(t)
        if v == t:
            return ('op', o) + tuple(canon(x) for x in t[2:])
        return canon(v) if v[:2] != ('e', 'prod') else clin([('e', 'term', v, ONE)])
    if o == 'pure':
        name = t[2][1]
        a = [canon(x) for x in t[3:]]
        a = [x for x in a if not receiver(x)]
        if name == "CalcNormOfType":        # a norm of several vectors: order does not matter
            v = []
            for x in a[1:]:
                v += list(x[2:]) if x[:2] == ('op', 'list') else [x]
            return ('fn', name, a[0]) + tuple(sorted(v, key=repr))
        if name in ("Max", "Min") and len(a) > 1:
            parts = set()
            for x in a:
                parts |= set(x[2:]) if x[:2] == ('fn', name) and len(x) > 3 else {x}
            return ('fn', name) + tuple(sorted(parts, key=repr)) if len(parts) > 1 else next(iter(parts))
        return ('fn', name) + tuple(a)
    if o in ('out', 'upd'):
        a = [canon(x) for x in t[2:]]
        return (o,) + tuple(x for x in a if not receiver(x))
    if o in COMM:
        return ('op', o) + tuple(sorted((canon(x) for x in t[2:]), key=repr))
    return ('op', o) + tuple(canon(x) if isinstance(x, tuple) else x for x in t[2:])


def clin(terms):
    """sum: {(symbols, atom): number}"""
    acc = {}
    for x in terms:
        c, a = x[2], x[3]
        k, syms = coef(c)
        a = canon(a)
        if a[0] == 'n' and not isinstance(a[1], str):
            k, a = k * a[1], ('n', 1.0)
        if a[0] == 'sum':
            for (s2, a2), k2 in a[1]:
                key = (tuple(sorted(syms + s2, key=repr)), a2)
                acc[key] = acc.get(key, 0.0) + k * k2
            continue
        key = (tuple(sorted(syms, key=repr)), a)
        acc[key] = acc.get(key, 0.0) + k
    acc = {k: v for k, v in acc.items() if v != 0}
    # a lone symbol is a sum of it times one
    fixed = {}
    for (s, a), k in acc.items():
        if a != ('n', 1.0) and not s:
            pass
        fixed[(s, a)] = k
    if len(fixed) == 1:
        (s, a), k = next(iter(fixed.items()))
        if k == 1 and not s:
            return a
        if k == 1 and len(s) == 1 and a == ('n', 1.0):
            return s[0]
        if not s and a == ('n', 1.0):
            return ('n', k)
    if not fixed:
        return ('n', 0.0)
    norm = {}
    for (s, a), k in fixed.items():
        if a != ('n', 1.0) and isnum(a):
            s, a = tuple(sorted(s + (a,), key=repr)), ('n', 1.0)
        norm[(s, a)] = norm.get((s, a), 0.0) + k
    return ('sum', tuple(sorted(norm.items(), key=repr)))


NUMERIC = ("Dot", "Asum", "Nrm2", "Amax", "SumLogs", "Sum", "Max", "Min", "abs", "sqrt", "pow", "Dim", "epsilon", "min", "max", "curr_mu")


def isnum(a):
    """known to be a number, not a vector"""
    return a[0] == 'fn' and a[1] in NUMERIC or a[0] == 'op' and a[1] == '/'


def coef(c):
    from .terms import prod
    k, syms = prod([c])
    out = []
    for x in syms:
        y = canon(x)
        if y[0] == 'n':
            k *= y[1]
        elif y[0] == 'sum' and len(y[1]) == 1 and y[1][0][0][1] == ('n', 1.0):
            (s2, _), k2 = y[1][0]
            k *= k2
            out += list(s2)
        else:
            out.append(y)
    return float(k), tuple(out)


def matches(a, b):
    """b may contain wildcards"""
    if b == ('any',):
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        if a == b:
            return True
        return all(matches(x, y) for x, y in zip(a, b))
    return a == b


def text(t):
    if t[0] == 'n':
        return "%g" % t[1] if not isinstance(t[1], str) else t[1]
    if t[0] == 'sym':
        return t[1]
    if t[0] == 'par':
        return "$" + t[1]
    if t[0] == 'sum':
        out = []
        for (s, a), k in t[1]:
            fs = ([] if k in (1, -1) and (s or a != ('n', 1.0)) else ["%g" % abs(k)]) + [text(x) for x in s] + ([text(a)] if a != ('n', 1.0) else [])
            out.append(("-" if k < 0 else "+") + "*".join(fs))
        return "(" + " ".join(out).lstrip("+") + ")"
    if t[0] == 'fn':
        return t[1] + ("(" + ",".join(text(x) for x in t[2:]) + ")" if len(t) > 2 else "")
    if t[0] == 'op' and t[1] == 'mat':
        return text(t[3]) + ("^T" if t[2] == ('n', 'T') else "") + "*" + text(t[4])
    if t[0] == 'op' and t[1] == 'vquot':
        return text(t[2]) + "./" + text(t[3])
    if t[0] == 'op' and t[1] == 'vprod':
        return ".*".join(text(x) for x in t[2:])
    if t[0] in ('op', 'out', 'upd'):
        return str(t[1] if t[0] == 'op' else text(t[1])) + "<" + ",".join(text(x) if isinstance(x, tuple) else str(x) for x in t[2:]) + ">"
    if t[0] == 'any':
        return "..."
    return "?"


def cfacts(fs):
    return {(o, canon(a), canon(b)) for o, a, b in fs}


def without(t, zeros):
    """drop what is known to be zero from sums"""
    if not zeros or not isinstance(t, tuple) or not t:
        return t
    if t in zeros:
        return ('n', 0.0)
    if t[0] == 'sum':
        keep = tuple(((tuple(without(x, zeros) for x in s), without(a, zeros)), k) for (s, a), k in t[1] if a not in zeros and not any(x in zeros for x in s))
        if not keep:
            return ('n', 0.0)
        if len(keep) == 1:
            (s, a), k = keep[0]
            if k == 1 and not s:
                return a
        return ('sum', keep)
    return tuple(without(x, zeros) if isinstance(x, tuple) else x for x in t)


def expand(t, defs, depth=0):
    """raw term with the names of defined quantities replaced by their definitions"""
    if not isinstance(t, tuple) or not t or depth > 40:
        return t
    if t[:2] == ('e', 'pure') and t[2][1] in defs:
        names, body = defs[t[2][1]]
        a = [expand(x, defs, depth + 1) for x in t[3:]]
        a = [x for x in a if not receiver(canon(x))]
        if len(a) == len(names):
            return expand(bindp(body, dict(zip(names, a))), defs, depth + 1)
    if t[:2] == ('e', 'lin'):
        return lin([(expand(x[2], defs, depth + 1), expand(x[3], defs, depth + 1)) for x in t[2:]])
    return tuple(expand(x, defs, depth + 1) if isinstance(x, tuple) else x for x in t)


def bindp(t, m):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'r' and t[1][0] == 'p' and t[1][1] in m:
        return m[t[1][1]]
    return tuple(bindp(x, m) if isinstance(x, tuple) else x for x in t)


def flatmm(t, k):
    if isinstance(t, tuple) and t[:2] == ('fn', k):
        return [y for x in t[2:] for y in flatmm(x, k)]
    return [t]


def matches_under(t, w, cf):
    """t equals w where minima and maxima may have been resolved by comparisons that hold on the path"""
    if matches(t, w):
        return True
    if not (isinstance(w, tuple) and w[:1] == ('fn',) and w[1] in ("Min", "Max")):
        return False
    k = w[1]
    def le(a, b):
        todo, seen = [a], set()
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            for o, p, q in cf:
                if o in ('<', '<=', '==') and p == x:
                    todo.append(q)
                if o in ('>', '>=', '==') and q == x:
                    todo.append(p)
        return False
    want = flatmm(w, k)
    got = flatmm(t, k)
    used = []
    for x in want:
        hit = [g for g in got if matches_under(g, x, cf)]
        if hit:
            used += hit
    if any(g not in used for g in got):
        return False
    for x in want:
        if any(matches_under(g, x, cf) for g in got):
            continue
        # dropped: something kept is known to be at least as extreme; its value may be resolved itself
        xs = [x] + [y for o, a, b in cf for y in (a, b) if matches_under(y, x, cf)]
        whole = [t] + got
        if not any((le(y, g) if k == "Max" else le(g, y)) for y in xs for g in whole):
            return False
    return True

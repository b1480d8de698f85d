"""C04 cached results are what would be recomputed now.
R1 everything a cached value was computed from (and every mutable thing the
   choice of the value depended on) is among the dependencies it is filed under
R2 lookups and stores of one function use the same dependencies, and a function
   returns the value it looked up or computed
R3 caches that are looked up for one another hold the same quantity (as a
   function of the dependencies)"""
from checks import c04_core, c04_tags
from sa.quant import Quant, show
from sa.terms import subterms, ONE
from sa.guards import options, is_opt
from sa.db import AnalysisError

DIMS = ("Dim", "NCols", "NRows", "NComps", "size")
COMPS = ("x", "s", "y_c", "y_d", "z_L", "z_U", "v_L", "v_U")
CQ = "Ipopt::IpoptCalculatedQuantities"


class Deps:
    def __init__(s, m, q):
        s.m, s.q = m, q
        s.memo = {}
        s.mutable = s.mutables()

    def mutables(s):
        """members assigned outside constructors and initialisation"""
        out = set()
        for f in s.m.fns.values():
            if f.body is None or f.kind in ("ctor", "dtor") or f.name() in ("InitializeImpl", "Initialize", "InitializeStructures"):
                continue
            for n in f.nodes():
                t = None
                if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                    t = n["a"]
                elif n["k"] == "un" and n["op"] in ("++", "--"):
                    t = n["e"]
                elif n["k"] == "call" and n.get("f", "").endswith("::operator=") and n.get("o") is not None:
                    t = n["o"]
                while t is not None and t["k"] in ("cast", "sub"):
                    t = t.get("e") if t["k"] == "cast" else t["a"]
                if t is not None and t["k"] == "mem":
                    out.add(t["n"])
        return out

    def closure(s, g, args):
        """atoms a cached quantity stands for"""
        if g.u not in s.memo:
            s.memo[g.u] = set()
            acc = set()
            for r in s.q.recs[g.u]:
                if r.kind == "add":
                    these = set().union(set(), *[s.atoms(d, g) for d in r.deps + r.sdeps])
                    if any(is_call(a, "objective_depends_on_mu") and op == '==' for op, a, b in r.facts):
                        these.add(CMU)
                    acc |= these
            if CMU in acc:
                acc.discard(MU)
            s.memo[g.u] = acc
        names = [p["n"] for p in g.p]
        out = set()
        for a in s.memo[g.u]:
            if a[0] == 'param':
                i = names.index(a[1]) if a[1] in names else -1
                out |= args[i] if 0 <= i < len(args) else {a}
            else:
                out.add(a)
        return out

    def atoms(s, t, f):
        A = lambda x: s.atoms(x, f)
        k = t[0]
        if k == 'c':
            return set()
        if k == 'this':
            return {('this',)} if f.c == "Ipopt::Vector" else set()
        if k == 'r' and t[1][0] == 'f':
            n = t[1][2]
            if n in s.mutable and t[1][1] == ('this',) and "SmartPtr" not in n:
                return {('field', n)}
            return set()
        if k == 'r' and t[1][0] == 'p':
            return {('param', t[1][1])}
        if k == 'e' and t[1] == 'pure':
            name, rest = t[2][1], t[3:]
            if name in DIMS:
                return set()
            if rest and rest[0][0] != 'c':
                o, args = rest[0], rest[1:]
                g = None
                if o == ('this',):
                    g = s.q.by.get((f.c, name))
                elif root(o) == "ip_cq_":
                    g = s.q.by.get((CQ, name))
                if g is not None and g.u in s.q.recs:
                    return s.closure(g, [A(x) for x in args])
                if not args:
                    if o[0] == 'e' and o[1] == 'pure' and o[2][1] in COMPS and root(o) == "ip_data_":
                        return {('data', show(o))}
                    r = root(t)
                    if r == "ip_data_":
                        return {('data', show(t))}
                    if r in ("ip_nlp_", "nlp_", "orig_ip_nlp_"):
                        return set()
                    if o == ('this',):
                        return set() if name == "NLP_scaling" or is_const(s.m, f, name) else {('call', name)}
            return set().union(set(), *[A(x) for x in rest])
        if k == 'e':
            return set().union(set(), *[A(x) for x in t[2:] if isinstance(x, tuple) and x and isinstance(x[0], str)])
        if k == '&':
            return set()
        if k == 'r' and t[1][0] == 'd':
            return A(t[1][1])
        return {('unknown', repr(t)[:60])}


def is_const(m, f, name):
    return True


def root(t):
    while t[0] == 'e' and t[1] == 'pure' and len(t) > 3:
        t = t[3]
    if t[0] == 'r' and t[1][0] == 'f':
        return t[1][2].rsplit("::", 1)[-1]
    return None


CONSTANT = {"grad_f": ("grad_f_constant",), "jac_c": ("jac_c_constant",), "jac_d": ("jac_d_constant",), "h": ("hessian_constant",)}
SLACK = ("curr_slack_", "trial_slack_")
MU = ('data', 'curr_mu(ip_data_)')
CMU = ('cond', 'curr_mu')


def subst(t, facts):
    """the term as far as it is determined by the facts of this path"""
    for op, a, b in facts:
        if op == '==' and a == t and b[0] == 'c':
            return b
    return t


def excused(d, f, r, need):
    """needs that are no dependencies"""
    out = set()
    nomu = any(op == '==' and b == ('c', 0) and is_call(a, "objective_depends_on_mu") for op, a, b in r.facts)
    if f.c == "Ipopt::IpoptCalculatedQuantities" and f.name().startswith(SLACK):
        # the correction of too small slacks is part of the iterate: it is made once, with the multipliers and mu of that moment
        out |= {a for a in need if a == MU or a[0] == 'data' and a[1].split("(")[0] in ("z_L", "z_U", "v_L", "v_U")}
    if nomu or f.c == "Ipopt::CGPenaltyCq":     # (the latter never runs on the restoration problem)
        out.add(CMU)
    if f.c == "Ipopt::OrigIpoptNLP":
        # the user promised that the derivative does not depend on anything
        opts = CONSTANT.get(f.name(), ())
        if any(op == '!=' and b == ('c', 0) and any(is_opt(d.m, a, o) for o in opts) for op, a, b in r.facts):
            out |= {a for a in need if a[0] == 'param'}
    return out


def is_call(t, name):
    return t[0] == 'e' and t[1] == 'pure' and t[2][1] == name


def r1(m, q, d, r):
    for f in q.fns:
        done = {}
        for rec in q.recs[f.u]:
            if rec.kind != "add" or rec.val[:2] == ('e', 'hit'):
                continue
            have = set().union(set(), *[d.atoms(x, f) for x in rec.deps + rec.sdeps])
            if MU in have:
                have.add(CMU)
            need = d.atoms(rec.val, f)
            fs = set()
            consts = {x for x in rec.deps + rec.sdeps if x[0] == 'c'}
            for op, a, b in rec.facts:
                if op == '==' and b[0] == 'c' and b in consts:
                    continue                # that dependency was replaced by its known value
                fs |= d.atoms(a, f) | d.atoms(b, f)
            miss = (need | fs) - have
            miss -= excused(d, f, rec, miss)
            key = (short_(f), rec.cache.rsplit("::", 1)[-1])
            w = done.setdefault(key, [set(), rec.loc])
            if miss:
                w[0] |= miss
                w[1] = rec.loc
        for (fn, c), (miss, loc) in sorted(done.items()):
            r.check(not miss, "R1", "%s/%s" % (fn, c), loc,
                    "the value filed in %s depends on %s, which is not among its dependencies" % (c, ", ".join(sorted(str(x[-1]) for x in miss))))


def short_(f):
    return f.f.split("Ipopt::", 1)[-1]


def r2(m, q, r):
    allrec = [x for f in q.fns for x in q.recs[f.u]]
    for f in q.fns:
        recs = q.recs[f.u]
        gets = [x for x in recs if x.kind == "get"]
        adds = [x for x in recs if x.kind == "add"]
        for g in gets:
            match = [a for a in adds if same(g, a)]
            elsewhere = [a for a in allrec if a.cache == g.cache and a.kind == "add"]
            r.check(match or not elsewhere or any(a.fn is not f and same(g, a) for a in elsewhere), "R2",
                    "%s/lookup %s" % (short_(f), g.cache.rsplit("::", 1)[-1]), g.loc,
                    "%s looks %s up with other dependencies (%s) than anything is filed under" % (f.f, g.cache.rsplit("::", 1)[-1], ", ".join(show(x) for x in g.deps + g.sdeps)))
        for a in adds:
            match = [g for g in gets if g.cache == a.cache and same(g, a)]
            r.check(match, "R2", "%s/store %s" % (short_(f), a.cache.rsplit("::", 1)[-1]), a.loc,
                    "%s files a value under other dependencies (%s) than it looks up" % (f.f, ", ".join(show(x) for x in a.deps + a.sdeps)))


def same(g, a):
    x, y = g.deps + g.sdeps, a.deps + a.sdeps
    if len(g.deps) != len(a.deps) or len(x) != len(y):
        return False
    return all(subst(u, a.facts) == subst(v, a.facts) for u, v in zip(x, y))


def r2b(m, q, r):
    for f in q.fns:
        if not any(x.kind == "add" for x in q.recs[f.u]) or f.rt in ("void", "bool"):
            continue
        bad = None
        for v, fa, st in q.rets[f.u]:
            ad = [x for k, x in st.prop if k[0] == 'added']
            parts = [p for x in ad if x[:2] == ('e', 'record') for p in x[2:]]
            if ad and v not in ad and v not in parts:
                bad = (v, st)
        r.check(bad is None, "R2", "%s/result" % short_(f), "%s:%s" % (f.file, f.l),
                "%s files one value and returns another: %s" % (f.f, show(bad[0])[:200] if bad else ""), bad[1].path() if bad else [])


class Groups:
    """caches that are looked up for one another"""

    def __init__(s, q):
        s.p = {}
        for f in q.fns:
            cs = sorted({x.cache for x in q.recs[f.u] if x.kind in ("get", "add") and x.deps})
            gets = {}
            for x in q.recs[f.u]:
                if x.kind == "get":
                    gets.setdefault((x.deps, x.sdeps), set()).add(x.cache)
            for g in gets.values():
                for a in g:
                    s.join(min(g), a)

    def find(s, c):
        while s.p.get(c, c) != c:
            c = s.p[c]
        return c

    def join(s, a, b):
        s.p[s.find(b)] = s.find(a)


def canon(t):
    """the shared data objects by their own names, whoever holds them"""
    if t[0] == 'r' and root(t) in ("ip_data_", "ip_nlp_"):
        return ('r', ('f', ('this',), root(t)))
    if t[0] == 'e':
        return t[:2] + tuple(canon(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[2:])
    return t


def positions(q, G, rec, f):
    """the filed value as a function of the dependencies"""
    pos = {}
    for i, d in enumerate(rec.deps):
        if d[0] != 'c':
            pos.setdefault(canon(d), ('e', 'dep', ('c', i)))
    for i, d in enumerate(rec.sdeps):
        if d[0] != 'c':
            pos.setdefault(canon(d), ('e', 'sdep', ('c', i)))

    def go(t, depth=0):
        if t in pos:
            return pos[t]
        if t[0] != 'e' or depth > 20:
            return t
        if t[1] == 'pure' and len(t) > 3 and (t[3] == ('this',) or root(t[3]) == "ip_cq_"):
            g = q.by.get((f.c if t[3] == ('this',) else CQ, t[2][1]))
            if g is not None and g is not f and len(t) == 4 + len(g.p):
                ad = [x for x in q.recs[g.u] if x.kind in ("add", "get")]
                if ad:
                    par = {('r', ('p', p["n"])): a for p, a in zip(g.p, t[4:])}
                    best = max(ad, key=lambda x: (sum(d[0] != 'c' for d in x.deps + x.sdeps), repr(x.sdeps)))
                    return ('e', 'cached', ('c', G.find(best.cache).rsplit("::", 1)[-1])) + \
                        tuple(go(rep(canon(d), par), depth + 1) for d in best.deps + best.sdeps)
        xs = [go(x, depth) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[2:]]
        if t[1] == 'lin' or t[1] == 'vprod':
            xs.sort(key=repr)
        return t[:2] + tuple(xs)
    return go(canon(rec.val))


def rep(t, par):
    if t in par:
        return par[t]
    if t[0] == 'r' and t[1][0] == 'p':
        for k, v in par.items():
            if k[1][1] == t[1][1]:
                return v
    if t[0] == 'e':
        return t[:2] + tuple(rep(x, par) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[2:])
    return t


def r3(m, q, r):
    G = Groups(q)
    vals = {}
    for f in q.fns:
        for x in q.recs[f.u]:
            if x.kind == "add" and x.val[:2] != ('e', 'hit'):
                vals.setdefault(G.find(x.cache), {}).setdefault(x.cache, {}).setdefault(positions(q, G, x, f), x)
    for g, by in sorted(vals.items()):
        if len(by) < 2:
            continue
        every = set().union(*by.values())
        for c, v in sorted(by.items()):
            miss = every - set(v)
            x = next(iter(v.values()))
            r.check(not miss, "R3", c.rsplit("::", 1)[-1], x.loc,
                    "%s and a cache it is exchanged with hold different quantities: %s" % (c.rsplit("::", 1)[-1], "; ".join(show(t) for t in sorted(miss, key=repr))[:300]))


def run(m, r):
    r.rule("R5", "the result cache: results are found only under identical dependencies, never when stale, and every wrapper passes all dependencies on")
    r.rule("R4", "tags: \"unchanged\" is answered only if every input is the one remembered, all inputs are remembered together, and kept values belong to the tag they are kept with")
    r.rule("R3", "caches looked up for one another hold the same quantity, as a function of the dependencies")
    r.rule("R1", "everything a cached value (or the choice of its formula) depends on and that can change is among the dependencies it is filed under")
    r.rule("R2", "values are looked up and filed under the same dependencies")
    q = Quant(m)
    d = Deps(m, q)
    r1(m, q, d, r)
    r2(m, q, r)
    r2b(m, q, r)
    r3(m, q, r)
    ds = c04_tags.run(m, q, r)
    core = c04_core.run(m, r)
    r.analysed(q.fns + ds + core)
    for rule, n in (("R1", 50), ("R2", 300), ("R3", 25), ("R4", 70), ("R5", 10)):
        r.floor(rule, n, "instances")

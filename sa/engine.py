"""Path-sensitive property simulation (ESP-style dataflow).

A structured abstract interpreter over the extractor's AST.  An abstract state is
   (env: lvalue -> value, facts about unknown values, client property state)
Values are constants, opaque symbols named by their program point, addresses, or
terms over those; branch conditions are only decided by constant folding and by
facts recorded at earlier branches on the *same* value (no arithmetic, no solver).
At joins, states with equal property state are merged when a cap is exceeded, so
the analysis is polynomial; loops are iterated to a fixpoint with merging.
Repository functions the client asks for are inlined (bounded depth), so moving
code into a helper does not change the result; others are summarised by the set of
fields they may write.
"""
from collections import defaultdict
from .model import walk, show
from .db import AnalysisError

TRUE = ('c', 1)
FALSE = ('c', 0)
NULLV = ('c', 0)


def is_const(v):
    return v[0] == 'c'


class St:
    __slots__ = ("env", "bind", "ne", "cons", "prop", "trace", "_k")

    def __init__(s, env=None, bind=None, ne=None, cons=None, prop=None, trace=None):
        s.env = env or {}
        s.bind = bind or {}
        s.ne = ne or {}
        s.cons = cons or {}
        s.prop = prop
        s.trace = trace
        s._k = None

    def copy(s):
        return St(dict(s.env), dict(s.bind), dict(s.ne), dict(s.cons), s.prop, s.trace)

    def key(s):
        if s._k is None:
            s._k = (s.prop, frozenset(s.env.items()), frozenset(s.bind.items()),
                    frozenset(s.ne.items()), frozenset(s.cons.items()))
        return s._k

    def withprop(s, p):
        if p == s.prop:
            return s
        return St(s.env, s.bind, s.ne, s.cons, p, s.trace)      # maps shared: every writer copies first

    def step(s, what):
        t = St(s.env, s.bind, s.ne, s.cons, s.prop, (s.trace, what))
        t._k = s._k
        return t

    def path(s, limit=40):
        out, t = [], s.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        if len(out) > limit:
            out = out[:limit // 2] + ["..."] + out[-limit // 2:]
        return out


def mentions(v, pred):
    if pred(v):
        return True
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple) and mentions(x, pred):
                return True
    return False


_subs = {}


def subs(v):
    """frozenset of all terms inside v (v included), memoised"""
    r = _subs.get(v)
    if r is None:
        out = set()
        subvals(v, out)
        r = _subs[v] = frozenset(out)
    return r


def subvals(v, out):
    if isinstance(v, tuple):
        out.add(v)
        for x in v:
            if isinstance(x, tuple):
                subvals(x, out)


class Client:
    """default client: nothing special"""
    max_depth = 6

    def inline(s, fn, depth):
        return False

    def on_call(s, eng, st, node, fns, obj, args):
        """None = default; else list of (state, value) and/or ('throw', type, state)"""
        return None

    def skip_loop(s, eng, node):
        """True: the loop contains nothing the client watches (and no way out but its end)"""
        return False

    def after_skip(s, eng, st, node):
        return st

    def on_assume(s, eng, st, val, truth):
        return st

    def on_assign(s, eng, st, lv, val, node):
        return st

    def on_delete(s, eng, st, val, node):
        return st

    def on_new(s, eng, st, node, val):
        return st

    def throws(s, eng, st, node, fns):
        """exception types an un-inlined call may raise (list of type names)"""
        return ()

    def merge_key(s, eng, st):
        """states with different keys are never merged"""
        return None


class Engine:
    loopdepth = 0
    maxrounds = 60
    incs = False        # ++ and -- of a member are sums
    rerun = False
    termdepth = 5

    def __init__(s, model, client, cap=48, maxstates=4000):
        s.m = model
        s.cl = client
        s.cap = cap
        s.maxstates = maxstates
        s.frames = []
        s.compound = False      # values of x += y as terms
        s.stats = defaultdict(int)
        s.visited_fns = set()
        s._mod = None
        s.fresh_ctx = ()

    # ---------------------------------------------------------------- MOD sets
    def modsets(s):
        if hasattr(s.m, "_modsets"):
            return s.m._modsets
        direct = {}
        for f in s.m.fns.values():
            w = set()
            for n in f.nodes():
                t = None
                if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                    t = n["a"]
                elif n["k"] == "un" and n["op"] in ("++", "--"):
                    t = n["e"]
                elif n["k"] == "call" and n.get("op") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                    t = n.get("o") or (n["a"][0] if n["a"] else None)
                elif n["k"] == "un" and n["op"] == "&":
                    t = n["e"]
                elif n["k"] == "call":
                    # members handed to something by reference are assumed written
                    for a in n["a"]:
                        if a and a["k"] == "mem" and "static" not in a and not n.get("cm"):
                            w.add(a["n"])
                    o = n.get("o")
                    if o is not None and o["k"] == "mem" and not n.get("cm") and n.get("op") not in ("->", "*"):
                        w.add(o["n"])
                while t is not None:
                    if t["k"] == "mem":
                        w.add(t["n"])
                        break
                    if t["k"] == "sub":
                        t = t["a"]
                    elif t["k"] == "un" and t["op"] == "*":
                        t = t["e"]
                    else:
                        break
            if f.kind == "ctor":
                w = set()
            direct[f.u] = w
        cg = s.m.callgraph()
        mod = {u: set(w) for u, w in direct.items()}
        callers = s.m.callers()
        work = list(mod)
        inwork = set(work)
        while work:
            u = work.pop()
            inwork.discard(u)
            for c in callers.get(u, ()):
                if not mod[u] <= mod[c]:
                    mod[c] |= mod[u]
                    if c not in inwork:
                        work.append(c)
                        inwork.add(c)
        s.m._modsets = mod
        return mod

    # ---------------------------------------------------------------- values
    def sym(s, node, tag=""):
        return ('s', s.site(node), tag)

    def site(s, node):
        fr = s.frames[-1] if s.frames else None
        return (fr["ctx"] if fr else (), node.get("_id") or s.nid(node))

    _ids = 0

    def nid(s, node):
        Engine._ids += 1
        node["_id"] = Engine._ids
        return Engine._ids

    def refresh(s, st, v):
        """the program point behind symbol v is executed again: forget the old symbol"""
        if not s.loopdepth and not s.rerun:
            return st          # outside loops a program point is passed once per path
        used = v in st.bind or v in st.ne
        if not used:
            for k, w in st.env.items():
                if w is v or v in subs(w) or v in subs(k):
                    used = True
                    break
        if not used:
            used = any(v in subs(k) for k in st.cons)
        if not used:
            return st
        st = st.copy()
        old = ('o',) + v[1:]
        def ren(x):
            if x == v:
                return old
            if v not in subs(x):
                return x
            return tuple(ren(y) if isinstance(y, tuple) else y for y in x)
        keep = lambda d: {k: w for k, w in d.items() if old not in subs(k)}
        st.bind, st.ne, st.cons = keep(st.bind), keep(st.ne), keep(st.cons)
        st.env = {ren(k): ren(w) for k, w in st.env.items() if old not in subs(k)}
        if v in st.bind:
            st.bind[old] = st.bind.pop(v)
        if v in st.ne:
            st.ne[old] = st.ne.pop(v)
        st.cons = {ren(k): w for k, w in st.cons.items()}
        return st

    def norm(s, st, v):
        """apply known bindings"""
        b = st.bind.get(v)
        return ('c', b) if b is not None else v

    def truth(s, st, v):
        """True/False/None"""
        v = s.norm(st, v)
        if v[0] == 'c':
            return bool(v[1]) if not isinstance(v[1], str) else True
        if v[0] in ('&', 'obj'):
            return True
        if v[0] == 'e':
            op = v[1]
            if op == '!':
                t = s.truth(st, v[2])
                return None if t is None else not t
            if op in ('==', '!='):
                r = s.equal(st, v[2], v[3])
                if r is None:
                    r = st.cons.get(('e', '==', v[2], v[3]))
                if r is None:
                    r = st.cons.get(('e', '==', v[3], v[2]))
                if r is None:
                    return None
                return r if op == '==' else not r
            if op in ('<', '<='):
                a, b = s.norm(st, v[2]), s.norm(st, v[3])
                if a[0] == 'c' and b[0] == 'c' and not isinstance(a[1], str) and not isinstance(b[1], str):
                    return a[1] < b[1] if op == '<' else a[1] <= b[1]
                return st.cons.get(('e', op, v[2], v[3]))
            if op == '&&':
                a, b = s.truth(st, v[2]), s.truth(st, v[3])
                if a is False or b is False:
                    return False
                if a and b:
                    return True
                return st.cons.get(v)
            if op == '||':
                a, b = s.truth(st, v[2]), s.truth(st, v[3])
                if a or b:
                    return True
                if a is False and b is False:
                    return False
                return st.cons.get(v)
        if 0 in st.ne.get(v, ()):
            return True
        return st.cons.get(v)

    def equal(s, st, a, b):
        a, b = s.norm(st, a), s.norm(st, b)
        if a == b:
            return True
        if a[0] == 'c' and b[0] == 'c':
            return a[1] == b[1]
        if b[0] == 'c' and b[1] in st.ne.get(a, ()):
            return False
        if a[0] == 'c' and a[1] in st.ne.get(b, ()):
            return False
        for x, y in ((a, b), (b, a)):
            if x[0] in ('&', 'obj') and y == NULLV:
                return False
            if y[0] == 'c' and isinstance(y[1], int) and y[1] == 0:
                t = s.truth(st, x) if x[0] != 'c' else None
                if t is not None:
                    return not t
        return None

    def assume(s, st, v, truth):
        """state refined with truth(v)==truth, or None if contradictory"""
        t = s.truth(st, v)
        if t is not None:
            return st if t == truth else None
        st = st.copy()
        r = s._assume(st, v, truth)
        if r is None:
            return None
        return s.cl.on_assume(s, r, v, truth)

    def _assume(s, st, v, truth):
        if v[0] == 'e':
            op = v[1]
            if op == '!':
                return s.assume(st, v[2], not truth)
            if op == '!=':
                return s.assume(st, ('e', '==', v[2], v[3]), not truth)
            if op == '&&' and truth:
                st = s.assume(st, v[2], True)
                return st and s.assume(st, v[3], True)
            if op == '||' and not truth:
                st = s.assume(st, v[2], False)
                return st and s.assume(st, v[3], False)
            if op == '==':
                a, b = s.norm(st, v[2]), s.norm(st, v[3])
                if a[0] == 'c':
                    a, b = b, a
                if b[0] == 'c' and a[0] != 'c':
                    if truth:
                        st.bind[a] = b[1]
                    else:
                        st.ne[a] = st.ne.get(a, frozenset()) | {b[1]}
                    return st
                st.cons[('e', '==', v[2], v[3])] = truth
                return st
        if v[0] in ('s', 'r', 'o', 'j'):
            if truth:
                st.ne[v] = st.ne.get(v, frozenset()) | {0}
            else:
                st.bind[v] = 0
            return st
        st.cons[v] = truth
        return st

    # ---------------------------------------------------------------- lvalues
    def read(s, st, lv):
        v = st.env.get(lv)
        if v is None:
            v = ('r', lv)
            # reading an untouched location: stable until it is invalidated
            st.env[lv] = v
            st._k = None
        return v

    def write(s, st, lv, v, node=None):
        st = st.copy()
        st.env[lv] = v
        # writing a whole object invalidates its parts
        dead = [k for k in st.env if k != lv and k[0] in ('f', 'x') and k[1] == ('&', lv)]
        for k in dead:
            del st.env[k]
        if lv[0] == 'x':
            for k in [k for k in st.env if k[0] == 'x' and k[1] == lv[1] and k != lv and
                      not (k[2][0] == 'c' and lv[2][0] == 'c')]:
                del st.env[k]
        return s.cl.on_assign(s, st, lv, v, node)

    def havoc_lv(s, st, lv, node):
        st = s.refresh(st, ('s', s.site(node), ('h', lv)))
        st = st.copy()
        st.env[lv] = ('s', s.site(node), ('h', lv))
        for k in [k for k in st.env if k != lv and k[0] in ('f', 'x', 'd') and lv in subs(k[1])]:
            del st.env[k]
        return st

    def is_ref(s, t):
        return t.endswith("&")

    def lval(s, st, n):
        """list of (state, lvalue or None)"""
        k = n["k"]
        if k == "ref":
            if n.get("d") in ("local", "parm"):
                lv = ('v', s.frames[-1]["ctx"], n["id"])
                if s.is_ref(n.get("t", "")):
                    tv = st.env.get(lv)
                    if tv is not None and tv[0] == '&':
                        return [(st, tv[1])]
                    return [(st, ('d', s.read(st, lv)))] if tv is not None else [(st, ('d', ('r', lv)))]
                return [(st, lv)]
            if n.get("d") in ("global", "slocal"):
                return [(st, ('g', n["n"]))]
            return [(st, None)]
        if k == "mem":
            if n.get("static"):
                return [(st, ('g', n["n"]))]
            b = n.get("b")
            if b is None:
                return [(st, ('f', ('?',), n["n"]))]
            out = []
            for st2, ov in s.objval(st, b):
                if ov is None:
                    out.append((st2, None)) if st2[0] == 'throw' else out.append((st2, ('f', ('?',), n["n"])))
                else:
                    out.append((st2, ('f', ov, n["n"])))
            return out
        if k == "un" and n["op"] == "*":
            out = []
            for st2, v in s.ev(st, n["e"]):
                out.append((st2, v[1] if v[0] == '&' else ('d', v)))
            return out
        if k == "un" and n["op"] in ("++", "--") and not n.get("post"):
            out = []
            for st2, _ in s.ev(st, n):
                out += s.lval(st2, n["e"])
            return out
        if k == "sub":
            out = []
            for st2, b in s.ev(st, n["a"]):
                for st3, i in s.ev(st2, n["i"]):
                    out.append((st3, ('x', b, i)))
            return out
        if k == "cast":
            return s.lval(st, n["e"])
        if k == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            out = []
            for st2, _ in s.ev(st, n):
                out += s.lval(st2, n["a"])
            return out
        if k == "bin" and n["op"] == ",":
            out = []
            for st2, _ in s.ev(st, n["a"]):
                out += s.lval(st2, n["b"])
            return out
        if k == "call":
            if n.get("op") == "*" and n.get("o") is not None and not n["a"]:
                out = []
                for st2, v in s.ev(st, n["o"]):
                    out.append((st2, v[1] if v[0] == '&' else ('d', v)))
                return out
            if n.get("op") == "[]" and n.get("o") is not None:
                out = []
                for st2, b in s.objval(st, n["o"]):
                    for st3, i in s.ev(st2, n["a"][0]):
                        out.append((st3, ('x', b, i)))
                return out
            if n.get("op") == "=":
                out = []
                for st2, _ in s.ev(st, n):
                    out += s.lval(st2, n.get("o") or n["a"][0])
                return out
            out = []
            for st2, v in s.ev(st, n):
                out.append((st2, v[1] if v[0] == '&' else ('d', v)))
            return out
        if k == "cond":
            out = []
            T, F = s.branch(st, n["c"])
            for t in T:
                out += s.lval(t, n["a"])
            for t in F:
                out += s.lval(t, n["b"])
            return out
        out = []
        for st2, v in s.ev(st, n):
            lv = ('t', s.site(n))
            st2 = st2.copy()
            st2.env[lv] = v
            out.append((st2, lv))
        return out

    def objval(s, st, b):
        """identity of the object denoted by expression b (object or pointer to it)"""
        t = b.get("t", "")
        k = b["k"]
        if k == "this":
            return [(st, s.frames[-1]["this"])]
        if k == "call" and b.get("op") == "->":
            return s.ev(st, b["o"])
        if t.endswith("*") or k in ("new",):
            return s.ev(st, b)
        if k == "un" and b["op"] == "*":
            return s.ev(st, b["e"])
        if k == "call" and b.get("op") == "*" and b.get("o") is not None and not b["a"]:
            return s.ev(st, b["o"])
        if k == "cast" and b.get("t", "").endswith("*"):
            return s.ev(st, b)
        out = []
        for st2, lv in s.lval(st, b):
            if lv is None:
                out.append((st2, ('?',)))
            elif lv[0] == 'd':
                out.append((st2, lv[1]))
            else:
                out.append((st2, ('&', lv)))
        return out

    # ---------------------------------------------------------------- expressions
    def ev(s, st, n):
        """list of (state, value)"""
        if n is None:
            return [(st, ('c', 0))]
        k = n["k"]
        m = getattr(s, "ev_" + k, None)
        if m:
            return m(st, n)
        # unknown expression: evaluate children for effects
        sts = [st]
        from .model import kids
        for c in kids(n):
            sts = [t for x in sts for t, _ in s.ev(x, c)]
        return [(s.refresh(x, s.sym(n)), s.sym(n)) for x in sts]

    def ev_int(s, st, n):
        return [(st, ('c', n["v"]))]
    ev_bool = lambda s, st, n: [(st, ('c', int(n["v"])))]
    ev_chr = ev_int

    def ev_flt(s, st, n):
        v = n["v"]
        return [(st, ('c', int(v) if v == int(v) else v))] if abs(v) < 1e15 else [(st, ('c', v))]

    def ev_str(s, st, n):
        return [(st, ('c', n["v"]) if n["v"] else ('c', ""))]

    def ev_null(s, st, n):
        return [(st, NULLV)]

    def ev_sizeof(s, st, n):
        return [(st, ('c', n.get("v", -1)))]

    def ev_this(s, st, n):
        return [(st, s.frames[-1]["this"])]

    def ev_ref(s, st, n):
        d = n.get("d")
        if d == "enum":
            return [(st, ('c', n["v"]))]
        if d == "func":
            return [(st, ('fn', n.get("u")))]
        if d == "other":
            return [(st, ('g0', n["n"]))]
        if d == "global" and n.get("u") in s.m.consts:
            return [(st, ('c', s.m.consts[n["u"]]))]
        out = []
        for st2, lv in s.lval(st, n):
            if n.get("t", "").rstrip().endswith("]"):
                out.append((st2, ('&', lv)))
            else:
                out.append((st2, s.read(st2, lv)))
        return out

    def ev_mem(s, st, n):
        if n.get("u") and "b" in n and n.get("f"):
            return [(st, ('fn', n.get("u")))]
        out = []
        for st2, lv in s.lval(st, n):
            if n.get("t", "").rstrip().endswith("]"):
                out.append((st2, ('&', lv)))
            else:
                out.append((st2, s.read(st2, lv)))
        return out

    def ev_sub(s, st, n):
        out = []
        for st2, lv in s.lval(st, n):
            out.append((st2, s.read(st2, lv)))
        return out

    def ev_cast(s, st, n):
        out = []
        for st2, v in s.ev(st, n["e"]):
            if n.get("ck") == "dynamic":
                out.append((st2, ('e', 'dyn', n["t"], v) if v[0] not in ('c',) else v))
            else:
                out.append((st2, v))
        return out

    def ev_un(s, st, n):
        op = n["op"]
        if op == "&":
            if n["e"]["k"] in ("ref",) and n["e"].get("d") == "func":
                return s.ev(st, n["e"])
            out = []
            for st2, lv in s.lval(st, n["e"]):
                if lv is None:
                    out.append((st2, s.sym(n)))
                elif lv[0] == 'd':
                    out.append((st2, lv[1]))
                else:
                    out.append((st2, ('&', lv)))
            return out
        if op == "*":
            return [(st2, s.read(st2, lv)) for st2, lv in s.lval(st, n)]
        if op == "!":
            out = []
            for st2, v in s.ev(st, n["e"]):
                v = s.norm(st2, v)
                if v[0] == 'c':
                    out.append((st2, ('c', int(not v[1]))))
                elif v[0] == 'e' and v[1] == '!':
                    out.append((st2, v[2]))
                else:
                    out.append((st2, ('e', '!', v)))
            return out
        if op in ("++", "--"):
            out = []
            for st2, lv in s.lval(st, n["e"]):
                if lv is None:
                    out.append((st2, s.sym(n)))
                    continue
                v = s.norm(st2, s.read(st2, lv))
                if v[0] == 'c' and isinstance(v[1], int) and abs(v[1]) < 3:
                    nv = ('c', v[1] + (1 if op == "++" else -1))
                elif s.incs and lv[0] == 'f':
                    nv = s.arith(st2, op[0], v, ('c', 1), n)
                else:
                    nv = s.sym(n, lv)
                    st2 = s.refresh(st2, nv)
                st2 = s.write(st2, lv, nv, n)
                out.append((st2, v if n.get("post") else nv))
            return out
        if op == "-":
            out = []
            for st2, v in s.ev(st, n["e"]):
                v = s.norm(st2, v)
                if v[0] == 'c' and not isinstance(v[1], str):
                    out.append((st2, ('c', -v[1])))
                else:
                    out.append((st2, ('e', 'neg', v)))
            return out
        if op == "+":
            return s.ev(st, n["e"])
        return [(st2, ('e', op, v)) for st2, v in s.ev(st, n["e"])]

    def arith(s, st, op, a, b, n):
        a, b = s.norm(st, a), s.norm(st, b)
        if op in ('>', '>='):
            op, a, b = {'>': '<', '>=': '<='}[op], b, a
        if op == '!=':
            return s.neg(s.arith(st, '==', a, b, n))
        if a[0] == 'c' and b[0] == 'c' and type(a[1]) != str and type(b[1]) != str:
            x, y = a[1], b[1]
            try:
                r = {'==': lambda: x == y, '<': lambda: x < y, '<=': lambda: x <= y,
                     '+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
                     '&': lambda: x & y, '|': lambda: x | y, '%': lambda: x % y,
                     '<<': lambda: x << y}.get(op)
                if r is not None:
                    r = r()
                    return ('c', int(r) if isinstance(r, bool) else r)
            except Exception:
                pass
        if op == '==':
            r = s.equal(st, a, b)
            if r is not None:
                return ('c', int(r))
            if a[0] == 'c':
                a, b = b, a
            if b == ('c', 0) and n.get("t", "") == "bool":
                return s.neg(a)
            if b == ('c', 1) and n.get("t", "") == "bool":
                return a
        r = ('e', op, a, b)
        if s.depth(r) > s.termdepth:
            return s.sym(n)
        return r

    def neg(s, v):
        if v[0] == 'c':
            return ('c', int(not v[1]))
        if v[0] == 'e' and v[1] == '!':
            return v[2]
        return ('e', '!', v)

    def depth(s, v):
        if not isinstance(v, tuple):
            return 0
        if v[0] == 'e':
            return 1 + max([s.depth(x) for x in v[2:]] or [0])
        return 0

    def ev_bin(s, st, n):
        op = n["op"]
        if op in ("&&", "||"):
            T, F = s.branch(st, n)
            return [(t, TRUE) for t in T] + [(t, FALSE) for t in F]
        if op == ",":
            return [r for st2, _ in s.ev(st, n["a"]) for r in s.ev(st2, n["b"])]
        if op == "=":
            out = []
            for st2, v in s.ev(st, n["b"]):
                if isinstance(st2, tuple):
                    out.append((st2, v))
                    continue
                for st3, lv in s.lval(st2, n["a"]):
                    if lv is None:
                        out.append((st3, v))
                    else:
                        out.append((s.write(st3, lv, v, n), v))
            return out
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            out = []
            bop = op[:-1]
            for st2, v in s.ev(st, n["b"]):
                for st3, lv in s.lval(st2, n["a"]):
                    if lv is None:
                        out.append((st3, s.sym(n)))
                        continue
                    old = s.read(st3, lv)
                    o2, v2 = s.norm(st3, old), s.norm(st3, v)
                    if bop in ("&", "|") and (n.get("t") == "bool"):
                        a, b = s.truth(st3, o2), s.truth(st3, v2)
                        if bop == "&":
                            nv = FALSE if (a is False or b is False) else v2 if a else o2 if b else ('e', '&&', o2, v2)
                        else:
                            nv = TRUE if (a or b) else v2 if a is False else o2 if b is False else ('e', '||', o2, v2)
                    elif bop in ("|", "&") and o2[0] == 'c' and v2[0] == 'c':
                        nv = s.arith(st3, bop, o2, v2, n)
                    elif s.compound and bop in ("+", "-", "*", "/"):
                        nv = s.arith(st3, bop, o2, v2, n)
                    else:
                        nv = s.sym(n, lv)
                        st3 = s.refresh(st3, nv)
                    out.append((s.write(st3, lv, nv, n), nv))
            return out
        out = []
        for st2, a in s.ev(st, n["a"]):
            for st3, b in s.ev(st2, n["b"]):
                out.append((st3, s.arith(st3, op, a, b, n)))
        return out

    def ev_cond(s, st, n):
        T, F = s.branch(st, n["c"])
        out = []
        for t in T:
            out += s.ev(t, n["a"])
        for t in F:
            out += s.ev(t, n["b"])
        return out

    def ev_throw(s, st, n):
        out = []
        t = n.get("t")
        for st2, v in (s.ev(st, n["e"]) if n.get("e") else [(st, None)]):
            s.pending.append((t or "(rethrow)", st2.step("throw %s at %s" % (t or "", s.loc(n)))))
        return []

    def ev_init(s, st, n):
        sts = [st]
        for a in n["a"]:
            sts = [t for x in sts for t, _ in s.ev(x, a)]
        return [(s.refresh(x, s.sym(n)), s.sym(n)) for x in sts]

    def ev_lambda(s, st, n):
        return [(st, s.sym(n))]

    def ev_new(s, st, n):
        sts = [st]
        if n.get("n"):
            sts = [t for x in sts for t, _ in s.ev(x, n["n"])]
        if n.get("i"):
            sts = [t for x in sts for t, _ in s.ev(x, n["i"])]
        out = []
        for x in sts:
            v = ('obj', s.site(n))
            x = s.refresh(x, v)
            out.append((s.cl.on_new(s, x, n, v), v))
        return out

    def ev_del(s, st, n):
        out = []
        for x, v in s.ev(st, n["e"]):
            out.append((s.cl.on_delete(s, x, v, n), ('c', 0)))
        return out

    SMART = ("GetRawPtr", "ConstPtr")

    def ev_ctor(s, st, n):
        cls = n["c"].rsplit("::", 1)[-1]
        states = [(st, [])]
        for a in n["a"]:
            nx = []
            for x, acc in states:
                for y, v in s.ev(x, a):
                    nx.append((y, acc + [v]))
            states = nx
        if n.get("copy") or cls == "SmartPtr" or (cls in ("basic_string", "string") and len(n["a"]) >= 1):
            return [(x, (acc[0] if acc else NULLV)) for x, acc in states]
        if cls in ("basic_string",):
            return [(x, ('c', "")) for x, acc in states]
        out = []
        for x, acc in states:
            r = s.cl.on_call(s, x, n, s.m.targets(n), None, acc)
            if isinstance(r, St):
                x = r
            elif r is not None:
                out += r
                continue
            for t in s.cl.throws(s, x, n, s.m.targets(n)):
                s.pending.append((t, x.step("%s raised by %s at %s" % (t, show(n)[:40], s.loc(n)))))
            v = s.sym(n)
            out.append((s.refresh(x, v), v))
        return out

    def ev_call(s, st, n):
        s.stats["calls"] += 1
        op = n.get("op")
        fname = n.get("f", "")
        base = fname.rsplit("::", 1)[-1]
        cls = fname.rsplit("::", 2)[-2] if fname.count("::") else ""
        # smart pointers are plain pointers
        if cls == "SmartPtr":
            if op in ("->", "*"):
                r = s.ev(st, n["o"])
                return r
            if op == "=":
                return s.ev_bin(st, {"k": "bin", "op": "=", "a": n["o"], "b": n["a"][0], "l": n.get("l"), "_id": n.get("_id") or s.nid(n)})
            if base.startswith("operator "):
                return s.ev(st, n["o"])
        if base in s.SMART and len(n["a"]) == 1:
            return s.ev(st, n["a"][0])
        if base == "IsValid" and len(n["a"]) == 1 and "o" not in n:
            return [(x, s.neg(s.arith(x, '==', v, NULLV, n))) for x, v in s.ev(st, n["a"][0])]
        if base == "IsNull" and len(n["a"]) == 1 and "o" not in n:
            return [(x, s.arith(x, '==', v, NULLV, n)) for x, v in s.ev(st, n["a"][0])]
        if op in ("==", "!="):
            args = ([n["o"]] if n.get("o") is not None else []) + n["a"]
            if len(args) == 2:
                return s.ev_bin(st, {"k": "bin", "op": op, "a": args[0], "b": args[1], "l": n.get("l"), "t": "", "_id": n.get("_id") or s.nid(n)})
        if op == "=" and cls == "basic_string" and n.get("o") is not None:
            return s.ev_bin(st, {"k": "bin", "op": "=", "a": n["o"], "b": n["a"][0], "l": n.get("l"), "_id": n.get("_id") or s.nid(n)})

        targets = s.m.targets(n)
        # object
        states = [(st, None)]
        if n.get("o") is not None:
            states = s.objval(st, n["o"])
        elif n.get("fe") is not None:
            states = s.ev(st, n["fe"])
        # arguments: reference parameters get addresses
        ptypes = s.ptypes(n, targets)
        acc = [(x, ov, []) for x, ov in states]
        for i, a in enumerate(n["a"]):
            nx = []
            for x, ov, av in acc:
                pt = ptypes[i] if i < len(ptypes) else ""
                if pt.endswith("&") and a is not None:
                    for y, lv in s.lval(x, a):
                        nx.append((y, ov, av + [('&', lv) if lv and lv[0] != 'd' else (lv[1] if lv else ('?',))]))
                else:
                    for y, v in s.ev(x, a):
                        nx.append((y, ov, av + [v]))
            acc = nx
        out = []
        for x, ov, av in acc:
            out += s.do_call(x, n, targets, ov, av, ptypes)
        return out

    def ptypes(s, n, targets):
        if targets:
            return [p["t"] for p in targets[0].p]
        m = s.m.meth.get(n.get("u"))
        if m:
            return [p["t"] for p in m["p"]]
        return []

    def do_call(s, st, n, targets, ov, av, ptypes):
        r = s.cl.on_call(s, st, n, targets, ov, av)
        if isinstance(r, St):
            st = r                  # the usual treatment, from this state
        elif r is not None:
            return r
        if len(targets) == 1 and len(s.frames) <= s.cl.max_depth:
            fn = targets[0]
            if fn.body is not None and not any(f["fn"] is fn for f in s.frames) and s.cl.inline(fn, len(s.frames)):
                return s.inline_call(st, n, fn, ov, av)
        for t in s.cl.throws(s, st, n, targets):
            s.pending.append((t, st.step("%s raised by %s at %s" % (t, show(n)[:60], s.loc(n)))))
        return s.havoc_call(st, n, targets, ov, av, ptypes)

    def havoc_call(s, st, n, targets, ov, av, ptypes):
        mod = s.modsets()
        ms = set()
        for t in targets:
            ms |= mod.get(t.u, set())
        st = st.copy()
        hit = [lv for lv in st.env if lv[0] == 'f' and lv[2] in ms]
        for lv in hit:
            st = s.havoc_lv(st, lv, n)
        if not targets and n.get("o") is not None and not n.get("cm") and ov is not None and ov[0] == '&':
            st = s.havoc_lv(st, ov[1], n)
        for i, v in enumerate(av):
            pt = ptypes[i] if i < len(ptypes) else "?"
            if pt.startswith("const ") and not pt.endswith("* &"):
                continue
            if v[0] == '&' and (pt.endswith("&") or pt.endswith("*") or pt in ("?", "") or pt.endswith("]")):
                st = s.havoc_lv(st, v[1], n)
            elif v[0] != 'c':
                dead = [lv for lv in st.env if lv[0] in ('d', 'x') and lv[1] == v]
                for lv in dead:
                    st = s.havoc_lv(st, lv, n)
        val = s.sym(n)
        st = s.refresh(st, val)
        return [(st, val)]

    def inline_call(s, st, n, fn, ov, av):
        s.stats["inlined"] += 1
        s.visited_fns.add(fn.u)
        ctx = s.frames[-1]["ctx"] + ((n.get("_id") or s.nid(n)),)
        st = st.copy()
        for i, p in enumerate(fn.p):
            if i < len(av):
                v = av[i]
                if p["t"].endswith("&") and v[0] != '&':
                    st.env[('v', ctx, p["id"])] = v
                else:
                    st.env[('v', ctx, p["id"])] = v
        s.frames.append({"fn": fn, "ctx": ctx, "this": ov if ov is not None else ('?',)})
        out = s.ex([st], fn.body)
        s.frames.pop()
        res = []
        for x, v in out["r"] + [(x, ('c', 0) if fn.rt != "void" else ('void',)) for x in out["n"]]:
            res.append((s.drop_frame(x, ctx), v))
        for t, x in out["t"]:
            s.pending.append((t, s.drop_frame(x, ctx)))
        return s.dedupe_v(res)

    def drop_frame(s, st, ctx):
        st = st.copy()
        for k in [k for k in st.env if (k[0] == 'v' and k[1][:len(ctx)] == ctx)]:
            del st.env[k]
        return s.gc(st)

    def gc(s, st):
        """drop facts on values no longer reachable from the environment or the property state"""
        live = set()
        for k, v in st.env.items():
            live |= subs(k)
            live |= subs(v)
        if isinstance(st.prop, frozenset) and getattr(s.cl, "keepfacts", False):
            for x in st.prop:
                subvals(x, live)
        if isinstance(st.prop, tuple):
            subvals(st.prop, live)
            for x in st.prop:
                if isinstance(x, frozenset):
                    for y in x:
                        subvals(y, live)
        def ok(t):
            if t in live:
                return True
            if t[0] == 'e':
                return all((not isinstance(x, tuple)) or x[0] == 'c' or ok(x) for x in t[2:])
            return t[0] == 'r' and t[1][0] in ('f', 'g') and False
        st.bind = {k: v for k, v in st.bind.items() if ok(k)}
        st.ne = {k: v for k, v in st.ne.items() if ok(k)}
        st.cons = {k: v for k, v in st.cons.items() if ok(k)}
        st._k = None
        return st

    def loc(s, n):
        f = s.frames[-1]["fn"]
        return "%s:%s" % (f.file, n.get("l") or f.l)

    # ---------------------------------------------------------------- branches
    def branch(s, st, c):
        """(true states, false states)"""
        if c is None:
            return [st], []
        k = c["k"]
        if k == "bin" and c["op"] == "&&":
            T, F = s.branch(st, c["a"])
            TT = []
            for t in T:
                a, b = s.branch(t, c["b"])
                TT += a
                F = F + b
            return s.cut(TT), s.cut(F)
        if k == "bin" and c["op"] == "||":
            T, F = s.branch(st, c["a"])
            FF = []
            for t in F:
                a, b = s.branch(t, c["b"])
                T = T + a
                FF += b
            return s.cut(T), s.cut(FF)
        if k == "un" and c["op"] == "!":
            T, F = s.branch(st, c["e"])
            return F, T
        T, F = [], []
        for x, v in s.ev(st, c):
            t = s.truth(x, v)
            if t is not None:
                (T if t else F).append(x)
                continue
            a = s.assume(x, v, True)
            if a is not None:
                T.append(a.step("%s: %s is true" % (s.loc(c), show(c)[:70])))
            b = s.assume(x, v, False)
            if b is not None:
                F.append(b.step("%s: %s is false" % (s.loc(c), show(c)[:70])))
        return T, F

    # ---------------------------------------------------------------- state sets
    def dedupe(s, sts):
        seen, out = set(), []
        for x in sts:
            k = x.key()
            if k not in seen:
                seen.add(k)
                out.append(x)
        return out

    def dedupe_v(s, pairs):
        seen, out = set(), []
        for x, v in pairs:
            k = (x.key(), v)
            if k not in seen:
                seen.add(k)
                out.append((x, v))
        if len(out) > s.cap:
            by = {}
            for x, v in out:
                by.setdefault(v, []).append(x)
            out = [(y, v) for v, xs in by.items() for y in s.cut(xs)]
        return out

    def cut(s, sts, force=False, tag=0):
        sts = s.dedupe(sts)
        if len(sts) <= s.cap and not force:
            return sts
        return s.merge(sts, tag)

    def merge(s, sts, tag=0):
        """ESP merge: one state per property state"""
        s.stats["merges"] += 1
        groups = {}
        for x in sts:
            groups.setdefault((x.prop, s.cl.merge_key(s, x)), []).append(x)
        out = []
        for (p, _), g in groups.items():
            if len(g) == 1:
                out.append(g[0])
                continue
            env = {}
            keys = set(g[0].env)
            for x in g[1:]:
                keys &= set(x.env)
            for k in keys:
                vs = {s.norm(x, x.env[k]) for x in g}
                if len(vs) == 1:
                    env[k] = next(iter(vs))
                else:
                    raw = {x.env[k] for x in g}
                    env[k] = next(iter(raw)) if len(raw) == 1 else ('j', tag, k)
            def common(attr):
                d = dict(getattr(g[0], attr))
                for x in g[1:]:
                    e = getattr(x, attr)
                    d = {k: v for k, v in d.items() if e.get(k) == v}
                return d
            bind, cons = common("bind"), common("cons")
            ne = {}
            for k in set().union(*[x.ne for x in g]):
                vals = None
                for x in g:
                    b = x.bind.get(k)
                    e = x.ne.get(k, frozenset())
                    if vals is None:
                        vals = e
                    else:
                        vals = vals & e
                if vals:
                    ne[k] = vals
            js = lambda t: any(y and y[0] == 'j' and len(y) > 1 and y[1] == tag for y in subs(t))
            bind = {k: v for k, v in bind.items() if not js(k)}
            cons = {k: v for k, v in cons.items() if not js(k)}
            ne = {k: v for k, v in ne.items() if not js(k)}
            out.append(St(env, bind, ne, cons, p, g[0].trace))
        if len(out) > s.maxstates:
            raise AnalysisError("state explosion in %s" % s.frames[0]["fn"].f)
        return out

    # ---------------------------------------------------------------- statements
    def ex(s, sts, n):
        """dict: n=[states] b=[..] c=[..] r=[(state,value)] t=[(type,state)]"""
        R = {"n": [], "b": [], "c": [], "r": [], "t": []}
        if n is None:
            R["n"] = list(sts)
            return R
        k = n["k"]
        m = getattr(s, "ex_" + k, None)
        if m is None:
            # expression statement
            save = s.pending
            s.pending = R["t"]
            for st in sts:
                for x, v in s.ev(st, n):
                    R["n"].append(x)
            s.pending = save
            R["n"] = s.cut(R["n"])
            return R
        save = s.pending
        s.pending = R["t"]
        m(sts, n, R)
        s.pending = save
        R["n"] = s.cut(R["n"])
        return R

    pending = []

    def add(s, R, r, skip=()):
        for k in ("b", "c", "r", "t"):
            if k not in skip:
                R[k] += r[k]

    def ex_seq(s, sts, n, R):
        cur = list(sts)
        ids = []
        for c in n["s"]:
            if not cur:
                break
            if c is not None and c["k"] in ("case", "default"):
                pass
            r = s.ex(cur, c)
            s.add(R, r)
            cur = r["n"]
            if c is not None and c["k"] == "decl":
                ids += [v["id"] for v in c["v"] if "id" in v]
        if len(R["r"]) > s.cap:
            R["r"] = s.dedupe_v(R["r"])
        R["n"] = cur

    def ex_decl(s, sts, n, R):
        ctx = s.frames[-1]["ctx"]
        cur = list(sts)
        for v in n["v"]:
            if "id" not in v:
                continue
            nx = []
            lv = ('v', ctx, v["id"])
            for st in cur:
                if v.get("i") is not None:
                    if v["t"].endswith("&"):
                        for x, l in s.lval(st, v["i"]):
                            x = x.copy()
                            x.env[lv] = ('&', l) if l and l[0] != 'd' else (l[1] if l else ('?',))
                            nx.append(x)
                    else:
                        for x, val in s.ev(st, v["i"]):
                            nx.append(s.write(x, lv, val, v))
                else:
                    u = s.sym(v, "undef")
                    x = s.refresh(st, u).copy()
                    x.env[lv] = u
                    nx.append(x)
            cur = nx
        R["n"] = cur

    def ex_nop(s, sts, n, R):
        R["n"] = list(sts)

    def ex_label(s, sts, n, R):
        r = s.ex(sts, n["s"])
        s.add(R, r)
        R["n"] = r["n"]

    def ex_goto(s, sts, n, R):
        raise AnalysisError("goto in analysed function " + s.frames[-1]["fn"].f)

    def ex_if(s, sts, n, R):
        cur = list(sts)
        if n.get("init"):
            r = s.ex(cur, n["init"])
            s.add(R, r)
            cur = r["n"]
        if n.get("cv"):
            r = s.ex(cur, {"k": "decl", "v": [n["cv"]], "l": n.get("l")})
            s.add(R, r)
            cur = r["n"]
        T, F = [], []
        for st in cur:
            a, b = s.branch(st, n["c"])
            T += a
            F += b
        out = []
        if T:
            r = s.ex(s.cut(T), n["t"])
            s.add(R, r)
            out += r["n"]
        if F:
            if n.get("e"):
                r = s.ex(s.cut(F), n["e"])
                s.add(R, r)
                out += r["n"]
            else:
                out += F
        R["n"] = out

    def loop(s, sts, R, cond, body, inc, postcond=False, node=None):
        if s.cl.skip_loop(s, node):
            # nothing the client watches happens inside: forget what the loop writes, go on after it
            R["n"] = [s.cl.after_skip(s, s.havoc_node(st, node), node) for st in s.cut(sts)]
            return
        s.loopdepth += 1
        try:
            s._loop(sts, R, cond, body, inc, postcond, node)
        finally:
            s.loopdepth -= 1

    def havoc_node(s, st, node):
        w = node.get("_writes")
        if w is None:
            loc, fld, mem = set(), set(), False
            mod = s.modsets()
            for n in walk(node):
                t = None
                if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                    t = n["a"]
                elif n["k"] == "un" and n["op"] in ("++", "--", "&"):
                    t = n["e"]
                elif n["k"] == "decl":
                    loc |= {v["id"] for v in n["v"] if "id" in v}
                elif n["k"] == "call":
                    for g in s.m.targets(n):
                        fld |= mod.get(g.u, set())
                    for a in list(n["a"]) + ([n["o"]] if n.get("o") and not n.get("cm") else []):
                        while a is not None and a["k"] in ("cast", "sub", "un"):
                            a = a.get("e") or a.get("a")
                        if a is not None and a["k"] == "ref" and "id" in a:
                            loc.add(a["id"])
                        elif a is not None and a["k"] == "mem" and not n.get("op") == "->":
                            fld.add(a["n"])
                    mem = True
                while t is not None:
                    if t["k"] == "ref":
                        if "id" in t:
                            loc.add(t["id"])
                        break
                    if t["k"] == "mem":
                        fld.add(t["n"])
                        break
                    if t["k"] in ("sub", "un"):
                        mem = True
                        # the pointer itself is not written
                        break
                    t = t.get("e")
            w = node["_writes"] = (loc, fld, mem)
        loc, fld, mem = w
        ctx = s.frames[-1]["ctx"]
        hit = []
        for k in st.env:
            if k[0] == 'v' and k[1] == ctx and k[2] in loc and st.env[k][0] != '&':
                hit.append(k)
            elif k[0] == 'v' and k[1] == ctx and k[2] in loc and st.env[k][0] == '&':
                hit.append(st.env[k][1])
            elif k[0] == 'f' and k[2] in fld:
                hit.append(k)
            elif mem and k[0] in ('x', 'd', 'p'):
                hit.append(k)
        for k in hit:
            if k in st.env or k[0] != 'v':
                st = s.havoc_lv(st, k, node)
        return st

    def _loop(s, sts, R, cond, body, inc, postcond, node):
        seen = {}
        exits = []
        work = list(sts)
        rounds = 0
        tag = ('L', s.site(node))
        accum = []
        while work:
            rounds += 1
            if rounds > s.maxrounds:
                raise AnalysisError("loop does not stabilise in %s line %s" % (s.frames[-1]["fn"].f, node.get("l")))
            if rounds > 2:
                # widen: merge with everything seen at the head
                work = s.merge(accum + work, tag)
            new = []
            for x in work:
                if x.key() not in seen:
                    seen[x.key()] = x
                    new.append(x)
            if not new:
                break
            accum = (accum + new) if rounds <= 2 else new
            cur = []
            if not postcond:
                for st in new:
                    T, F = s.branch(st, cond)
                    cur += T
                    exits += F
            else:
                cur = new
            cur = s.cut(cur)
            r = s.ex(cur, body)
            s.add(R, r, skip=("b", "c"))
            exits += r["b"]
            nxt = s.cut(r["n"] + r["c"])
            if postcond:
                nn = []
                for st in nxt:
                    T, F = s.branch(st, cond)
                    nn += T
                    exits += F
                nxt = nn
            elif inc is not None:
                nxt = [x for st in nxt for x, _ in s.ev(st, inc)]
            work = s.cut(nxt)
            exits = s.cut(exits)
        R["n"] = exits

    def ex_while(s, sts, n, R):
        s.loop(sts, R, n["c"], n["b"], None, node=n)

    def ex_do(s, sts, n, R):
        s.loop(sts, R, n["c"], n["b"], None, postcond=True, node=n)

    def ex_for(s, sts, n, R):
        r = s.ex(sts, n.get("i"))
        s.add(R, r)
        s.loop(r["n"], R, n.get("c"), n["b"], n.get("inc"), node=n)

    def ex_rfor(s, sts, n, R):
        out = []
        for st in sts:
            for x, _ in s.ev(st, n["r"]):
                out.append(x)
        cond = {"k": "other", "c": "rangecond", "a": [], "l": n.get("l")}
        body = {"k": "seq", "s": [{"k": "decl", "v": [dict(n["v"], i=None)], "l": n.get("l")}, n["b"]], "l": n.get("l")}
        if "_body" not in n:
            n["_body"] = body
            n["_cond"] = cond
        s.loop(out, R, n["_cond"], n["_body"], None, node=n)

    def ex_return(s, sts, n, R):
        for st in sts:
            if n.get("e") is None:
                R["r"].append((st, ('void',)))
                continue
            if s.frames[-1]["fn"].rt.endswith("&"):
                for x, lv in s.lval(st, n["e"]):
                    R["r"].append((x, ('&', lv) if lv and lv[0] != 'd' else (lv[1] if lv else ('?',))))
            else:
                for x, v in s.ev(st, n["e"]):
                    R["r"].append((x, s.norm(x, v)))
        R["n"] = []

    def ex_break(s, sts, n, R):
        R["b"] = list(sts)

    def ex_continue(s, sts, n, R):
        R["c"] = list(sts)

    def ex_case(s, sts, n, R):
        r = s.ex(sts, n["s"])
        s.add(R, r)
        R["n"] = r["n"]
    ex_default = ex_case

    def flat_cases(s, b):
        """[(labels, stmt)] of a switch body; labels: list of ints / 'default'"""
        items = []
        stm = b["s"] if b and b["k"] == "seq" else [b]
        for c in stm:
            labels = []
            x = c
            while x is not None and x["k"] in ("case", "default"):
                labels.append(x.get("v") if x["k"] == "case" else "default")
                x = x["s"]
            items.append((labels, x))
        return items

    def ex_switch(s, sts, n, R):
        items = s.flat_cases(n["b"])
        alll = [l for ls, _ in items for l in ls if l != "default"]
        entry = []   # (index, state)
        for st in sts:
            for x, v in s.ev(st, n["c"]):
                v = s.norm(x, v)
                rest = x
                done = False
                for i, (ls, _) in enumerate(items):
                    for l in ls:
                        if l == "default" or rest is None:
                            continue
                        eq = s.arith(rest, '==', v, ('c', l), n)
                        t = s.truth(rest, eq)
                        if t is True:
                            entry.append((i, rest))
                            rest = None
                        elif t is None:
                            a = s.assume(rest, eq, True)
                            if a is not None:
                                entry.append((i, a.step("%s: %s == %s" % (s.loc(n), show(n["c"])[:40], l))))
                            rest = s.assume(rest, eq, False)
                if rest is not None:
                    di = [i for i, (ls, _) in enumerate(items) if "default" in ls]
                    if di:
                        entry.append((di[0], rest.step("%s: switch default" % s.loc(n))))
                    else:
                        R["n"].append(rest.step("%s: switch no case" % s.loc(n)))
        cur = []
        for i, (ls, b) in enumerate(items):
            cur = s.cut(cur + [x for j, x in entry if j == i])
            if not cur:
                continue
            r = s.ex(cur, b)
            R["c"] += r["c"]
            R["r"] += r["r"]
            R["t"] += r["t"]
            R["n"] += r["b"]
            cur = r["n"]
        R["n"] += cur

    def catches(s, handler, t):
        ht = handler.get("t")
        if ht is None:
            return True
        a = ht.replace("const ", "").strip()
        if t == a:
            return True
        if t == "(any)":
            return None
        return s.m.is_a(t, a)

    def ex_try(s, sts, n, R):
        r = s.ex(sts, n["b"])
        R["b"] += r["b"]
        R["c"] += r["c"]
        R["r"] += r["r"]
        out = list(r["n"])
        pend = {}
        for t, st in r["t"]:
            hit = False
            for i, h in enumerate(n["h"]):
                c = s.catches(h, t)
                if c or c is None:
                    pend.setdefault(i, []).append((t, st))
                    if c:
                        hit = True
                        break
            if not hit:
                R["t"].append((t, st))
        for i in sorted(pend):
            h = n["h"][i]
            by = {}
            for t, st in pend[i]:
                by.setdefault(t, []).append(st.step("%s: caught %s" % (s.loc(h), t)))
            for t, xs in by.items():
                r2 = s.ex(s.cut(xs), h["b"])
                R["b"] += r2["b"]
                R["c"] += r2["c"]
                R["r"] += r2["r"]
                for t2, st2 in r2["t"]:
                    R["t"].append((t if t2 == "(rethrow)" else t2, st2))
                out += r2["n"]
        R["n"] = out

    # ---------------------------------------------------------------- entry
    def run(s, fn, prop, setup=None):
        """analyse fn; returns (returns [(state,value)], throws [(type,state)])"""
        s.visited_fns.add(fn.u)
        s.frames = [{"fn": fn, "ctx": (), "this": ('this',)}]
        st = St(prop=prop)
        for p in fn.p:
            lv = ('v', (), p["id"])
            if p["t"].endswith("&"):
                st.env[lv] = ('&', ('p', p["n"]))
            else:
                st.env[lv] = ('r', ('p', p["n"]))
        if setup:
            st = setup(s, st)
        s.pending = []
        thr = []
        sts = [st]
        if fn.kind == "ctor":
            save = s.pending
            s.pending = thr
            for i in fn.rec.get("inits", []):
                nx = []
                for x in sts:
                    for y, v in s.ev(x, i.get("e")):
                        if "m" in i:
                            y = s.write(y, ('f', ('this',), i["m"]), v, i.get("e"))
                        nx.append(y)
                sts = nx
            s.pending = save
        r = s.ex(sts, fn.body)
        rets = r["r"] + [(x, ('void',)) for x in r["n"]]
        s.frames = []
        return s.dedupe_v(rets), thr + r["t"]

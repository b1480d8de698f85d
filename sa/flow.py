"""Provenance: which inputs (parameters, members, called functions) the values
handed to a call, stored in a member, or returned are computed from.

Flow-sensitive over the structured syntax tree (joins at merges, loops to a
fixpoint), interprocedural through summaries of the callees the client selects;
other callees: every non-const argument and the receiver may receive every
argument.  Pointers to an object share its label set."""
from .model import kids, show
from .db import AnalysisError

E = frozenset()
IDENT = {"GetRawPtr", "ConstPtr", "Ptr", "dynamic_ptr_cast", "static_ptr_cast"}


def short(n):
    return n.get("f", "").rsplit("::", 1)[-1]


class S:
    __slots__ = ("env", "pts")

    def __init__(s, env=None, pts=None):
        s.env = env or {}
        s.pts = pts or {}

    def copy(s):
        return S(dict(s.env), dict(s.pts))

    def __eq__(s, o):
        return s.env == o.env and s.pts == o.pts


class Flow:
    MAXIT = 6

    def __init__(s, m, inline=None, sink=None, call=None, maxdepth=5):
        s.m = m
        s.inline = inline or (lambda f: False)
        s.sink = sink
        s.callhook = call
        s.memo = {}
        s.stack = []
        s.maxdepth = maxdepth

    # ------------------------------------------------------------ state
    def default(s, loc):
        if loc[0] == 'f':
            return frozenset([loc])
        if loc[0] == 'g':
            return frozenset([loc])
        if loc[0] == 'v':
            i = s.pidx.get(loc[1])
            if i is not None:
                return frozenset([('p', i)])
        return E

    def get(s, st, loc):
        v = st.env.get(loc)
        if v is not None:
            return v
        if loc[0] == 'm':
            return s.get(st, loc[1])
        return s.default(loc)

    def roots(s, st, loc):
        out, todo = set(), [loc]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            todo.extend(st.pts.get(x, ()))
        return out

    def labels(s, st, locs):
        out = set()
        for l in locs:
            for r in s.roots(st, l):
                out |= s.get(st, r)
        return frozenset(out)

    def join(s, sts):
        sts = [x for x in sts if x is not None]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        r = S()
        for l in set().union(*[x.env.keys() for x in sts]):
            v = frozenset()
            for x in sts:
                v |= s.get(x, l)
            r.env[l] = v
        for l in set().union(*[x.pts.keys() for x in sts]):
            v = frozenset()
            for x in sts:
                v |= x.pts.get(l, E)
            r.pts[l] = v
        return r

    def weak(s, st, locs, lab):
        for l in locs:
            for r in s.roots(st, l):
                st.env[r] = s.get(st, r) | lab

    def strong(s, st, locs, lab, pts=E):
        locs = set(locs)
        if len(locs) == 1:
            l = next(iter(locs))
            st.env[l] = frozenset(lab)
            st.pts[l] = frozenset(x for x in pts if x != l)
        else:
            s.weak(st, locs, lab)

    def overwrite(s, st, locs, lab):
        """the pointed-to contents are replaced"""
        locs = set(locs)
        if len(locs) == 1:
            r = s.roots(st, next(iter(locs)))
            if len(r) <= 2:
                for x in r:
                    st.env[x] = frozenset(lab)
                return
        s.weak(st, locs, lab)

    # ------------------------------------------------------------ places
    def place(s, st, n):
        """locations an lvalue expression (or the target of a pointer expression) may denote"""
        if n is None:
            return set()
        k = n["k"]
        if k == "ref":
            if n.get("d") in ("local", "parm"):
                return {('v', n["id"])}
            if n.get("d") in ("global", "slocal"):
                return {('g', n["n"])}
            return set()
        if k == "mem":
            b = n.get("b")
            if n.get("static"):
                return {('g', n["n"])}
            if b is None or b["k"] == "this":
                return {('f', n["n"])}
            out = set()
            for l in s.place(st, b):
                for x in st.pts.get(l) or (l,):
                    out.add(('m', x, n["n"]) if x[0] != 'm' or x[1][0] != 'm' else x)
            return out
        if k == "sub":
            return s.place(st, n["a"])
        if k == "cast":
            return s.place(st, n["e"])
        if k == "un":
            if n["op"] in ("*", "&", "++", "--"):
                return s.place(st, n["e"])
            return set()
        if k == "bin":
            if n["op"] in ("+", "-"):
                return s.place(st, n["a"]) | (s.place(st, n["b"]) if n["b"].get("t", "").endswith("*") else set())
            if n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                return s.place(st, n["a"])
            if n["op"] == ",":
                return s.place(st, n["b"])
            return set()
        if k == "cond":
            return s.place(st, n["a"]) | s.place(st, n["b"])
        if k == "call":
            if n.get("op") in ("->", "*", "[]", "=", "+=", "-=") and n.get("o") is not None:
                return s.place(st, n["o"])
            if short(n) in IDENT and (n["a"] or n.get("o")):
                return s.place(st, n["a"][0] if n["a"] else n["o"])
            if short(n).startswith("operator ") and n.get("o") is not None:
                return s.place(st, n["o"])
            if short(n) in ("REAL", "INTEGER", "LOGICAL") and len(n["a"]) == 1:      # R: contents of an object
                return s.place(st, n["a"][0])
            if short(n) in ("at", "front", "back", "data", "begin", "c_str", "operator[]") and n.get("o") is not None:
                return s.place(st, n["o"])
            return set()
        if k == "ctor" and len(n["a"]) == 1 and (n["c"].endswith("SmartPtr") or n.get("copy")):
            return s.place(st, n["a"][0])
        return set()

    # ------------------------------------------------------------ expressions
    def ev(s, st, n):
        """labels of a value; st is updated in place"""
        if n is None:
            return E
        k = n["k"]
        if k in ("int", "flt", "bool", "chr", "str", "null", "sizeof"):
            return E
        if k == "this":
            return frozenset([('this',)])
        if k == "ref":
            p = s.place(st, n)
            return s.labels(st, p)
        if k == "mem":
            b = n.get("b")
            if b is not None and b["k"] != "this":
                s.ev(st, b)
                return s.labels(st, s.place(st, b)) or s.ev(st, b)
            return s.labels(st, s.place(st, n))
        if k == "sub":
            s.ev(st, n["i"])
            return s.ev(st, n["a"])
        if k == "cast":
            return s.ev(st, n["e"])
        if k == "un":
            return s.ev(st, n["e"])
        if k == "bin":
            op = n["op"]
            if op == "=":
                return s.assign(st, n["a"], n["b"])
            if op == ",":
                s.ev(st, n["a"])
                return s.ev(st, n["b"])
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                v = s.ev(st, n["b"])
                s.weak(st, s.place(st, n["a"]), v)
                return s.ev(st, n["a"])
            return s.ev(st, n["a"]) | s.ev(st, n["b"])
        if k == "cond":
            s.ev(st, n["c"])
            return s.ev(st, n["a"]) | s.ev(st, n["b"])
        if k == "new":
            out = E
            if n.get("n"):
                s.ev(st, n["n"])
            if n.get("i"):
                out = s.ev(st, n["i"])
            return out
        if k == "del":
            s.ev(st, n["e"])
            return E
        if k == "throw":
            for c in kids(n):
                s.ev(st, c)
            return E
        if k in ("call", "ctor"):
            return s.call(st, n)
        out = E
        for c in kids(n):
            out |= s.ev(st, c)
        return out

    def pointerish(s, t):
        return t.endswith(("*", "&")) or "SmartPtr" in t or t.endswith("* const")

    def assign(s, st, lhs, rhs):
        v = s.ev(st, rhs)
        l = lhs
        while l["k"] == "cast":
            l = l["e"]
        whole = l["k"] in ("ref", "mem")
        pl = s.place(st, lhs)
        if whole and not (l["k"] == "ref" and l.get("t", "").endswith("&") and any(st.pts.get(x) for x in pl)):
            if s.pointerish(l.get("t", "")) or s.pointerish(rhs.get("t", "")) and l["k"] == "mem" and not l.get("t"):
                s.strong(st, pl, E, s.target(st, rhs, v))
            else:
                s.strong(st, pl, v)
        else:
            if lhs["k"] not in ("ref", "mem", "cast"):
                s.ev(st, lhs)
            if l["k"] == "un" and l["op"] == "*":
                s.overwrite(st, pl, v)
            else:
                s.weak(st, pl, v)
        return v

    def target(s, st, n, lab):
        """objects a pointer expression points to (a fresh one for a computed pointer)"""
        x = n
        while x is not None and x["k"] == "cast":
            x = x["e"]
        if x is not None and (x["k"] in ("null", "int") ):
            return E
        pl = s.place(st, n)
        out = set()
        for l in pl:
            out |= st.pts.get(l) or {l}
        if not out:
            h = ('h', id(x))
            st.env[h] = frozenset(lab)
            st.pts.pop(h, None)
            out = {h}
        return frozenset(out)

    def ptypes(s, n, fns):
        if fns:
            return [p["t"] for p in fns[0].p]
        mm = s.m.meth.get(n.get("u"))
        if mm:
            return [p["t"] for p in mm["p"]]
        return []

    def call(s, st, n):
        b = short(n)
        cls = n.get("f", "").rsplit("::", 2)[-2] if n.get("f", "").count("::") else ""
        o = n.get("o")
        op = n.get("op")
        if n["k"] == "call":
            if cls == "SmartPtr":
                if op == "=":
                    return s.assign(st, o, n["a"][0])
                if o is not None:
                    return s.ev(st, o)
            if b in IDENT and n["a"]:
                return s.ev(st, n["a"][0])
            if op == "=" and o is not None:
                return s.assign(st, o, n["a"][0])
            if op == "[]" and o is not None:
                for a in n["a"]:
                    s.ev(st, a)
                return s.ev(st, o)
        args = [s.ev(st, a) for a in n["a"]]
        ov = s.ev(st, o) if o is not None else (s.ev(st, n["fe"]) if n.get("fe") is not None else E)
        fns = s.m.targets(n)
        if s.sink:
            s.sink(s, st, n, fns, ov, args)
        if s.callhook:
            r = s.callhook(s, st, n, fns, ov, args)
            if r is not None:
                return r
        if n["k"] == "ctor":
            if n["c"].endswith("SmartPtr") or n.get("copy"):
                return args[0] if args else E
        if b.startswith("MakeNew") and not b.endswith("Copy"):
            return E
        allv = frozenset().union(ov, *args)
        pl = lambda e: s.place(st, e) if e is not None else set()
        if b in ("IpBlasCopy", "DCOPY", "dcopy") and len(n["a"]) == 5:
            s.overwrite(st, pl(n["a"][3]), args[1])
            return E
        if b in ("memcpy", "memmove", "strcpy"):
            s.overwrite(st, pl(n["a"][0]), args[1])
            return E
        if b == "memset":
            s.overwrite(st, pl(n["a"][0]), E)
            return E
        if b in ("swap",) and len(n["a"]) == 2:
            x, y = args
            s.overwrite(st, pl(n["a"][0]), y)
            s.overwrite(st, pl(n["a"][1]), x)
            return E
        fns1 = fns
        if len(fns1) == 1 and fns1[0].body is not None and s.inline(fns1[0]) and fns1[0].u not in s.stack and len(s.stack) < s.maxdepth:
            return s.apply(st, n, fns1[0], ov, args)
        if o is not None and n["k"] == "call":
            if b in ("Set", "Copy", "SetValues", "resize", "assign") and not n.get("cm"):
                s.overwrite(st, pl(o), frozenset().union(*args) if args else E)
                return E
            if not n.get("cm") and any(args):
                s.weak(st, pl(o), frozenset().union(*args))
        pt = s.ptypes(n, fns)
        for i, a in enumerate(n["a"]):
            t = pt[i] if i < len(pt) else ""
            if a is None:
                continue
            if t:
                out = t.endswith(("*", "&", "]")) and not t.startswith("const ") or t.startswith("const ") and t.endswith(("* &",))
            else:
                out = a.get("t", "").endswith(("*", "]")) and not a.get("t", "").startswith("const ") or a["k"] == "un" and a["op"] == "&"
            if "SmartPtr" in t and not t.startswith("const "):
                out = t.endswith("&") or "SmartPtr<const" not in t
            if out:
                s.weak(st, pl(a), (allv - args[i]) | frozenset([('call', b)]))
        return allv | frozenset([('call', b)])

    # ------------------------------------------------------------ summaries
    def summary(s, fn):
        """(return labels, {param: labels}, {field: labels}) in terms of ('p',i) / ('f',name)"""
        if fn.u in s.memo:
            return s.memo[fn.u]
        save = s.__dict__.get("pidx"), s.sink, s.__dict__.get("ret"), s.__dict__.get("fnow")
        s.sink = None
        s.stack.append(fn.u)
        st, ret = s.body(fn)
        out = {}
        for p_i, p in enumerate(fn.p):
            if "id" in p:
                # contents of what the caller passed: the parameter's own labels, not later re-seatings of the pointer
                out[p_i] = s.get(st, ('v', p["id"])) if st else E
        fl = {l: s.labels(st, {l}) for l in (set(st.env) | set(st.pts) if st else ()) if l[0] in ('f', 'g')}
        s.stack.pop()
        s.pidx, s.sink, s.ret, s.fnow = save
        s.memo[fn.u] = (ret, out, fl)
        return s.memo[fn.u]

    def apply(s, st, n, fn, ov, args):
        ret, out, fl = s.summary(fn)
        o = n.get("o")
        onthis = o is None or o["k"] == "this"

        def sub(lab):
            r = set()
            for l in lab:
                if l[0] == 'p':
                    if l[1] < len(args):
                        r |= args[l[1]]
                elif l[0] in ('f', 'this'):
                    r |= (s.labels(st, {l}) if l[0] == 'f' else {l}) if onthis else ov
                elif l[0] == 'g':
                    r |= s.labels(st, {l})
                else:
                    r.add(l)
            return frozenset(r)
        newf = [(l, sub(v)) for l, v in fl.items()]
        newo = []
        pt = [p["t"] for p in fn.p]
        for i, lab in out.items():
            if i >= len(n["a"]) or n["a"][i] is None:
                continue
            t = pt[i]
            if not (t.endswith(("*", "&", "]")) or "SmartPtr" in t) or (t.startswith("const ") and not t.endswith("* &")):
                continue
            newo.append((i, sub(lab)))
        r = sub(ret)
        for l, v in newf:
            if onthis or l[0] == 'g':
                st.env[l] = v
                st.pts.pop(l, None)
            elif o is not None:
                s.weak(st, s.place(st, o), v)
        for i, v in newo:
            pl = s.place(st, n["a"][i])
            if t.endswith("&") and n["a"][i]["k"] in ("ref", "mem"):
                s.overwrite(st, pl, v)
            else:
                s.overwrite(st, pl, v)
        return r

    # ------------------------------------------------------------ statements
    def body(s, fn):
        s.pidx = {p["id"]: i for i, p in enumerate(fn.p) if "id" in p}
        s.ret = []
        s.fnow = fn
        st = S()
        for i in fn.rec.get("inits", []):
            e = i.get("e")
            v = s.ev(st, e)
            if i.get("m"):
                if e is not None and s.pointerish(e.get("t", "")):
                    st.env[('f', i["m"])] = E
                    st.pts[('f', i["m"])] = s.target(st, e, v)
                else:
                    st.env[('f', i["m"])] = v
        s.rets = []
        saved = s.rets
        end = s.stmt(fn.body, st, {"b": [], "c": [], "r": saved})
        fin = s.join([end] + [x for x, v in saved])
        lab = frozenset().union(*[v for x, v in saved]) if saved else E
        return fin, lab

    def run(s, fn):
        s.stack.append(fn.u)
        r = s.body(fn)
        s.stack.pop()
        return r

    def stmt(s, n, st, K):
        """state after n (None: does not complete normally)"""
        if n is None or st is None:
            return st
        k = n["k"]
        if k == "seq":
            for c in n["s"]:
                st = s.stmt(c, st, K)
                if st is None:
                    # labels after a jump may still be reached
                    rest = n["s"][n["s"].index(c) + 1:]
                    if not any(x is not None and x["k"] in ("case", "default", "label") for x in rest):
                        return None
            return st
        if k == "decl":
            st = st.copy()
            for v in n["v"]:
                if "id" not in v:
                    continue
                l = ('v', v["id"])
                if v.get("i") is not None:
                    lab = s.ev(st, v["i"])
                    if s.pointerish(v["t"]):
                        st.env[l] = E
                        st.pts[l] = s.target(st, v["i"], lab)
                    else:
                        st.env[l] = lab
                        st.pts[l] = E
                else:
                    st.env[l] = E
                    st.pts[l] = E
            return st
        if k == "nop":
            return st
        if k == "label":
            return s.stmt(n["s"], st, K)
        if k == "goto":
            raise AnalysisError("goto in analysed function " + s.fnow.f)
        if k == "if":
            st = st.copy()
            if n.get("init"):
                st = s.stmt(n["init"], st, K)
            if n.get("cv"):
                st = s.stmt({"k": "decl", "v": [n["cv"]]}, st, K)
            s.ev(st, n["c"])
            a = s.stmt(n["t"], st.copy(), K)
            b = s.stmt(n["e"], st.copy(), K) if n.get("e") else st
            return s.join([a, b])
        if k in ("while", "do", "for", "rfor"):
            st = st.copy()
            if k == "for" and n.get("i"):
                st = s.stmt(n["i"], st, K)
            if k == "rfor":
                v = s.ev(st, n["r"])
                l = ('v', n["v"]["id"]) if "id" in n["v"] else None
                if l:
                    st.env[l] = v
                    st.pts[l] = frozenset(s.place(st, n["r"])) if s.pointerish(n["v"]["t"]) else E
            head = st
            outs = []
            for it in range(s.MAXIT):
                K2 = {"b": [], "c": [], "r": K["r"]}
                x = head.copy()
                if k in ("while", "for") and n.get("c") is not None:
                    s.ev(x, n["c"])
                if k != "do":
                    outs = [x.copy()]
                else:
                    outs = []
                e = s.stmt(n["b"], x, K2)
                e = s.join([e] + K2["c"])
                if e is not None:
                    e = e.copy()
                    if n.get("inc"):
                        s.ev(e, n["inc"])
                    if k == "do":
                        s.ev(e, n["c"])
                        outs.append(e)
                outs += K2["b"]
                nh = s.join([head, e])
                if nh == head:
                    break
                head = nh
            if k == "for" and n.get("c") is None or k == "while" and n["c"]["k"] in ("bool", "int") and n["c"]["v"]:
                outs = outs[1:]
            return s.join(outs)
        if k == "return":
            st = st.copy()
            v = s.ev(st, n["e"]) if n.get("e") is not None else E
            K["r"].append((st, v))
            return None
        if k == "break":
            K["b"].append(st)
            return None
        if k == "continue":
            K["c"].append(st)
            return None
        if k in ("case", "default"):
            return s.stmt(n.get("s"), st, K)
        if k == "switch":
            st = st.copy()
            s.ev(st, n["c"])
            K2 = {"b": [], "c": K["c"], "r": K["r"]}
            items = s.cases(n["b"])
            cur = None
            hasdef = False
            for lab, c in items:
                if lab:
                    cur = s.join([cur, st.copy()])
                    hasdef = hasdef or lab == "default"
                    continue
                cur = s.stmt(c, cur, K2) if cur is not None else None
            return s.join([cur] + K2["b"] + ([] if hasdef else [st]))
        if k == "try":
            st0 = st.copy()
            mid = []
            end = s.stmt(n["b"], st.copy(), K)
            outs = [end]
            # a handler starts from any state of the block: approximated by the join of its start and end
            hs = s.join([st0, end])
            for h in n["h"]:
                outs.append(s.stmt(h.get("b") or h.get("s"), hs.copy(), K))
            return s.join(outs)
        st = st.copy()
        s.ev(st, n)
        if k == "throw":
            return None
        return st

    def cases(s, b):
        out = []

        def go(x):
            while x is not None and x["k"] in ("case", "default"):
                out.append((x["k"], None))
                x = x.get("s")
            if x is not None:
                out.append((None, x))
        if b is None:
            return out
        for c in (b["s"] if b["k"] == "seq" else [b]):
            go(c)
        return out

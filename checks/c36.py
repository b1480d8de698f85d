"""C36: products with the elementary matrices and their row and column maxima equal their definitions."""
import itertools
from sa.elem import Elem, S, P, num, atom, fun, mx, GARBAGE, subst, show, single, agree, settle, uniform
from sa.db import AnalysisError
from checks.c31 import DV, V, final

MAT = "Ipopt::Matrix"
ROWS, COLS, NNZ = atom("sym", "rows"), atom("sym", "columns"), atom("sym", "nonzeros")
RULES = {
    "R1": "a matrix-vector product (or the combined operations built on it) adds exactly alpha times entry times operand for every entry at its row, and keeps beta times the old result",
    "R2": "row and column maxima are the largest absolute entries, and keep what they are combined with",
}
DIMNAMES = {"NRows": ROWS, "NCols": COLS, "Nonzeros": NNZ}
INDEX = {"Irows": "irow", "Jcols": "jcol", "ExpandedPosIndices": "pos"}
OLD = atom("old")


class Mat(Elem):
    def __init__(s, m, cls, square):
        Elem.__init__(s, m, DV, V, (cls, MAT, "Ipopt::SymMatrix"))
        s.mat = cls
        s.square = square
        s.dims = {ROWS, COLS, NNZ}

    def dim(s, what):
        return ROWS if s.square and what == COLS else what

    def call1(s, t, n, b, vs, o, d):
        if isinstance(o, tuple) and o[0] == "obj" and o[1] == "mat" or isinstance(o, tuple) and o[0] == "field" and o[1] == ("obj", "mat"):
            if b in DIMNAMES:
                return [(t, s.dim(DIMNAMES[b]))]
            if b == "Dim":
                return [(t, ROWS)]
            if b in INDEX:
                return [(t, ("arr", "i" + INDEX[b], num(0)))]
            f = (s.fns.get((s.mat, b, len(vs))) if o[0] == "obj" else None) or s.fns.get((MAT, b, len(vs))) or s.fns.get(("Ipopt::SymMatrix", b, len(vs)))
            if f and o[0] == "obj":
                q = n.get("f", "").rsplit("::", 1)[0]
                if not n.get("virt") and (q, b, len(vs)) in s.fns:
                    f = s.fns[(q, b, len(vs))]
                return s.call(t, f, o, vs, d + 1)
        if b in ("MakeNew", "MakeNewCopy", "MakeNewDenseVector") and isinstance(o, tuple) and o[0] == "obj":
            t = t.copy()
            s.n += 1
            c = ("obj", "tmp%d" % s.n)
            for k in ("initialized_", "homogeneous_"):
                t.fld[(c, k)] = False
            t.fld[(c, "scalar_")] = GARBAGE
            t.fld[(c, "values_")] = t.fld[(c, "expanded_values_")] = None
            t.fld[(c, "#dim")] = t.fld[(o, "#dim")]
            if b == "MakeNewCopy":
                return [(u, c) for u, _ in s.call(t, s.fns[(DV, "CopyImpl", 1)], c, [o], d + 1)]
            return [(t, c)]
        return Elem.call1(s, t, n, b, vs, o, d)

    def scatter(s, t, lv, v):
        """a store at the position an index array gives"""
        if t.fld.get("#loop") is None or ("bad", lv[1]) in t.arr or not any(a[0] == "el" for a in lv[2].atoms()):
            return False
        e = t.arr.get(lv[1], GARBAGE)
        base, log = t.arr.get(("log", lv[1]), (e, ()))
        me = atom("element", e, lv[2]) if not uniform(e) else None
        w = subst(v, {single(me): OLD}) if me is not None else subst_el(v, e) if has_ext(v) else \
            v - e + OLD if all(v.d.get(k) for k in e.d) else v
        t.arr[("log", lv[1])] = (base, log + ((lv[2], w),))
        return True


def has_ext(v):
    return any(a[0] in ("max", "min") for a in v.atoms())


def subst_el(v, e):
    """Max/Min with a number that all elements have: that number is the old element"""
    a = single(v)
    return mx(a[0], *[OLD if x == e else x for x in a[1]]) if a[0] in ("max", "min") else v


def setup(el, f, vecs, own, forms):
    """vecs: parameter index -> dimension"""
    st = S()
    mat = ("obj", "mat")
    for x in (ROWS, COLS, NNZ):
        st.sg[x] = {0, 1}
    st.arr["avalues"] = atom("el", "entry")
    el.adim["avalues"] = NNZ
    for i in INDEX.values():
        st.arr["i" + i] = atom("el", i)
        el.adim["i" + i] = NNZ if i != "pos" else COLS
    st.fld[(mat, "initialized_")] = True
    st.fld[(mat, "values_")] = ("arr", "avalues", num(0))
    st.fld[(mat, "factor_")] = atom("sym", "factor")

    def make(name, form, dim):
        o = ("obj", name)
        st.fld[(o, "#dim")] = el.dim(dim)
        el.adim["a" + name] = el.dim(dim)
        st.fld[(o, "initialized_")] = True
        st.fld[(o, "homogeneous_")] = form != "arr"
        st.fld[(o, "scalar_")] = atom("scal", name) if form != "arr" else GARBAGE
        st.fld[(o, "expanded_values_")] = None
        st.fld[(o, "values_")] = None if form == "hom" else ("arr", "a" + name, num(0))
        if form != "hom":
            st.arr["a" + name] = atom("el", name) if form == "arr" else GARBAGE
        return o, atom("el" if form == "arr" else "scal", name)
    diag, dv = make("diag", own, ROWS)
    st.fld[(mat, "diag_")] = diag
    args, vals = [], {}
    forms = iter(forms)
    for i, p in enumerate(f.p):
        if i in vecs:
            o, x = make(p["n"], next(forms), vecs[i])
            args.append(o)
            vals[i] = x
        else:
            args.append(atom("sym", "p%d" % i))
            vals[i] = args[-1]
    return st, mat, args, vals, dv


def at(x, i):
    """the element of a vector at a position"""
    return x if uniform(x) else atom("element", x, i)


# class -> (square, own vector?, operations); operation -> (dims of vector parameters, result parameter, rule, expected(st, v, d) -> (base, [(index, new value)]))
def table():
    I, J, E, A = (atom("el", x) for x in ("irow", "jcol", "pos", "entry"))
    r, c = {1: COLS, 3: ROWS}, {1: ROWS, 3: COLS}
    T = {}
    one = num(1)
    T["Ipopt::GenTMatrix"] = (False, False, {
        "MultVectorImpl": (r, 3, lambda st, v, d: (v[2] * v[3], [(I - 1, OLD + v[0] * A * at(v[1], J - 1))])),
        "TransMultVectorImpl": (c, 3, lambda st, v, d: (v[2] * v[3], [(J - 1, OLD + v[0] * A * at(v[1], I - 1))])),
        "ComputeRowAMaxImpl": ({0: ROWS}, 0, lambda st, v, d: (v[0], [(I - 1, mx("max", OLD, fun("abs", A)))])),
        "ComputeColAMaxImpl": ({0: COLS}, 0, lambda st, v, d: (v[0], [(J - 1, mx("max", OLD, fun("abs", A)))])),
    })
    T["Ipopt::SymTMatrix"] = (True, False, {
        "MultVectorImpl": ({1: ROWS, 3: ROWS}, 3, lambda st, v, d: (v[2] * v[3], [(I - 1, OLD + v[0] * A * at(v[1], J - 1))] + (
            [] if st.sign(I - J)[0] == {0} else [(J - 1, OLD + v[0] * A * at(v[1], I - 1))]))),
        "ComputeRowAMaxImpl": ({0: ROWS}, 0, lambda st, v, d: (v[0], [(I - 1, mx("max", OLD, fun("abs", A))), (J - 1, mx("max", OLD, fun("abs", A)))])),
    })
    T["Ipopt::ExpansionMatrix"] = (False, False, {
        "MultVectorImpl": (r, 3, lambda st, v, d: (v[2] * v[3], [(E, OLD + v[0] * v[1])])),
        "TransMultVectorImpl": (c, 3, lambda st, v, d: (v[2] * v[3] + v[0] * at(v[1], E), [])),
        "AddMSinvZImpl": ({1: COLS, 2: COLS, 3: ROWS}, 3, lambda st, v, d: (v[3], [(E, OLD + v[0] * v[2] / v[1])])),
        "SinvBlrmZMTdBrImpl": ({1: COLS, 2: COLS, 3: COLS, 4: ROWS, 5: COLS}, 5, lambda st, v, d: ((v[2] + v[0] * v[3] * at(v[4], E)) / v[1], [])),
        "ComputeRowAMaxImpl": ({0: ROWS}, 0, lambda st, v, d: (v[0], [(E, mx("max", OLD, one))])),
        "ComputeColAMaxImpl": ({0: COLS}, 0, lambda st, v, d: (mx("max", v[0], one), [])),
    })
    sq = {1: ROWS, 3: ROWS}
    for cl, own in (("Ipopt::DiagMatrix", True), ("Ipopt::IdentityMatrix", False)):
        def entry(st, d, own=own):
            return d if own else atom("sym", "factor")
        T[cl] = (True, own, {
            "MultVectorImpl": (sq, 3, lambda st, v, d, e=entry: (v[2] * v[3] + v[0] * e(st, d) * v[1], [])),
            "ComputeRowAMaxImpl": ({0: ROWS}, 0, lambda st, v, d, e=entry: (mx("max", v[0], fun("abs", e(st, d))), [])),
            "AddMSinvZImpl": ({1: ROWS, 2: ROWS, 3: ROWS}, 3, lambda st, v, d, e=entry: (v[3] + v[0] * e(st, d) * v[2] / v[1], [])),
            "SinvBlrmZMTdBrImpl": ({1: ROWS, 2: ROWS, 3: ROWS, 4: ROWS, 5: ROWS}, 5, lambda st, v, d, e=entry: ((v[2] + v[0] * v[3] * e(st, d) * v[4]) / v[1], [])),
        })
    return T


def judge(st, el, o, want):
    """None or what is wrong with the result vector"""
    base, entries = want
    h = st.fld[(o, "homogeneous_")]
    log = ()
    got = final(st, o)
    if h is False:
        a = st.fld[(o, "values_")]
        if isinstance(a, tuple) and ("log", a[1]) in st.arr:
            x = st.arr[("log", a[1])]
            if not isinstance(x, tuple):
                return "elements become %s" % show(x)
            if x[0] != st.arr.get(a[1]):
                return "the result is changed again after the entries were added"
            log = x[1]
    if not agree(st, got, st.n(base)):
        return "elements start from %s instead of %s" % (show(got), show(st.n(base)))

    def norm(es):
        out = []
        for i, v in es:
            out.append((st.n(i), settle(st, st.n(v))))
        if all(has_ext(v) for _, v in out):
            out = set(out)
        return sorted(out, key=repr)
    got, ex = norm(log), norm(entries)
    missing = [x for x in ex if x not in got]
    extra = [x for x in got if x not in ex]
    # an update left out, or written as plain assignment, because the comparison is known
    for x in list(missing):
        i, v = x
        a = single(v)
        if a[0] == "max" and len(a[1]) == 2 and OLD in a[1]:
            (f,) = a[1] - {OLD}
            cur = at(st.n(st.arr[st.fld[(o, "values_")][1]]), i)
            sg = st.sign(f - cur)[0]
            if sg <= {-1, 0}:
                missing.remove(x)
            elif sg <= {0, 1} and (i, f) in extra:
                missing.remove(x)
                extra.remove((i, f))
    for x in list(missing):
        y = [z for z in extra if z[0] == x[0] and agree(st, z[1], x[1])]
        if y or agree(st, x[1], OLD):
            missing.remove(x)
            if y:
                extra.remove(y[0])
    extra = [x for x in extra if not agree(st, x[1], OLD)]
    if missing or extra or len(got) != len(ex) and not (len(got) < len(ex) and not missing):
        sh = lambda es: "; ".join("element %s becomes %s" % (show(i), show(v)) for i, v in es) or "nothing"
        return "for each entry: %s instead of %s" % (sh(extra or got), sh(missing or ex))
    return None


def run(m, r):
    for k, t in RULES.items():
        r.rule(k, t)
    seen = set()
    for cl, (square, own, ops) in table().items():
        for name, (vecs, res, want) in ops.items():
            el = Mat(m, cl, square)
            n = len(vecs) + sum(1 for f in [0])
            fs = [f for (c, nm, k), f in el.fns.items() if c == cl and nm == name] or [f for (c, nm, k), f in el.fns.items() if c == MAT and nm == name]
            if len(fs) != 1:
                raise AnalysisError("%s::%s not found" % (cl, name))
            f = fs[0]
            short = cl.split("::")[-1]
            combos = list(itertools.product(("hom", "arr"), repeat=len(vecs)))
            for of in (("hom", "arr") if own else ("hom",)):
                for forms in combos:
                    for init in ((True, False) if name.startswith("Compute") else (None,)):
                        what = "%s::%s with %s%s%s" % (short, name, ", ".join("%s %s" % (f.p[i]["n"] or "vector", x) for i, x in zip(sorted(vecs), forms)),
                                                     "" if not own else ", diagonal " + of, "" if init is None else ", starting anew" if init else ", combined with other maxima")
                        what = what.replace(" hom", " homogeneous").replace(" arr", " array")
                        st, mat, args, vals, dv = setup(el, f, vecs, of, forms)
                        if init is not None:
                            args[1] = init
                            if init:
                                if forms[0] == "arr":
                                    continue
                                st.fld[(args[0], "scalar_")] = vals[0] = atom("sym", "zero")
                                st.sg[vals[0]] = {0}
                            else:
                                # maxima so far are not negative
                                vals[0] = fun("abs", vals[0])
                                if forms[0] == "arr":
                                    st.arr["a" + args[0][1]] = vals[0]
                                else:
                                    st.fld[(args[0], "scalar_")] = vals[0]
                        bad, paths = None, 0
                        for t, v in el.call(st, f, mat, args):
                            if any(t.sign(x)[0] == {0} for x in (ROWS, COLS, NNZ)):
                                continue
                            paths += 1
                            ts = [t]
                            if cl == "Ipopt::SymTMatrix":
                                # entries on and off the diagonal
                                ts = [x for x in (t.restrict(atom("el", "irow") - atom("el", "jcol"), sg, None) for sg in ({0}, {-1, 1})) if x is not None]
                            p = next((x for x in (judge(u, el, args[res], want(u, vals, dv)) for u in ts) if x), None)
                            for i in vecs:
                                if i != res and not p and not agree(t, final(t, args[i]), t.n(vals[i])):
                                    p = "the operand %s changes" % f.p[i]["n"]
                            if p:
                                bad = bad or (p, t)
                        if not paths:
                            raise AnalysisError("%s: no path" % what)
                        r.check(not bad, "R2" if init is not None else "R1", what, "%s:%d" % (f.file, f.l), "%s: %s" % (what, bad[0]) if bad else "%d paths" % paths,
                                ["%s:%d condition is %s" % x for x in bad[1].trace] if bad else None)
            seen |= el.seen
    r.analysed(sorted(seen, key=lambda f: f.f))
    r.floor("R1", 40, "products and combined operations")
    r.floor("R2", 8, "row and column maxima")

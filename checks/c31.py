"""C31: operations on dense vectors mean the same in both storage forms and for every factor."""
import itertools
from sa.elem import Elem, S, P, num, atom, fun, mx, total, GARBAGE, subst, show, extreme, agree
from sa.db import AnalysisError

DV, V = "Ipopt::DenseVector", "Ipopt::Vector"
DIM = atom("sym", "dim")
RULES = {
    "R1": "an operation that changes a vector gives every element its documented new value, whichever storage forms the operands have and whatever the factors are",
    "R2": "a value computed from a vector is the documented one over all its elements, whichever storage forms the operands have",
    "R4": "an array handed out or taken holds exactly the vector's elements, whichever its storage form",
    "R3": "an operation on a compound vector is the same operation on each of its parts, with the matching parts of the other vectors, and its value is that of all parts together",
}


def pick(st, p, neg, zero, pos):
    """value by the sign of p, as far as it is known"""
    sg = st.sign(p)[0]
    r = {{-1: neg, 0: zero, 1: pos}[x] for x in sg}
    return r


def spec():
    """name -> (parameters, expected(st, e, args) -> set of terms); parameters: v vector, n number"""
    one = lambda t: {t}
    W = {
        "CopyImpl": ("v", lambda st, e, x: one(x)),
        "ScalImpl": ("n", lambda st, e, a: one(a * e)),
        "AxpyImpl": ("nv", lambda st, e, a, x: one(e + a * x)),
        "SetImpl": ("n", lambda st, e, a: one(a)),
        "ElementWiseDivideImpl": ("v", lambda st, e, x: one(e / x)),
        "ElementWiseMultiplyImpl": ("v", lambda st, e, x: one(e * x)),
        "ElementWiseSelectImpl": ("v", lambda st, e, x: pick(st, e, -x, num(0), x)),
        "ElementWiseMaxImpl": ("v", lambda st, e, x: one(mx("max", e, x))),
        "ElementWiseMinImpl": ("v", lambda st, e, x: one(mx("min", e, x))),
        "ElementWiseReciprocalImpl": ("", lambda st, e: one(num(1) / e)),
        "ElementWiseAbsImpl": ("", lambda st, e: one(fun("abs", e))),
        "ElementWiseSqrtImpl": ("", lambda st, e: one(fun("sqrt", e))),
        "ElementWiseSgnImpl": ("", lambda st, e: pick(st, e, num(-1), num(0), num(1))),
        "AddScalarImpl": ("n", lambda st, e, a: one(e + a)),
        "AddTwoVectorsImpl": ("nvnvn", lambda st, e, a, x, b, y, c: one(a * x + b * y + c * e)),
        "AddVectorQuotientImpl": ("nvvn", lambda st, e, a, z, s, c: one(a * z / s + c * e)),
        "set_values_from_scalar": ("", lambda st, e: one(e)),
    }

    def ext(kind, x):
        return x if ishom(x) else extreme(kind, atom("first", x), [(frozenset(), x)], 0)

    def frac(st, e, x, tau):
        v = -tau / x * e
        if ishom(x):
            r = v if ishom(e) else atom("over", "min", frozenset(), v)
            sg = st.sign(x)[0]
            return {mx("min", num(1), r) if s == -1 else num(1) for s in sg}
        q = st.sign(x)[1]
        return {mx("min", num(1), atom("over", "min", frozenset({(q, frozenset({-1}))}), v))}
    R = {
        "DotImpl": ("v", lambda st, e, x: one(total(e * x))),
        "Nrm2Impl": ("", lambda st, e: {fun("sqrt", total(e * e)), fun("sqrt", DIM) * fun("abs", e)} if ishom(e) else one(fun("sqrt", total(e * e)))),
        "AsumImpl": ("", lambda st, e: one(total(fun("abs", e)))),
        "AmaxImpl": ("", lambda st, e: one(fun("abs", e)) if ishom(e) else {fun("abs", atom("largest", e)), mx("max", num(0), atom("over", "max", frozenset(), fun("abs", e))), atom("over", "max", frozenset(), fun("abs", e))}),
        "MaxImpl": ("", lambda st, e: one(ext("max", e))),
        "MinImpl": ("", lambda st, e: one(ext("min", e))),
        "SumImpl": ("", lambda st, e: one(total(e))),
        "SumLogsImpl": ("", lambda st, e: one(total(fun("log", e)))),
        "FracToBoundImpl": ("vn", frac),
    }
    return W, R


def ishom(p):
    return all(a[0] != "el" for a in p.atoms())


def scenarios(kinds):
    """storage forms of this vector and its vector arguments; whether an argument is the vector itself"""
    vs = [i for i, k in enumerate(kinds) if k == "v"]
    for own in ("hom", "hom+", "arr"):
        for forms in itertools.product(("hom", "arr"), repeat=len(vs)):
            yield own, forms, False
        if len(vs) == 1:
            yield own, ("same",), True


def setup(el, f, kinds, own, forms):
    st = S()
    objs = {}

    def make(name, form):
        o = ("obj", name)
        st.fld[(o, "initialized_")] = True
        st.fld[(o, "homogeneous_")] = form != "arr"
        st.fld[(o, "scalar_")] = atom("scal", name) if form != "arr" else GARBAGE
        st.fld[(o, "expanded_values_")] = None
        if form == "hom":
            st.fld[(o, "values_")] = None
        else:
            st.arr["a" + name] = atom("el", name) if form == "arr" else GARBAGE
            st.fld[(o, "values_")] = ("arr", "a" + name, num(0))
        return o, atom("el" if form == "arr" else "scal", name)
    this, e = make("this", own)
    args, vals, fi = [], [], iter(forms)
    for p, k in zip(f.p, kinds):
        if k == "v":
            form = next(fi)
            o, x = (this, e) if form == "same" else make(p["n"], form)
            args.append(o)
            vals.append(x)
        else:
            args.append(atom("sym", p["n"]))
            vals.append(args[-1])
    st.sg[DIM] = {0, 1}
    return st, this, e, args, vals


def final(st, this):
    if st.fld.get((this, "initialized_")) is not True:
        return atom("not marked as initialized")
    h = st.fld[(this, "homogeneous_")]
    if h is True:
        return st.n(st.fld[(this, "scalar_")])
    a = st.fld[(this, "values_")]
    if not isinstance(a, tuple):
        return atom("no values")
    return st.n(st.arr.get(a[1], GARBAGE))


def parts(el, r):
    """copying a vector into or out of a part of another one"""
    for name, to in (("CopyToPos", True), ("CopyFromPos", False)):
        f = el.fns.get((DV, name, 2))
        if f is None:
            raise AnalysisError("%s::%s not found" % (DV, name))
        for own in ("hom", "hom+", "arr"):
            for form in ("hom", "arr"):
                st, this, e, args, vals = setup(el, f, "nv", own, (form,))
                pos, x = vals
                dx = atom("sym", "dim_x")
                st.fld[(args[1], "#dim")] = dx
                bad = None
                what = "%s: this %s, %s" % (name, {"hom": "homogeneous", "hom+": "homogeneous with memory", "arr": "array"}[own], {"hom": "homogeneous", "arr": "array"}[form])
                for t, v in el.call(st, f, this, args):
                    if t.sign(DIM)[0] == {0}:
                        continue
                    if to:
                        rest = final(t, this)
                        a = t.fld[(this, "values_")]
                        got = t.arr.get((a[1], "part", pos, dx)) if isinstance(a, tuple) else None
                        if not agree(t, rest, t.n(e)):
                            bad = bad or ("the other elements become", rest, e, t)
                        if got is None or not agree(t, t.n(got), t.n(x)):
                            bad = bad or ("the part becomes", got, x, t)
                    else:
                        got, ex = final(t, this), x if ishom(x) else atom("part", x, pos)
                        if not agree(t, got, t.n(ex)):
                            bad = bad or ("the vector becomes", got, ex, t)
                r.check(not bad, "R1", what, "%s:%d" % (f.file, f.l), "%s: %s %s instead of %s" % (what, bad[0], show(bad[1]), show(bad[2])) if bad else "",
                        ["%s:%d condition is %s" % x for x in bad[3].trace] if bad else None)


def access(el, r):
    """arrays handed out hold the vector's elements, whatever its storage form"""
    fs = [f for f in el.m.fns.values() if f.c == DV and f.body and f.name() in ("Values", "ExpandedValues", "SetValues")]
    for f in sorted(fs, key=lambda f: (f.file, f.l)):
        const = "const" in f.rt
        for own in ("hom", "hom+", "arr"):
            if f.name() == "Values" and const and own != "arr":
                continue        # documented as not allowed
            for again in ((False, True) if f.name() == "ExpandedValues" and const else (False,)):
                what = "%s%s: this %s%s" % (f.name(), " const" if const else "", {"hom": "homogeneous", "hom+": "homogeneous with memory", "arr": "array"}[own], ", again" if again else "")
                st, this, e, args, vals = setup(el, f, "n" * len(f.p), own, ())
                if again:
                    st.arr["old"] = GARBAGE
                    st.fld[(this, "expanded_values_")] = ("arr", "old", num(0))
                want = e
                if f.p:
                    st.arr["given"] = want = atom("el", "given")
                    args = [("arr", "given", num(0))]
                bad = None
                for t, v in el.call(st, f, this, args):
                    if t.sign(DIM)[0] == {0}:
                        continue
                    got = final(t, this)
                    if not agree(t, got, t.n(want)):
                        bad = bad or ("the elements become", got, want, t)
                    if not f.p:
                        got = t.arr.get(v[1], GARBAGE) if isinstance(v, tuple) and v[0] == "arr" and v[2] == num(0) else atom("no array")
                        if not agree(t, t.n(got), t.n(want)):
                            bad = bad or ("the array returned holds", got, want, t)
                        if not const and (v != t.fld[(this, "values_")] or t.fld[(this, "homogeneous_")] is not False):
                            bad = bad or ("the array returned", atom("is not the vector's own"), want, t)
                r.check(not bad, "R4", what, "%s:%d" % (f.file, f.l), "%s: %s %s instead of %s" % (what, bad[0], show(bad[1]), show(bad[2])) if bad else "",
                        ["%s:%d condition is %s" % x for x in bad[3].trace] if bad else None)


class Parts(Elem):
    """compound vectors: the parts play the role of the elements"""

    def call1(s, t, n, b, vs, o, d):
        if b == "NComps":
            return [(t, DIM)]
        if b in ("Comp", "ConstComp", "GetComp", "GetCompNonConst") and len(vs) == 1:
            return [(t, ("obj", "part" if vs[0] == atom("idx") else "wrong part", o))]
        if b == "operator[]" and isinstance(o, tuple) and o[0] == "field" and o[2] in ("comps_", "const_comps_"):
            # only one of the two lists holds the part
            return [(t, ("obj", "part" if o[2] == "comps_" and vs[0] == atom("idx") else "wrong part", o[1]))]
        if isinstance(o, tuple) and o[0] == "obj" and len(o) == 3:
            e = t.arr["a" + o[2][1]] if o[1] == "part" else atom("wrong part")
            xs = [(t.arr["a" + v[2][1]] if v[1] == "part" else atom("wrong part")) if isinstance(v, tuple) and v[0] == "obj" and len(v) == 3 else v for v in vs]
            if b.startswith("operator"):
                return [(t, o)]
            if b == "Dim":
                return [(t, atom("abs", atom("res", "Dim", e)))]
            if b in CHANGING:
                t = t.copy()
                t.arr["a" + o[2][1]] = atom("app", b, e, *xs)
                return [(t, None)]
            return [(t, atom("res", b, e, *xs))]
        return Elem.call1(s, t, n, b, vs, o, d)


CHANGING = {"Copy", "Scal", "Axpy", "Set", "ElementWiseDivide", "ElementWiseMultiply", "ElementWiseSelect", "ElementWiseMax", "ElementWiseMin", "ElementWiseReciprocal",
            "ElementWiseAbs", "ElementWiseSqrt", "ElementWiseSgn", "AddScalar", "AddTwoVectors", "AddVectorQuotient", "AddOneVector"}
CV = "Ipopt::CompoundVector"


def compound(m, r):
    el = Parts(m, CV, V)
    W, R = spec()
    for name, (kinds, _) in list(W.items()) + list(R.items()):
        if not name.endswith("Impl"):
            continue
        f = el.fns.get((CV, name, len(kinds)))
        if f is None:
            raise AnalysisError("%s::%s not found" % (CV, name))
        st, this, e, args, vals = setup(el, f, kinds, "arr", ("arr",) * kinds.count("v"))
        b = name[:-4]
        res = atom("res", b, e, *vals)

        def over(kind, init):
            c = st.sign(atom("abs", atom("res", "Dim", e)))[1]
            return {mx(kind, init, atom("over", kind, k, res)) for k in (frozenset(), frozenset({(c, frozenset({1}))}))}
        big = atom("sym", "largest number")
        ex = {"Nrm2": lambda: {fun("sqrt", total(res * res))}, "Amax": lambda: over("max", num(0)), "Max": lambda: over("max", -big), "Min": lambda: over("min", big),
              "FracToBound": lambda: over("min", num(1))}.get(b, lambda: {total(res)})()
        bad, paths = None, 0
        for t, v in el.call(st, f, this, args):
            if t.sign(DIM)[0] == {0}:
                continue
            paths += 1
            got = t.arr["athis"]
            if name in W:
                x = atom("app", b, e, *vals)
                if got != x:
                    bad = bad or ("its parts become", got, {x}, t)
            else:
                if got != e:
                    bad = bad or ("its parts become", got, {e}, t)
                if not any(agree(t, v, x) for x in ex):
                    bad = bad or ("is", v, ex, t)
        if not paths:
            raise AnalysisError("%s: no path" % f.f)
        r.check(not bad, "R3", b, "%s:%d" % (f.file, f.l), "%s of a compound vector: %s %s instead of %s" % (b, bad[0], show(bad[1]), " or ".join(show(x) for x in bad[2])) if bad else "%d paths" % paths,
                ["%s:%d condition is %s" % x for x in bad[3].trace] if bad else None)
    r.analysed(sorted(el.seen, key=lambda f: f.f))


def run(m, r):
    for k, t in RULES.items():
        r.rule(k, t)
    el = Elem(m, DV, V)
    W, R = spec()
    for rule, table in (("R1", W), ("R2", R)):
        for name, (kinds, want) in table.items():
            f = el.fns.get((DV, name, len(kinds)))
            if f is None:
                raise AnalysisError("%s::%s not found" % (DV, name))
            n = 0
            for own, forms, same in scenarios(kinds):
                if name == "set_values_from_scalar" and own == "arr":
                    continue
                what = "%s: this %s%s" % (name, {"hom": "homogeneous", "hom+": "homogeneous with memory", "arr": "array"}[own],
                                          ", " + ", ".join({"hom": "homogeneous", "arr": "array", "same": "the vector itself"}[x] for x in forms) if forms else "")
                st, this, e, args, vals = setup(el, f, kinds, own, forms)
                bad, paths = None, 0
                for t, v in el.call(st, f, this, args):
                    if t.sign(DIM)[0] == {0}:
                        continue        # no elements
                    paths += 1
                    got = final(t, this) if rule == "R1" else t.n(v)
                    ex = {t.n(x) for x in want(t, t.n(e), *[t.n(x) for x in vals])}
                    if not ((all if rule == "R1" else any)(agree(t, got, x) for x in ex)):
                        bad = bad or ("becomes" if rule == "R1" else "is", got, ex, t)
                    if rule == "R2" and not agree(t, final(t, this), t.n(e)):
                        bad = bad or ("changes to", final(t, this), {t.n(e)}, t)
                if not paths:
                    raise AnalysisError("%s: no path" % what)
                n += paths
                r.check(not bad, rule, what, "%s:%d" % (f.file, f.l),
                        "%s: %s %s instead of %s" % (what, bad[0], show(bad[1]), " or ".join(show(x) for x in bad[2])) if bad else "%d paths" % paths,
                        ["%s:%d condition is %s" % x for x in bad[3].trace] if bad else None)
    parts(el, r)
    access(el, r)
    r.floor("R4", 5, "ways to get at the elements")
    compound(m, r)
    r.floor("R3", 12, "operations of compound vectors")
    r.analysed(sorted(el.seen, key=lambda f: f.f))
    r.floor("R1", 60, "operations in their storage forms")
    r.floor("R2", 15, "values in their storage forms")

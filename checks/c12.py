"""C12: options are validated before they are stored, found again, and never silently replaced."""
from checks.c05_obs import Obs
from sa.guards import engine, short
from sa.db import AnalysisError

OL, RO, RG = "Ipopt::OptionsList", "Ipopt::RegisteredOption", "Ipopt::RegisteredOptions"
PURE = {"lowercase", "GetOption", "Type", "IsValidStringSetting", "IsValidNumberSetting", "IsValidIntegerSetting", "will_allow_clobber", "MapStringSetting",
        "MapStringSettingToEnum", "DefaultString", "DefaultStringAsEnum", "DefaultNumber", "DefaultInteger", "GetValue", "AllowClobber", "string_equal_insensitive",
        "operator+", "c_str", "rfind", "substr", "length", "size", "find", "end", "begin", "Counter", "Name", "toupper", "tolower", "isspace", "empty", "ConstPtr"}
LOG = {"SetStringValue", "SetNumericValue", "SetIntegerValue", "GetStringValue", "GetNumericValue", "GetIntegerValue", "erase", "find_tag", "push_back", "insert", "AddValidStringSetting", "AddOption",
       "SetType", "SetDefaultString", "SetDefaultNumber", "SetDefaultInteger", "SetLowerNumber", "SetUpperNumber", "SetLowerInteger", "SetUpperInteger"}


class Opt(Obs):
    pure, logged, through = PURE, LOG, frozenset()

    def on_call(s, eng, st, n, fns, obj, args):
        b = short(n)
        if n["k"] == "ctor":
            t = n.get("t", "")
            if "basic_string" in t:
                if len(n["a"]) >= 1 and args:
                    return [(st, s.val(eng, st, args[0]))]
                return [(st, ('e', 'pure', ('c', 'text'), ('c', '')))]
            if "OptionValue" in t:
                if len(args) == 1 and "OptionValue" in n["a"][0].get("t", ""):
                    return [(st, s.val(eng, st, args[0]))]
                return [(st, ('e', 'pure', ('c', 'OptionValue')) + tuple(s.val(eng, st, a) for a in args))]
        if n["k"] == "call" and b not in s.through:
            if b in ("Printf", "OutputDescription", "OutputShortDescription"):
                return [(st, ('void',))]
            if b == "Snprintf" and len(args) >= 4:
                lv = args[0][1] if args[0][0] == '&' else ('d', args[0])
                v = ('e', 'pure', ('c', 'text'), s.val(eng, st, args[2]), s.val(eng, st, args[3]))
                return [(s.put(eng.write(st, lv, v, n), ('buf',), v), ('c', 1))]
            if b in s.logged and not (b == "erase" and len(args) == 0):
                st = s.log(st, (b, s.val(eng, st, obj) if obj is not None else None) + tuple(s.val(eng, st, a) for a in args))
                return [(st, ('e', 'pure', ('c', b)) + tuple(s.val(eng, st, a) for a in args))]
            if b == "operator[]" and obj is not None and "OptionValue" in n.get("t", "") + str(n.get("f")):
                return [(st, ('&', ('x', ('&', s.base(eng, st, obj)), s.val(eng, st, args[0]))))]
            if b == "operator=" and obj is not None and len(args) == 1 and ("basic_string" in n.get("f", "") or "OptionValue" in n.get("f", "") or "iterator" in n.get("t", "")):
                lv = obj[1] if obj[0] in ('&', 'r') else obj
                v = s.val(eng, st, args[0])
                if "OptionValue" in n.get("f", ""):
                    st = s.log(st, ("store", lv, v))
                return [(eng.write(st, lv, v, n), obj)]
            if b in s.pure:
                o = (s.val(eng, st, obj),) if obj is not None else ()
                return [(st, ('e', 'pure', ('c', b)) + o + tuple(s.val(eng, st, a) for a in args))]
            if b in ("operator!=", "operator==") and "basic_string" in str(n.get("f")) + str(n["a"][0].get("t")) and "iterator" not in str(n["a"][0].get("t")):
                a = [s.val(eng, st, x) for x in ([obj] if obj is not None else []) + list(args)]
                if len(a) == 2:
                    return [(st, ('e', b[8:], a[0], a[1]))]
        return super().on_call(eng, st, n, fns, obj, args)


def runs(m, f, through=(), cap=400, logged=None):
    cl = Opt(m, opaque=lambda n: False)
    cl.keep, cl.consts, cl.through = (), set(), frozenset(through)
    if logged is not None:
        cl.logged = logged
    eng = engine(m, cl, cap)
    eng.termdepth = 60
    rets, thrown = eng.run(f, frozenset())
    return [(st, eng.norm(st, v), dict(st.prop).get(('log',), ()), cl.factterms(eng, st), eng, cl) for st, v in rets]


def one(m, q):
    l = [f for f in m.fns.values() if f.f == q and f.body is not None]
    if len(l) != 1:
        raise AnalysisError("%s not found" % q)
    return l[0]


# ------------------------------------------------------------------ terms
def pure(t, name):
    return isinstance(t, tuple) and t[:2] == ('e', 'pure') and t[2] == ('c', name)


def P(n):
    return ('r', ('p', n))


def fld(t):
    """name of the field of this object that a term reads"""
    while isinstance(t, tuple) and t and t[0] in ('&', 'r'):
        t = t[1]
    return t[2].rsplit("::", 1)[-1] if isinstance(t, tuple) and t and t[0] == 'f' and t[1] == ('this',) else None


def has(fs, op, a, b=None):
    """some fact (op a b), a and b predicates or terms; the operands may be swapped"""
    def ok(p, t):
        return p(t) if callable(p) else p == t
    flip = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}
    return any(o == op and ok(a, x) and ok(b, y) or flip.get(o, o) == op and ok(a, y) and ok(b, x) for o, x, y in fs)


ZERO = ('c', 0)


def true(fs, p):
    return has(fs, '!=', p, ZERO)


def false(fs, p):
    return has(fs, '==', p, ZERO)


def registered(t):
    """the registered option of name tag"""
    return pure(t, "GetOption") and fld(t[3]) == "reg_options_" and t[-1] == P("tag")


def typed(fs, code):
    return has(fs, '==', lambda t: pure(t, "Type") and registered(t[3]), ('c', code))


def known(fs):
    return false(fs, lambda t: fld(t) == "reg_options_") or true(fs, registered)


def unreg(fs):
    return false(fs, lambda t: fld(t) == "reg_options_")


def key(t, p):
    while t[0] in ('&', 'r', 'd') and not pure(t, "lowercase") and isinstance(t[1], tuple):
        t = t[1]
    return pure(t, "lowercase") and t[-1] == p


def stored(x):
    """(key, text, allow_clobber, dont_print) of a logged store"""
    lv, v = x[1], x[2]
    if lv[0] == 'x' and fld(lv[1]) == "options_" and pure(v, "OptionValue") and len(v) == 6:
        return lv[2], v[3], v[4], v[5]


def path(st):
    return st.path()


KINDS = {"String": (2, "IsValidStringSetting"), "Numeric": (0, "IsValidNumberSetting"), "Integer": (1, "IsValidIntegerSetting")}


def setters(m, r, seen):
    for k, (code, valid) in KINDS.items():
        f = one(m, OL + "::Set%sValue" % k)
        seen.append(f)
        where = f.at()
        nm = f.name()
        n = 0
        for st, v, log, fs, eng, cl in runs(m, f, cap=1500):
            sts = [x for x in log if x[0] == "store"]
            bad = [x for x in log if x[0] not in ("store",) and x[0] in LOG and fld(x[1]) == "options_"]
            okv = unreg(fs) or typed(fs, code) and true(fs, registered) and true(fs, lambda t: pure(t, valid) and registered(t[3]) and t[4] == P("value"))
            free = true(fs, lambda t: pure(t, "will_allow_clobber") and t[-1] == P("tag"))
            r.check(not bad, "R1", nm + " only stores", where, "the list of options is changed in another way than by storing the value", path(st))
            if sts:
                n += 1
                r.check(okv, "R1", nm + " validates", where, "a value is stored although the option is not registered as %s, or the value was not checked against its valid settings" % k, path(st))
                r.check(free, "R1", nm + " respects protected values", where, "a value is stored although the one present may not be replaced (or that was not looked at)", path(st))
                x = stored(sts[0])
                r.check(len(sts) == 1 and x is not None and key(x[0], P("tag")), "R1", nm + " key", where, "the value is not stored under the lower-case name of the option", path(st))
                if x:
                    t = x[1]
                    good = t == P("value") if k == "String" else pure(t, "text") and t[-1] == P("value") and fmt(t[3], k)
                    r.check(good, "R1", nm + " value", where, "what is stored is not the text of the given value", path(st))
                    r.check(x[2] == P("allow_clobber") and x[3] == P("dont_print"), "R1", nm + " flags", where, "the flags allow_clobber and dont_print given are not the ones stored", path(st))
            if v == ('c', 1):
                r.check(okv, "R1", nm + " reports", where, "success is reported for a value that was not checked", path(st))
                r.check(bool(sts) or false(fs, lambda t: pure(t, "will_allow_clobber")), "R1", nm + " stores", where, "success is reported but the value was not stored, and no protected value is in the way", path(st))
            else:
                r.check(v == ZERO and not sts, "R1", nm + " refusal", where, "a refused value is stored, or the result is neither yes nor no", path(st))
        r.check(n > 0, "R1", nm + " can store", where, "no path stores a value")
        # convenience
        f = one(m, OL + "::Set%sValueIfUnset" % k)
        seen.append(f)
        for st, v, log, fs, eng, cl in runs(m, f):
            got = lambda t: pure(t, "Get%sValue" % k)
            sets = [x for x in log if x[0].startswith("Set")]
            gets = [x for x in log if x[0] == "Get%sValue" % k]
            asked = len(gets) == 1 and gets[0][2] == P("tag") and gets[0][-1] == ('c', '')
            r.check(asked and (true(fs, got) and not sets and v == ('c', 1) or
                    false(fs, got) and len(sets) == 1 and sets[0][0] == "Set%sValue" % k and sets[0][2:] == tuple(P(a) for a in ("tag", "value", "allow_clobber", "dont_print")) and pure(v, "Set%sValue" % k)),
                    "R1", f.name(), f.at(), "the value must be set, with the flags given, exactly if none was found", path(st))
    f = one(m, OL + "::UnsetValue")
    seen.append(f)
    for st, v, log, fs, eng, cl in runs(m, f):
        er = [x for x in log if x[0] == "erase"]
        free = lambda t: pure(t, "will_allow_clobber") and t[-1] == P("tag")
        if false(fs, free):
            r.check(not er and v == ZERO, "R1", "UnsetValue respects protected values", f.at(), "a protected value is removed", path(st))
        else:
            r.check(true(fs, free) and len(er) == 1 and fld(er[0][1]) == "options_" and key(er[0][2], P("tag")), "R1", "UnsetValue removes", f.at(), "the value under the lower-case name is not removed exactly if it is not protected", path(st))
    f = one(m, OL + "::will_allow_clobber")
    seen.append(f)
    at = lambda t: pure(t, "find") and fld(t[3]) == "options_" and key(t[4], P("tag"))
    end = lambda t: pure(t, "end")
    for st, v, log, fs, eng, cl in runs(m, f):
        if has(fs, '==', at, end):
            r.check(v == ('c', 1), "R1", "will_allow_clobber, no value", f.at(), "an option that has no value yet cannot be set", path(st))
        else:
            r.check(has(fs, '!=', at, end) and pure(v, "AllowClobber") and at(inner(v[3])), "R1", "will_allow_clobber, value", f.at(), "the flag of the stored value does not decide", path(st))


def inner(t):
    """iterator whose element's value a term stands for"""
    while isinstance(t, tuple) and t and t[0] in ('&', 'r', 'd', 'f'):
        t = t[1]
    return t


def fmt(t, k):
    if t[0] != 'c' or not isinstance(t[1], str):
        return t[0] == 'e'   # assembled from pieces (format macros)
    s = t[1]
    return s.count("%") == 1 and s[0] == "%" and s[-1] in ("gGeEfa" if k == "Numeric" else "dix")


def values(m, r, seen):
    """OptionValue: the constructors and assignment copy every part, the readers return it"""
    V = OL + "::OptionValue"
    if V not in m.classes:
        raise AnalysisError("OptionValue not found")
    # a copy of a registered option is the same option
    for f in [f for f in m.fns.values() if f.c == RO and f.kind == "ctor" and f.body is not None and len(f.p) == 1 and "RegisteredOption" in f.p[0]["t"]]:
        seen.append(f)
        for st, v, log, fs, eng, cl in runs(m, f):
            for q in [x["n"] for x in m.classes[RO]["fields"]]:
                t = eng.norm(st, eng.read(st, ('f', ('this',), q)))
                r.check(t[0] == 'r' and t[1][0] == 'f' and t[1][2] == q and t[1][1] != ('this',), "R3", "copy of RegisteredOption: " + q.rsplit("::", 1)[-1], f.at(), "a copy of a registered option loses %s" % q, path(st))
    fields = [x["n"] for x in m.classes[V]["fields"]]
    for f in [f for f in m.fns.values() if f.c == V and f.body is not None and len(f.p) >= 1 and f.kind != "dtor"]:
        seen.append(f)
        cp = len(f.p) == 1
        par = f.p[0]["n"]
        for st, v, log, fs, eng, cl in runs(m, f):
            for q in fields:
                n = q.rsplit("::", 1)[-1]
                t = eng.norm(st, eng.read(st, ('f', ('this',), q)))
                if cp:
                    while t and t[0] == 'r' and t[1][0] == 'f' and t[1][2] == q and t[1][1] not in (('this',),):
                        t = ('ok',)
                    good = t == ('ok',)
                else:
                    good = {"value_": t == P("value"), "counter_": t == ZERO, "initialized_": t == ('c', 1), "allow_clobber_": t == P("allow_clobber"), "dont_print_": t == P("dont_print")}.get(n, True)
                r.check(good, "R1", "OptionValue %s sets %s" % ("copy" if cp else "constructor", n), f.at(), "%s does not get the corresponding value" % n, path(st))
    for a, b in (("GetValue", "value_"), ("Value", "value_"), ("AllowClobber", "allow_clobber_"), ("DontPrint", "dont_print_"), ("Counter", "counter_")):
        f = one(m, V + "::" + a)
        for st, v, log, fs, eng, cl in runs(m, f):
            r.check(fld(v) == b, "R1", "OptionValue::" + a, f.at(), "does not return %s" % b, path(st))


# ------------------------------------------------------------------ validity predicates
def evalt(t, env):
    """value of a term in a scenario, or None"""
    if t[0] == 'c':
        return t[1]
    n = fld(t)
    if n in env:
        return env[n]
    if t == P("value"):
        return env["value"]
    if t[0] == 'e' and len(t) == 4 and t[1] in OPS:
        a, b = evalt(t[2], env), evalt(t[3], env)
        return None if a is None or b is None else int(OPS[t[1]](a, b))
    if t[0] == 'e' and len(t) == 3 and t[1] == '!':
        a = evalt(t[2], env)
        return None if a is None else int(not a)
    return None


OPS = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
       '&&': lambda a, b: a and b, '||': lambda a, b: a or b}


def predicates(m, r, seen):
    for k, strict in (("Number", True), ("Integer", False)):
        f = one(m, RO + "::IsValid%sSetting" % k)
        seen.append(f)
        rs = runs(m, f)
        for hl in (0, 1):
            for ls in ((0, 1) if strict else (0,)):
                for hu in (0, 1):
                    for us in ((0, 1) if strict else (0,)):
                        for v in (-1, 0, 1, 2, 3):
                            env = {"has_lower_": hl, "has_upper_": hu, "lower_strict_": ls, "upper_strict_": us, "lower_": 0, "upper_": 2, "value": v}
                            want = int(not (hl and (v < 0 or ls and v == 0) or hu and (v > 2 or us and v == 2)))
                            got, pt = set(), None
                            for st, ret, log, fs, eng, cl in rs:
                                if all(evalt(('e', op, a, b), env) in (1, None) for op, a, b in fs):
                                    x = evalt(ret, env)
                                    got.add(x)
                                    if x != want:
                                        pt = path(st)
                            r.check(got == {want}, "R2", "IsValid%sSetting lower=%s%s upper=%s%s value=%d" % (k, hl, ls, hu, us, v), f.at(),
                                    "with bounds [0,2] (lower %s%s, upper %s%s), the value %d must be %s" % ("on" if hl else "off", ", strict" if ls else "", "on" if hu else "off", ", strict" if us else "", v, "accepted" if want else "refused"), pt)
    entry = lambda t: t[0] == 'r' and t[1][0] == 'f' and t[1][2].endswith("string_entry::value_")
    eqv = lambda t: pure(t, "string_equal_insensitive") and any(entry(x) for x in t[3:]) and P("value") in t[3:]
    same = lambda e: (lambda t: pure(t, "string_equal_insensitive") and e in t[3:] and P("value") in t[3:])
    wild = lambda fs, t=entry: has(fs, '==', t, ('c', '*'))
    f = one(m, RO + "::IsValidStringSetting")
    seen.append(f)
    n = 0
    for st, v, log, fs, eng, cl in runs(m, f):
        v = ('c', 1) if true(fs, v) or v[0] == 'e' and v[1] == '==' and has(fs, '==', v[2], v[3]) else ZERO if false(fs, v) or v[0] == 'e' and v[1] == '==' and has(fs, '!=', v[2], v[3]) else v
        if v[0] in ('j', 's', 'o') or v[0] == 'e' and eqv(v) and has(fs, '==', lambda t: True, lambda t: pure(t, "end")):
            continue   # the running result of the loop over the settings
        if v == ('c', 1):
            n += 1
            r.check(wild(fs) or true(fs, eqv), "R2", "IsValidStringSetting accepts", f.at(), "a string is accepted that matches none of the registered settings", path(st))
        else:
            r.check(v == ZERO and not wild(fs) and not true(fs, eqv) and has(fs, '==', lambda t: True, lambda t: pure(t, "end")), "R2", "IsValidStringSetting refuses", f.at(), "a string is refused although it matches a registered setting, or before all were looked at", path(st))
    r.check(n > 0, "R2", "IsValidStringSetting can accept", f.at(), "no path accepts a string")
    f = one(m, RO + "::string_equal_insensitive")
    seen.append(f)
    up = lambda t: pure(t, "toupper") or pure(t, "tolower")
    size = lambda t: pure(t, "size") or pure(t, "length")
    for st, v, log, fs, eng, cl in runs(m, f):
        if v == ('c', 1):
            r.check(has(fs, '==', size, size) and has(fs, '==', lambda t: True, lambda t: pure(t, "end")) and not has(fs, '!=', up, up), "R2", "string_equal_insensitive, equal", f.at(),
                    "strings are taken as equal without comparing their lengths and all letters", path(st))
        else:
            r.check(v == ZERO and (has(fs, '!=', size, size) or has(fs, '!=', up, up)), "R2", "string_equal_insensitive, different", f.at(), "strings are taken as different although neither length nor a letter differs", path(st))
    f = one(m, RO + "::MapStringSetting")
    seen.append(f)
    for st, v, log, fs, eng, cl in runs(m, f):
        if v == P("value"):
            r.check(wild(fs), "R2", "MapStringSetting, any string", f.at(), "the string is returned as given although the option does not allow any string", path(st))
        elif entry(v):
            r.check(true(fs, same(v)), "R2", "MapStringSetting, setting", f.at(), "a setting is returned that does not match the string", path(st))
        elif v == ('c', ''):
            r.check(not wild(fs) and not true(fs, eqv), "R2", "MapStringSetting, nothing", f.at(), "nothing is returned although a setting matches", path(st))
        else:
            r.check(v[0] in ('j', 's'), "R2", "MapStringSetting, result", f.at(), "returns something else than the matching setting", path(st))
    f = one(m, RO + "::MapStringSettingToEnum")
    seen.append(f)
    for st, v, log, fs, eng, cl in runs(m, f):
        # first setting: 0; after one that does not match: 1; else the running number
        nomatch = sum(1 for o, a, b in fs if o == '==' and b == ZERO and eqv(a))
        r.check(true(fs, eqv) and (v == ('c', nomatch) or v[0] in ('j', 's')), "R2", "MapStringSettingToEnum", f.at(), "the number returned is not the position of the setting that matches", path(st))


# ------------------------------------------------------------------ registration
BOUNDS = {"AddNumberOption": [], "AddLowerBoundedNumberOption": ["L"], "AddUpperBoundedNumberOption": ["U"], "AddBoundedNumberOption": ["L", "U"]}
RLOG = {"SetType", "SetDefaultString", "SetDefaultNumber", "SetDefaultInteger", "SetLowerNumber", "SetUpperNumber", "SetLowerInteger", "SetUpperInteger", "AddValidStringSetting", "AddOption"}


def enumarg(n):
    from sa.loops import strip
    a = strip(n["a"][0]) if n.get("a") else None
    while a and a["k"] == "cast":
        a = strip(a["e"])
    return str(a.get("n", a.get("f", ""))) if a else ""


def registration(m, r, seen):
    for k in ("Number", "Integer"):
        for base, bd in BOUNDS.items():
            nm = base.replace("Number", k)
            f = one(m, RG + "::" + nm)
            seen.append(f)
            want = {("SetDefault" + k, (P("default_value"),))}
            both = len(bd) == 2
            for b in bd:
                w = "Lower" if b == "L" else "Upper"
                a = [P(w.lower())]
                if k == "Number":
                    a.append(P(w.lower() + "_strict") if both else P("strict"))
                want.add(("Set" + w + k, tuple(a)))
            register(m, r, f, want, "OT_" + k)
    for i in list(range(1, 11)):
        f = one(m, RG + "::AddStringOption%d" % i)
        seen.append(f)
        want = {("SetDefaultString", (P("default_value"),))}
        register(m, r, f, want, "OT_String", [(P("setting%d" % j), P("description%d" % j)) for j in range(1, i + 1)])
    f = one(m, RG + "::AddBoolOption")
    seen.append(f)
    for st, log, fs in reglog(m, f):
        d = [x[2] for x in log if x[0] == "SetDefaultString"]
        yes = true(fs, P("default_value"))
        r.check(d == [('c', "yes" if yes else "no")] and (yes or false(fs, P("default_value"))), "R3", "AddBoolOption default", f.at(), "the default recorded is not the one given", path(st))
        r.check({x[2][1] for x in log if x[0] == "AddValidStringSetting"} == {"yes", "no"} and [x[2][1] for x in log if x[0] == "SetType"] == ["OT_String"] and len([x for x in log if x[0] == "AddOption"]) == 1,
                "R3", "AddBoolOption settings", f.at(), "the settings must be yes and no", path(st))
    f = one(m, RG + "::AddStringOption")
    seen.append(f)
    el = lambda t: t[1][2] if t[0] == 'r' and t[1][0] == 'x' else None
    for st, log, fs in reglog(m, f):
        add = [x for x in log if x[0] == "AddValidStringSetting"]
        r.check(all(x[2][0] == 'r' and x[2][1][:2] == ('x', ('&', ('p', 'settings'))) and x[3][0] == 'r' and x[3][1][:2] == ('x', ('&', ('p', 'descriptions'))) and el(x[2]) == el(x[3]) and
                    (i > 2 or el(x[2]) == ('c', i)) for i, x in enumerate(add)), "R3", "AddStringOption settings", f.at(), "the settings and descriptions are not recorded one after the other in the order given", path(st))
        k = len(add)
        r.check(k > 2 or has(fs, '<=', lambda t: pure(t, "size") and t[3] in (P("settings"), P("descriptions")), ('c', k)), "R3", "AddStringOption, all settings", f.at(), "not all settings are recorded", path(st))
        r.check([x[2] for x in log if x[0] == "SetDefaultString"] == [P("default_value")] and [x[2][1] for x in log if x[0] == "SetType"] == ["OT_String"] and len([x for x in log if x[0] == "AddOption"]) == 1,
                "R3", "AddStringOption default", f.at(), "the option is not registered as a string option with the default given", path(st))
    f = one(m, RG + "::AddOption")
    seen.append(f)
    for st, v, log, fs, eng, cl in runs(m, f):
        r.check(has(fs, '==', lambda t: pure(t, "find") and fld(t[3]) == "registered_options_" and pure(t[4], "Name") and t[4][3] == P("option"), lambda t: pure(t, "end")),
                "R3", "AddOption refuses duplicates", f.at(), "an option is registered without making sure that its name is not taken", path(st))
    for base in ("Number", "Integer"):
        for w in ("Lower", "Upper"):
            f = one(m, RO + "::Set%s%s" % (w, base))
            seen.append(f)
            for st, v, log, fs, eng, cl in runs(m, f):
                g = {n: eng.norm(st, eng.read(st, ('f', ('this',), RO + "::" + n))) for n in (w.lower() + "_", w.lower() + "_strict_", "has_%s_" % w.lower())}
                r.check(g[w.lower() + "_"] == P(f.p[0]["n"]) and g["has_%s_" % w.lower()] == ('c', 1) and (base == "Integer" or g[w.lower() + "_strict_"] == P(f.p[1]["n"])),
                        "R3", f.name(), f.at(), "the bound, its strictness, or that there is one, is not recorded", path(st))
        f = one(m, RO + "::SetDefault" + base)
        g = one(m, RO + "::Default" + base)
        for st, v, log, fs, eng, cl in runs(m, f):
            wr = eng.norm(st, eng.read(st, ('f', ('this',), RO + "::default_number_")))
            r.check(wr == P(f.p[0]["n"]), "R3", f.name(), f.at(), "the default is not recorded", path(st))
        for st, v, log, fs, eng, cl in runs(m, g):
            t = v
            while t and t[0] == 'e' and t[1] in ('cast', 'int', '(int)'):
                t = t[2]
            r.check(fld(t) == "default_number_", "R3", g.name(), g.at(), "does not return the default recorded", path(st))


def reglog(m, f):
    cl = Reg(m, opaque=lambda n: False)
    cl.keep, cl.consts = (), set()
    eng = engine(m, cl, 400)
    eng.termdepth = 60
    rets, _ = eng.run(f, frozenset())
    return [(st, dict(st.prop).get(('log',), ()), cl.factterms(eng, st)) for st, v in rets]


class Reg(Opt):
    logged = RLOG

    def log(s, st, ev):
        log = dict(st.prop).get(('log',), ())
        return st if log and log[-1] == ev else s.put(st, ('log',), (log if len(log) < 16 else log[:2] + log[-13:]) + (ev,))

    def on_call(s, eng, st, n, fns, obj, args):
        if n["k"] == "call" and short(n) == "SetType":
            st = s.log(st, ("SetType", s.val(eng, st, obj), ('c', enumarg(n).rsplit("::", 1)[-1])))
            return [(st, ('void',))]
        return super().on_call(eng, st, n, fns, obj, args)


def register(m, r, f, want, typ, settings=()):
    for st, log, fs in reglog(m, f):
        objs = {x[1] for x in log if x[0] != "AddOption"}
        got = {(x[0], x[2:]) for x in log if x[0] not in ("AddOption", "SetType", "AddValidStringSetting")}
        adds = [x for x in log if x[0] == "AddOption"]
        typs = [x[2][1] for x in log if x[0] == "SetType"]
        st_ = [x[2:] for x in log if x[0] == "AddValidStringSetting"]
        r.check(typs == [typ] and len(objs) == 1 and len(adds) == 1 and adds[0][2] in objs,
                "R3", f.name() + " type", f.at(), "the option is not registered as %s" % typ, path(st))
        r.check(got == want, "R3", f.name() + " default and bounds", f.at(), "default and bounds recorded: %s; expected: %s" % (show(got), show(want)), path(st))
        r.check(st_ == list(settings), "R3", f.name() + " settings", f.at(), "the valid settings are not recorded in the order given", path(st))


def show(s):
    return ", ".join(sorted("%s(%s)" % (a, ", ".join(str(x[1][1]) if x[0] == 'r' else str(x) for x in b)) for a, b in s))


# ------------------------------------------------------------------ reading
class Get(Opt):
    """find_tag and the other getters fill their output argument; number parsing is a term"""
    logged = {"SetStringValue", "SetNumericValue", "SetIntegerValue"}

    def on_call(s, eng, st, n, fns, obj, args):
        b = short(n)
        if n["k"] == "call":
            if b in ("find_tag", "GetStringValue", "readnexttoken"):
                outi = {"find_tag": 2, "GetStringValue": 1, "readnexttoken": 1}[b]
                ins = tuple(s.val(eng, st, a) for i, a in enumerate(args) if i != outi and b != "readnexttoken")
                if b == "find_tag":   # keeps paths with and without registered options apart
                    fs = s.factterms(eng, st)
                    st = s.put(st, ('typed',), (unreg(fs), tuple(c for c in (0, 1, 2) if true(fs, registered) and typed(fs, c))))
                lv = args[outi][1] if args[outi][0] in ('&', 'r') else args[outi]
                if b == "readnexttoken":
                    k = dict(st.prop).get(('tok',), 0)
                    st = s.put(st, ('tok',), min(k + 1, 3))
                    ins = (('c', k),)
                v = ('e', 'pure', ('c', 'text of ' + b)) + ins
                return [(eng.write(st, lv, v, n), ('e', 'pure', ('c', b)) + ins)]
            if b in ("strcpy", "strncpy"):
                return [(s.put(st, ('buf',), s.val(eng, st, args[1])), ('?',))]
            if b in ("strtod", "strtol"):
                v = s.val(eng, st, args[0])
                if not (pure(v, "c_str")):
                    v = ('e', 'pure', ('c', 'copy'), dict(st.prop).get(('buf',), ('?',)))
                lv = args[1][1] if args[1][0] in ('&', 'r') else args[1]
                st = eng.write(st, lv, ('e', 'pure', ('c', 'rest'), v), n)
                return [(st, ('e', 'pure', ('c', b), v))]
        return super().on_call(eng, st, n, fns, obj, args)

    def on_assign(s, eng, st, lv, val, node):
        v = eng.norm(st, val)
        if lv[0] == 'x' and v in (('c', 101), ('c', 69)):
            fs = s.factterms(eng, st)
            s.repl.add((node.get("l"), tuple(sorted(b[1] for o, a, b in fs if o == '==' and b in (('c', 100), ('c', 68)) and a == ('r', lv)))))
        return st


def reading(m, r, seen):
    def rr(f, cap=1500):
        cl = Get(m, opaque=lambda n: False)
        cl.keep, cl.consts, cl.repl = (), set(), set()
        eng = engine(m, cl, cap)
        eng.termdepth = 60
        rets, thrown = eng.run(f, frozenset())
        return [(st, eng.norm(st, v), dict(st.prop).get(('log',), ()), cl.factterms(eng, st), eng, cl) for st, v in rets], cl, eng
    found = lambda t: pure(t, "find_tag") and t[3:] == (P("tag"), P("prefix"))
    text = lambda t: pure(t, "text of find_tag") and t[3:] == (P("tag"), P("prefix"))
    parsed = lambda w: (lambda t: pure(t, w) and pure(t[3], "c_str") and text(t[3][3]) or pure(t, w) and pure(t[3], "copy") and (text(t[3][3]) or pure(t[3][3], "c_str") and text(t[3][3][3])))
    for nm, code, good, dflt in (("GetStringValue", 2, lambda t: pure(t, "MapStringSetting") and registered(t[3]) and text(t[4]), "DefaultString"),
                                 ("GetEnumValue", 2, lambda t: pure(t, "MapStringSettingToEnum") and registered(t[3]) and text(t[4]), "DefaultStringAsEnum"),
                                 ("GetNumericValue", 0, parsed("strtod"), "DefaultNumber"),
                                 ("GetIntegerValue", 1, parsed("strtol"), "DefaultInteger")):
        f = one(m, OL + "::" + nm)
        seen.append(f)
        rs, cl, eng0 = rr(f)
        n = 0
        for st, v, log, fs, eng, cl in rs:
            val = uncast(eng.norm(st, eng.read(st, ('p', 'value'))))
            yes, no = true(fs, found), false(fs, found)
            early = dict(st.prop).get(('typed',), (False, ()))
            if not unreg(fs) and not early[0]:
                r.check(true(fs, registered) and typed(fs, code) or early[1] == (code,), "R4", nm + " type", f.at(), "the value of an option is given out without checking that it is registered with this type", path(st))
            if yes:
                n += 1
                r.check(v == ('c', 1) or found(v), "R4", nm + " reports found", f.at(), "a value was found but this is not reported", path(st))
                r.check(good(val) or unreg(fs) and code == 2, "R4", nm + " value found", f.at(), "the value given out is not the one stored under the name", path(st))
                if code != 2:
                    r.check(has(fs, '==', lambda t: t[0] == 'r' and t[1][0] in ('d', 'x') and pure(t[1][1], "rest"), ZERO) or
                            true(fs, lambda t: pure(t, "isspace")), "R4", nm + " whole text", f.at(), "a text that is only partly a number is taken as the value", path(st))
            elif no:
                r.check(v == ZERO or found(v), "R4", nm + " reports not found", f.at(), "nothing was found but this is not reported", path(st))
                if not unreg(fs):
                    r.check(pure(val, dflt) and registered(val[3]), "R4", nm + " default", f.at(), "the value given out when nothing was set is not the registered default", path(st))
            else:
                r.check(unreg(fs) and (found(v) or v in (ZERO, ('c', 1))), "R4", nm + " looks", f.at(), "the value is given out without looking for one that was set", path(st))
        r.check(n > 0, "R4", nm + " can find", f.at(), "no path gives out a value that was set")
        if code == 0:
            check_repl(r, f, cl.repl, "R4")
    f = one(m, OL + "::GetBoolValue")
    seen.append(f)
    got = lambda t: pure(t, "text of GetStringValue") and t[3:] == (P("tag"), P("prefix"))
    rs, cl, eng0 = rr(f)
    words = {}
    for st, v, log, fs, eng, cl in rs:
        val = eng.norm(st, eng.read(st, ('p', 'value')))
        eq = [b[1] for o, a, b in fs if o == '==' and got(a) and b[0] == 'c'] + [a[1] for o, a, b in fs if o == '==' and got(b) and a[0] == 'c']
        r.check(len(eq) == 1 and val[0] == 'c' and pure(v, "GetStringValue"), "R4", "GetBoolValue", f.at(), "a value is given out without recognizing the string, or whether it was set is not reported", path(st))
        for e in eq:
            words[e] = val[1]
    r.check({k for k, x in words.items() if x == 1} >= {"yes"} and {k for k, x in words.items() if x == 0} >= {"no"} and all(words.get(k, x) == x for k, x in
            (("yes", 1), ("true", 1), ("on", 1), ("no", 0), ("false", 0), ("off", 0))), "R4", "GetBoolValue words", f.at(), "yes, true, on must give true, and no, false, off must give false")
    # find_tag: the value of the name with prefix comes first
    f = one(m, OL + "::find_tag")
    seen.append(f)
    plus = lambda t: pure(t, "operator+") and t[3:] == (P("prefix"), P("tag"))
    at = lambda k: (lambda t: pure(t, "find") and fld(t[3]) == "options_" and pure(t[4], "lowercase") and (plus(t[4][-1]) if k else t[4][-1] == P("tag")))
    end = lambda t: pure(t, "end")
    rs, cl, eng0 = rr(f)
    for st, v, log, fs, eng, cl in rs:
        val = eng.norm(st, eng.read(st, ('p', 'value')))
        noprefix = has(fs, '==', lambda t: t == P("prefix"), ('c', '')) or true(fs, lambda t: pure(t, "empty")) or false(fs, lambda t: pure(t, "length") or pure(t, "size"))
        long, short_ = has(fs, '!=', at(1), end), has(fs, '!=', at(0), end)
        if v == ('c', 1):
            w = at(1) if long else at(0)
            r.check(long or short_ and (noprefix or has(fs, '==', at(1), end)), "R4", "find_tag order", f.at(), "the value without prefix is used although one with the prefix may be there", path(st))
            r.check(pure(val, "GetValue") and w(inner(val[3])), "R4", "find_tag value", f.at(), "the text given out is not the one stored under the name that was found", path(st))
        else:
            r.check(v == ZERO and has(fs, '==', at(0), end) and (noprefix or has(fs, '==', at(1), end)), "R4", "find_tag nothing", f.at(), "nothing is reported although a value may be there", path(st))
    # RegisteredOptions::GetOption: the name without prefix decides
    f = one(m, RG + "::GetOption")
    seen.append(f)
    rs, cl, eng0 = rr(f)
    dot = lambda t: pure(t, "rfind") and t[3] == P("name") and t[4] in (('c', '.'), ('c', 46))
    sub = lambda t: pure(t, "substr") and t[3] == P("name") and t[4][:2] == ('e', '+') and any(dot(x) for x in t[4][2:]) and ('c', 1) in t[4][2:]
    npos = lambda t: "npos" in str(t)
    for st, v, log, fs, eng, cl in rs:
        if v != ZERO:
            t = inner(v)
            nodot = has(fs, '==', dot, npos)
            r.check(pure(t, "find") and fld(t[3]) == "registered_options_" and (t[4] == P("name") if nodot else sub(t[4])), "R4", "GetOption", f.at(), "the option returned is not the one registered under the name without its prefix", path(st))
            r.check(has(fs, '!=', lambda x: x == t or pure(x, "find"), end), "R4", "GetOption found", f.at(), "an option is returned without having been found", path(st))
        else:
            r.check(has(fs, '==', lambda x: pure(x, "find"), end), "R4", "GetOption nothing", f.at(), "no option is returned although one of this name may be registered", path(st))
    f = one(m, OL + "::lowercase")
    r.check(any(n["k"] == "call" and short(n) == "tolower" for n in f.nodes()), "R4", "lowercase", f.at(), "the name is not made lower case")
    # options file
    f = one(m, OL + "::ReadFromStream")
    seen.append(f)
    stream(m, r, f)


def check_repl(r, f, repl, rule):
    both = {c for l, cs in repl for c in cs}
    r.check(both == {100, 68} and all(cs for l, cs in repl), rule, f.name() + " Fortran exponents", f.at(), "the letters d and D, and only those, must be read as exponent marks")


def uncast(t):
    while isinstance(t, tuple) and t and t[0] == 'e' and len(t) == 3 and t[1] not in ('-', '!', '~', 'pure'):
        t = t[2]
    return t


class File(Get):
    """what ReadFromStream does with one pair of words"""

    def on_call(s, eng, st, n, fns, obj, args):
        b = short(n)
        if n["k"] == "call" and b in ("SetStringValue", "SetNumericValue", "SetIntegerValue"):
            fs = tuple(s.factterms(eng, st))
            vals = tuple(uncast(s.val(eng, st, a)) for a in args)
            s.sets.append((b, vals, fs, eng, st, n))
            k = sum(1 for p in dict(st.prop) if p[0] == 'set')
            st = s.put(st, ('set', n.get("l")), ('pending',))
            return [(s.put(st, ('set', n.get("l")), ('done',)), ('c', 1)), (s.put(st, ('refused',), n.get("l")), ZERO)]
        if n["k"] == "call" and b == "readnexttoken":
            # a further word is asked for: the previous value must have been accepted
            if dict(st.prop).get(('refused',)):
                s.ignored.append((dict(st.prop)[('refused',)], st))
                return []
            k = dict(st.prop).get(('tok',), 0)
            if k >= 2:
                if not any(p[0] == 'set' for p, _ in st.prop):
                    s.skipped.append((tuple(s.factterms(eng, st)), st))
                return []
        return super().on_call(eng, st, n, fns, obj, args)


def stream(m, r, f):
    cl = File(m, opaque=lambda n: False)
    cl.keep, cl.consts, cl.repl, cl.sets, cl.ignored, cl.skipped = (), set(), set(), [], [], []
    eng = engine(m, cl, 3000)
    eng.termdepth = 60
    rets, thrown = eng.run(f, frozenset())
    tok = lambda k: (lambda t: pure(t, "text of readnexttoken") and t[3] == ('c', k))
    reg = lambda t: pure(t, "GetOption") and fld(t[3]) == "reg_options_" and tok(0)(t[-1])
    content = lambda t: tok(1)(t) or pure(t, "c_str") and tok(1)(t[3])
    num = lambda w: (lambda t: pure(t, w) and (content(t[3]) or pure(t[3], "copy") and content(t[3][3])))
    kinds = set()
    for b, a, fs, e, st, n in cl.sets:
        un = unreg(fs)
        code = {"SetStringValue": 2, "SetNumericValue": 0, "SetIntegerValue": 1}[b]
        ty = has(fs, '==', lambda t: pure(t, "Type") and reg(t[3]), ('c', code)) and true(fs, reg)
        kinds.add((b, un))
        where = f.at(n)
        r.check(un and code == 2 or ty, "R5", b + " of a file value", where, "the value read is set with another type than the option is registered with", st.path())
        v = {2: tok(1), 0: num("strtod"), 1: num("strtol")}[code]
        r.check(tok(0)(a[0]) and v(a[1]), "R5", b + " name and value", where, "what is set is not the value read under the name read", st.path())
        r.check(len(a) >= 3 and a[2] == P("allow_clobber"), "R5", b + " protection", where, "the flag allow_clobber is not passed on", st.path())
        if code != 2:
            r.check(has(fs, '==', lambda t: t[0] == 'r' and t[1][0] in ('d', 'x') and pure(t[1][1], "rest"), ZERO) or true(fs, lambda t: pure(t, "isspace")),
                    "R5", b + " whole text", where, "a text that is only partly a number is taken as the value", st.path())
    r.check({k for k, u in kinds if not u} == {"SetStringValue", "SetNumericValue", "SetIntegerValue"}, "R5", "all types", f.at(), "values of some type read from a file are never set")
    for l, st in cl.ignored:
        r.check(False, "R5", "refused value", f.at(), "a value that was refused is passed over: reading goes on", st.path())
    r.check(not cl.ignored, "R5", "refused values end reading", f.at(), "a refused value is passed over")
    for fs, st in cl.skipped:
        ty = {b[1] for o, a, b in fs if o == '!=' and pure(a, "Type") and b[0] == 'c'}
        r.check({0, 1, 2} <= ty, "R5", "every value is set", f.at(), "a value that was read is not set, and no error is raised", st.path())
    for st, v in rets:
        if dict(st.prop).get(('refused',)):
            r.check(eng.norm(st, v) == ZERO, "R5", "refused value is reported", f.at(), "reading ends as if successful although a value was refused", st.path())
        fs = cl.factterms(eng, st)
        k = dict(st.prop).get(('tok',), 0)
        if eng.norm(st, v) != ZERO:
            r.check(k == 1 and false(fs, lambda t: pure(t, "readnexttoken")), "R5", "end of file", f.at(), "success is reported before the end of the file, or with a name left without value", st.path())
    check_repl(r, f, cl.repl, "R5")


def run(m, r):
    r.rule("R1", "a value is stored only if the option is registered with this type, the value was found valid, and the one present may be replaced; then it is stored as given, under the lower-case name, with the flags given; a refused value leaves the list alone and is reported")
    r.rule("R2", "the validity tests accept exactly the values within the registered bounds (strict or not) and the registered strings, in any case; a string is mapped to the setting it matches")
    r.rule("R3", "registering an option records type, default, bounds and settings as given, and refuses a name that is taken")
    r.rule("R4", "reading an option checks its type, prefers the value set with the prefix, and gives the stored value if there is one and else the registered default")
    r.rule("R5", "values read from an options file are parsed completely, set with the registered type, and end the reading with an error if refused")
    seen = []
    setters(m, r, seen)
    values(m, r, seen)
    predicates(m, r, seen)
    registration(m, r, seen)
    reading(m, r, seen)
    r.analysed(seen)
    for rule, n in (("R1", 60), ("R2", 50), ("R3", 40), ("R4", 30), ("R5", 8)):
        r.floor(rule, n, "instances")

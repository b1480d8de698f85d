"""Shape of counting loops: which index range does a loop cover?"""
from .model import walk


def strip(n):
    while n is not None and n["k"] == "cast":
        n = n["e"]
    return n


def const_inits(fn):
    """local id -> initialiser, for locals that are never written again"""
    if "_cinits" not in fn.rec:
        init, written = {}, set()
        for n in fn.nodes():
            if n["k"] == "decl":
                for v in n["v"]:
                    if "id" in v and v.get("i") is not None and not v["t"].endswith("&"):
                        init[v["id"]] = v["i"]
            t = None
            if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                t = n["a"]
            elif n["k"] == "un" and n["op"] in ("++", "--", "&"):
                t = n["e"]
            t = strip(t)
            if t is not None and t["k"] == "ref" and "id" in t:
                written.add(t["id"])
        fn.rec["_cinits"] = {k: v for k, v in init.items() if k not in written}
    return fn.rec["_cinits"]


def resolve(fn, n, depth=0):
    n = strip(n)
    if n is not None and n["k"] == "ref" and "id" in n and depth < 4:
        i = const_inits(fn).get(n["id"])
        if i is not None:
            return resolve(fn, i, depth + 1)
    return n


def intval(n):
    n = strip(n)
    if n is None:
        return None
    if n["k"] == "int":
        return n["v"]
    if n["k"] == "ref" and n.get("d") == "enum":
        return n["v"]
    if n["k"] == "un" and n["op"] == "-":
        v = intval(n["e"])
        return None if v is None else -v
    return None


def counting(fn, loop):
    """(var id, start expr, op, bound expr, step) of a for loop  i = a; i OP b; i++ / i--   or None"""
    i, c, inc = loop.get("i"), strip(loop.get("c")), strip(loop.get("inc"))
    if i is None or c is None or inc is None:
        return None
    if i["k"] == "decl" and len(i["v"]) == 1 and "id" in i["v"][0]:
        var, start = i["v"][0]["id"], i["v"][0].get("i")
    elif i["k"] == "bin" and i["op"] == "=" and strip(i["a"])["k"] == "ref" and "id" in strip(i["a"]):
        var, start = strip(i["a"])["id"], i["b"]
    else:
        return None
    if inc["k"] == "un" and inc["op"] in ("++", "--"):
        t, step = strip(inc["e"]), 1 if inc["op"] == "++" else -1
    elif inc["k"] == "bin" and inc["op"] in ("+=", "-=") and intval(inc["b"]) is not None:
        t, step = strip(inc["a"]), intval(inc["b"]) * (1 if inc["op"] == "+=" else -1)
    else:
        return None
    if t["k"] != "ref" or t.get("id") != var:
        return None
    if c["k"] != "bin" or c["op"] not in ("<", "<=", ">", ">=", "!="):
        return None
    a, b, op = strip(c["a"]), strip(c["b"]), c["op"]
    isv = lambda x: x is not None and x["k"] == "ref" and x.get("id") == var
    if isv(b) and not isv(a):
        a, b = b, a
        op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
    if not isv(a):
        return None
    return var, start, op, b, step


def minus(fn, n):
    """(expr, k) with n == expr + k for constant k"""
    n = resolve(fn, n)
    k = 0
    while n is not None and n["k"] == "bin" and n["op"] in ("+", "-"):
        b = intval(n["b"])
        if b is None:
            a = intval(n["a"])
            if a is None or n["op"] == "-":
                break
            k += a
            n = resolve(fn, n["b"])
            continue
        k += b if n["op"] == "+" else -b
        n = resolve(fn, n["a"])
    return n, k


def covers(fn, loop, loopvars=()):
    """'full' if the loop runs over 0..N-1 for a size expression N (or 0..j for an outer loop
    variable j), 'partial' if it provably leaves out an end, None if not recognised"""
    x = counting(fn, loop)
    if x is None:
        return None
    var, start, op, bound, step = x
    if abs(step) != 1:
        return "partial"
    if step == 1:
        s0 = intval(resolve(fn, start))
        if s0 is None:
            return None
        if s0 > 0:
            return "partial"
        e, k = minus(fn, bound)
        if e is not None and e["k"] == "ref" and e.get("id") in loopvars:
            # triangle including the diagonal: last index is e
            last = k if op in ("<=",) else k - 1
            return "full" if last == 0 else "partial" if last < 0 else None
        last = k if op == "<=" else k - 1       # relative to size
        return "full" if last == -1 else "partial" if last < -1 else None
    e, k = minus(fn, start)
    b0 = intval(resolve(fn, bound))
    if b0 is None:
        return None
    first = b0 + 1 if op in (">", "!=") else b0
    if first > 0:
        return "partial"
    return "full" if k == -1 else "partial" if k < -1 else None

"""C10: internal errors end as return values, never as exceptions crossing the solve calls or a foreign-language interface."""
from sa.escape import Escape
from sa.db import AnalysisError
from sa.model import walk

# (function that throws, type) -> why it cannot reach the caller in any supported use
EXEMPT = {
    ("IpoptApplication::IpoptApplication", "IPOPT_APPLICATION_ERROR"): "only if the library's own option table cannot be built",
    ("TNLPAdapter::TNLPAdapter", "TNLPAdapter::INVALID_TNLP"): "usage error: null problem",
    ("IpoptApplication::ReOptimizeTNLP", "INVALID_WARMSTART"): "documented usage error: nothing solved before, or another problem",
    ("IpoptApplication::ReOptimizeNLP", "INVALID_WARMSTART"): "documented usage error: nothing solved before, or another problem",
}
# reading an option: throws only for an unregistered option or another type (C11), values are checked when they are set (C12)
OPTGET = ("GetStringValue", "GetIntegerValue", "GetNumericValue", "GetEnumValue", "GetBoolValue")
READERS = ("Initialize", "IpoptRSolve")
C_FILES = ("IpStdCInterface.cpp", "IpStdFInterface.c", "IpStdJInterface.cpp", "IpStdInterfaceTNLP.cpp")
USER = ("Ipopt::TNLP", "Ipopt::NLP")


def short(f):
    return f.split("Ipopt::", 1)[-1] if f.startswith("Ipopt::") else f


class Esc(Escape):
    """labels: type#function for the exempted throws"""

    def node(s, f, n, caught):
        out = super().node(f, n, caught)
        if n["k"] == "throw":
            for t in [t for t in out if (short(f.f), short(t)) in EXEMPT]:
                out[t + "#exempt"] = out.pop(t)
        elif n["k"] == "call" and f.name() in READERS and n.get("f", "").rsplit("::", 1)[-1] in OPTGET and "OptionsList" in n["f"]:
            for t in [t for t in out if short(t) == "OPTION_INVALID"]:
                out[t + "#exempt"] = out.pop(t)
        return out

    def catches(s, ht, t):
        return super().catches(ht, t.split("#")[0])


def run(m, r):
    r.rule("R1", "no exception of the library (nor a memory or overflow error, nor one thrown by a user callback unless rethrowing was requested) leaves the solve calls of the application")
    r.rule("R2", "no exception of the library leaves a function of the C, Fortran, Java or R interface")
    r.rule("R3", "no exception leaves a destructor")
    cpp = [f for f in m.fns.values() if f.c == "Ipopt::IpoptApplication" and f.body is not None and
           (f.name() in ("OptimizeNLP", "OptimizeTNLP", "ReOptimizeNLP", "ReOptimizeTNLP", "Initialize"))]
    ent = [f for f in m.fns.values() if f.c is None and f.body is not None and f.file.endswith(C_FILES)]
    ent += [f for f in m.fns.values() if f.c is None and f.body is not None and f.file.startswith("contrib/RInterface/src/") and f.name() == "IpoptRSolve"]
    for nm in ("IpoptSolve", "CreateIpoptProblem", "GetIpoptCurrentIterate", "GetIpoptCurrentViolations", "ipsolve_", "Java_org_coinor_Ipopt_OptimizeTNLP", "IpoptRSolve"):
        if not any(f.name() == nm for f in ent):
            raise AnalysisError("C10: entry point %s not found" % nm)

    # user callbacks: declared in TNLP or NLP and virtual
    virt = {f.name() for f in m.fns.values() if f.c in USER and f.rec.get("virtual")}

    def foreign(n):
        return n.get("virt", False) and n.get("f", "").rsplit("::", 1)[0] in USER

    def norethrow(c):
        neg = False
        while c["k"] == "un" and c.get("op") == "!" or c["k"] in ("cast", "paren"):
            if c["k"] == "un":
                neg = not neg
            c = c["e"]
        if c["k"] == "mem" and c.get("n", "").endswith("rethrow_nonipoptexception_"):
            return neg
        return None
    e1 = Esc(m, alloc=True, foreign=foreign, known=norethrow)
    e2 = Esc(m)
    n = sum(1 for f in m.fns.values() if f.body is not None for x in walk(f.body) if x["k"] == "throw")
    r.extra["throw expressions"] = n
    r.extra["functions analysed"] = sum(1 for f in m.fns.values() if f.body is not None)
    r.extra["functions an exception may leave"] = sum(1 for u in e2.esc if e2.esc[u])

    def judge(rule, e, f, allow=()):
        bad = sorted(t for t in e.esc[f.u] if not t.endswith("#exempt") and t not in allow)
        where = "%s:%s" % (f.file, f.l)
        if not bad:
            r.ok(rule, f.f + "/%d" % len(f.p), where)
        for t in bad:
            p = e.path(f.u, t)
            r.bad(rule, "%s/%s" % (f.f, short(t)), p[0].split(" ")[0],
                  "%s may leave %s" % ("an exception thrown by a user callback" if t == "(foreign)" else t, f.f), p)
    for f in cpp:
        # memory for the adapter itself is allocated before the solve starts
        judge("R1", e1, f, ("std::bad_alloc",) if f.name() in ("OptimizeTNLP", "Initialize") or f.name() == "ReOptimizeTNLP" else ())
    for f in ent:
        judge("R2", e2, f)
    dt = [f for f in m.fns.values() if f.name().startswith("~") and f.body is not None]
    for f in dt:
        judge("R3", e2, f)
    r.analysed(cpp + ent + dt)
    r.floor("R1", 5, "solve calls")
    r.floor("R2", 15, "interface functions")
    r.floor("R3", 80, "destructors")
    r.extra["exempted throws"] = {"%s in %s" % (k[1], k[0]): v for k, v in EXEMPT.items()}

"""Parts of a check that run side by side; what they report is collected in order."""
import multiprocessing
from .db import AnalysisError


class Rec:
    def __init__(s):
        s.out = []

    def check(s, *a, **k):
        a = list(a)
        a[0] = bool(a[0])
        if a[0]:
            del a[5:]
        s.out.append(("check", a))

    def ok(s, rule, instance, where=""):
        s.out.append(("check", [True, rule, instance, where, ""]))

    def bad(s, rule, instance, where, text, path=None):
        s.out.append(("check", [False, rule, instance, where, text, path]))

    def analysed(s, fns):
        s.out.append(("fn", [f.u for f in fns]))


_job = None


def _part(i):
    f, m, parts = _job
    rec = Rec()
    try:
        f(m, rec, parts[i])
    except AnalysisError as e:
        return str(e)
    return rec.out


def parallel(f, m, r, parts):
    """f(m, reporter, part) for all parts"""
    global _job
    _job = (f, m, list(parts))
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for out in pool.map(_part, range(len(_job[2])), chunksize=1):
            if isinstance(out, str):
                raise AnalysisError(out)
            for kind, a in out:
                if kind == "fn":
                    r.analysed([m.fns[u] if u in m.fns else u for u in a])
                else:
                    r.check(*a)

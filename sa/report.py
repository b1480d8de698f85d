"""Reporting: obligations, violations, known findings, evidence files."""
import json, os, time
from .db import VERIF, AnalysisError

KNOWN = os.path.join(VERIF, "known_findings.txt")


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:"):
                # known: property=C01 key=<key> :: description
                head, _, desc = line[6:].partition("::")
                d = dict(x.split("=", 1) for x in head.split() if "=" in x)
                out[(d["property"], d["key"])] = desc.strip()
    return out


class Report:
    def __init__(s, prop, tier, model):
        s.prop = prop
        s.tier = tier
        s.m = model
        s.t0 = time.time()
        s.obl = []          # (rule, instance, where, ok)
        s.viol = []
        s.notes = []
        s.assume = []
        s.floors = []
        s.rules = {}
        s.extra = {}
        s.fns = set()

    def rule(s, rid, text):
        s.rules[rid] = text

    def ok(s, rule, instance, where=""):
        s.obl.append((rule, instance, where, True))

    def bad(s, rule, instance, where, text, path=None):
        """instance: stable identification (no line numbers)"""
        s.obl.append((rule, instance, where, False))
        s.viol.append({"rule": rule, "instance": instance, "where": where, "text": text, "path": path or []})

    def check(s, cond, rule, instance, where, text, path=None):
        if cond:
            s.ok(rule, instance, where)
        else:
            s.bad(rule, instance, where, text, path)

    def floor(s, rule, n, what):
        """fewer than n instances of a rule = analysis broken"""
        s.floors.append((rule, n, what))

    def analysed(s, fns):
        for f in fns:
            s.fns.add(f if isinstance(f, str) else f.f)

    def finish(s):
        known = load_known()
        fresh, seen = [], set()
        kf = []
        for v in s.viol:
            key = (v["rule"] + "|" + v["instance"]).replace(" ", "_")
            v["key"] = key
            if key in seen:
                continue
            seen.add(key)
            if (s.prop, key) in known:
                kf.append((key, known[(s.prop, key)]))
            else:
                fresh.append(v)
        counts = {}
        for r, i, w, ok in s.obl:
            c = counts.setdefault(r, [0, 0])
            c[0] += 1
            c[1] += ok
        expl = {
            "units": len(s.m.tus) if s.m else 0,
            "functions_in_program": len(s.m.fns) if s.m else 0,
            "functions_analysed": len(s.fns),
            "rules": {r: {"rule": s.rules.get(r, ""), "instances": counts[r][0], "satisfied": counts[r][1]} for r in sorted(counts)},
        }
        expl.update(s.extra)
        text = "%d rule instances over %d functions of %d translation units; rules: %s" % (
            len(s.obl), len(s.fns), expl["units"], "; ".join("%s: %s" % kv for kv in sorted(s.rules.items())))
        ev = {
            "property": s.prop, "tier": s.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {"explanation": text, "analysed": expl,
                         "samples": ["%s %s %s" % (r, i, w) for r, i, w, ok in s.obl[:40]],
                         "obligations_checked": len(s.obl),
                         "functions": sorted(s.fns)[:400],
                         "known_findings": [k for k, _ in kf]},
            "assumptions": s.assume,
            "wall_s": round(time.time() - s.t0, 3),
            "violations": len(fresh),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, s.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        rp = os.path.join(d, s.prop + "-report.txt")
        with open(rp, "w") as fh:
            fh.write("property %s\n" % s.prop)
            for v in fresh:
                fh.write("\n[%s] %s\n  at %s\n  %s\n" % (v["rule"], v["instance"], v["where"], v["text"]))
                fh.write("  rule: %s\n" % s.rules.get(v["rule"], ""))
                for p in v["path"]:
                    fh.write("    | %s\n" % p)
        print("%s: %d rule instances, %d functions analysed, %d translation units (%.1fs)" %
              (s.prop, len(s.obl), len(s.fns), expl["units"], time.time() - s.t0))
        for r in sorted(counts):
            print("  %-6s %4d instances, %d satisfied: %s" % (r, counts[r][0], counts[r][1], s.rules.get(r, "")[:110]))
        for k, dsc in kf:
            print("KNOWN-FINDING: property=%s %s %s" % (s.prop, k, dsc))
        for v in fresh:
            print("  [%s] %s at %s: %s" % (v["rule"], v["instance"], v["where"], v["text"]))
        if fresh:
            print("VIOLATION property=%s replay=%s" % (s.prop, rp))
            return 1
        for r, n, what in s.floors:
            have = counts.get(r, [0, 0])[0]
            if have < n:
                raise AnalysisError("rule %s: only %d instances (%s), at least %d were confirmed by hand" % (r, have, what, n))
        return 0

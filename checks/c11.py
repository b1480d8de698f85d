"""C11: every option does what its registration and the option reference say."""
import os
import re
from sa.db import AnalysisError, REPO
from sa.guards import short
from sa.loops import strip
from sa.model import walk

RO, OL = "Ipopt::RegisteredOptions::", "Ipopt::OptionsList::"
RULES = {
    "R1": "every option that is read is registered, with the type it is read as, and every registered option is read",
    "R2": "a setting of an option selects the behaviour it names (position in the list of settings = value of the enumeration)",
    "R3": "the value of an option is stored in the parameter that belongs to it",
    "R4": "options are read under the prefix the component was given",
    "R5": "registered defaults lie within their registered bounds or settings; names and settings are unambiguous",
    "R6": "type, bounds, settings and default agree with the option reference",
    "R7": "the text of an option is only compared with settings it can have",
}

KINDS = {  # registration: (type, lower, lower strict, upper, upper strict, default) as argument positions
    "AddNumberOption": ("real", None, None, None, None, 2),
    "AddLowerBoundedNumberOption": ("real", 2, 3, None, None, 4),
    "AddUpperBoundedNumberOption": ("real", None, None, 2, 3, 4),
    "AddBoundedNumberOption": ("real", 2, 3, 4, 5, 6),
    "AddIntegerOption": ("integer", None, None, None, None, 2),
    "AddLowerBoundedIntegerOption": ("integer", 2, None, None, None, 3),
    "AddUpperBoundedIntegerOption": ("integer", None, None, 2, None, 3),
    "AddBoundedIntegerOption": ("integer", 2, None, 3, None, 4),
}
READ = {"GetNumericValue": "real", "GetIntegerValue": "integer", "GetStringValue": "string", "GetEnumValue": "string", "GetBoolValue": "bool"}
BOOLS = {"yes", "no", "true", "false", "on", "off"}

# what each setting means: the enumerator the documented behaviour is programmed under
MEANING = {
    "constraint_violation_norm_type": {"1-norm": "NORM_1", "2-norm": "NORM_2", "max-norm": "NORM_MAX"},
    "pardiso_matching_strategy": {"complete": "COMPLETE", "complete+2x2": "COMPLETE2x2", "constraints": "CONSTRAINT"},
    "adaptive_mu_globalization": {"kkt-error": "KKT_ERROR", "obj-constr-filter": "FILTER_OBJ_CONSTR", "never-monotone-mode": "NEVER_MONOTONE_MODE"},
    "adaptive_mu_kkt_norm_type": {"1-norm": "NM_NORM_1", "2-norm-squared": "NM_NORM_2_SQUARED", "max-norm": "NM_NORM_MAX", "2-norm": "NM_NORM_2"},
    "quality_function_norm_type": {"1-norm": "NM_NORM_1", "2-norm-squared": "NM_NORM_2_SQUARED", "max-norm": "NM_NORM_MAX", "2-norm": "NM_NORM_2"},
    "quality_function_centrality": {"none": "CEN_NONE", "log": "CEN_LOG", "reciprocal": "CEN_RECIPROCAL", "cubed-reciprocal": "CEN_CUBED_RECIPROCAL"},
    "quality_function_balancing_term": {"none": "BT_NONE", "cubic": "BT_CUBIC"},
    "fixed_variable_treatment": {"make_parameter": "MAKE_PARAMETER", "make_parameter_nodual": "MAKE_PARAMETER_NODUAL", "make_constraint": "MAKE_CONSTRAINT", "relax_bounds": "RELAX_BOUNDS"},
    "derivative_test": {"none": "NO_TEST", "first-order": "FIRST_ORDER_TEST", "second-order": "SECOND_ORDER_TEST", "only-second-order": "ONLY_SECOND_ORDER_TEST"},
    "hessian_approximation": {"exact": "EXACT", "limited-memory": "LIMITED_MEMORY"},
    "jacobian_approximation": {"exact": "JAC_EXACT", "finite-difference-values": "JAC_FINDIFF_VALUES"},
    "gradient_approximation": {"exact": "OBJGRAD_EXACT", "finite-difference-values": "OBJGRAD_FINDIFF_VALUES"},
    "corrector_type": {"none": "NO_CORRECTOR", "affine": "AFFINE_CORRECTOR", "primal-dual": "PRIMAL_DUAL_CORRECTOR"},
    "print_options_mode": {"text": "OUTPUTTEXT", "latex": "OUTPUTLATEX", "doxygen": "OUTPUTDOXYGEN"},
    "bound_mult_init_method": {"constant": "B_CONSTANT", "mu-based": "B_MU_BASED"},
    "alpha_for_y": {"primal": "PRIMAL_ALPHA_FOR_Y", "bound-mult": "DUAL_ALPHA_FOR_Y", "min": "MIN_ALPHA_FOR_Y", "max": "MAX_ALPHA_FOR_Y", "full": "FULL_STEP_FOR_Y",
                    "min-dual-infeas": "MIN_DUAL_INFEAS_ALPHA_FOR_Y", "safer-min-dual-infeas": "SAFE_MIN_DUAL_INFEAS_ALPHA_FOR_Y",
                    "primal-and-full": "PRIMAL_AND_FULL_ALPHA_FOR_Y", "dual-and-full": "DUAL_AND_FULL_ALPHA_FOR_Y", "acceptor": "LSACCEPTOR_ALPHA_FOR_Y"},
    "inf_pr_output": {"internal": "INTERNAL", "original": "ORIGINAL"},
    "limited_memory_update_type": {"bfgs": "BFGS", "sr1": "SR1"},
    "limited_memory_initialization": {"scalar1": "SCALAR1", "scalar2": "SCALAR2", "scalar3": "SCALAR3", "scalar4": "SCALAR4", "constant": "CONSTANT"},
    "hessian_approximation_space": {"nonlinear-variables": "NONLINEAR_VARS", "all-variables": "ALL_VARS"},
}
# parameters that do not bear the name of their option
PARAMS = {
    "refs_red_fact_": ["adaptive_mu_kkterror_red_fact"], "num_refs_max_": ["adaptive_mu_kkterror_red_iters"],
    "restore_accepted_iterate_": ["adaptive_mu_restore_previous_iterate"], "do_boundcheck_": ["sens_boundcheck"],
    "delta_xs_max_": ["max_hessian_perturbation"], "delta_xs_min_": ["min_hessian_perturbation"], "delta_xs_first_inc_fact_": ["perturb_inc_fact_first"],
    "delta_xs_inc_fact_": ["perturb_inc_fact"], "delta_xs_dec_fact_": ["perturb_dec_fact"], "delta_xs_init_": ["first_hessian_perturbation"],
    "delta_cd_val_": ["jacobian_regularization_value"], "delta_cd_exp_": ["jacobian_regularization_exponent"],
    "scaling_max_gradient_": ["nlp_scaling_max_gradient"], "scaling_obj_target_gradient_": ["nlp_scaling_obj_target_gradient"],
    "scaling_constr_target_gradient_": ["nlp_scaling_constr_target_gradient"], "scaling_min_value_": ["nlp_scaling_min_value"],
    "eta_": ["eta_phi"], "sigma_safe_max_": ["limited_memory_init_val_max"], "sigma_safe_min_": ["limited_memory_init_val_min"],
    "rho_": ["rho", "resto_penalty_parameter"], "eta_factor_": ["resto_proximity_weight"], "max_iterations_": ["max_iter"], "maximum_iters_": ["max_iter"],
    "maximum_resto_iters_": ["max_resto_iter"], "kappa_resto_": ["required_infeasibility_reduction"], "orig_constr_viol_tol_": ["constr_viol_tol"],
    "bound_eps_": ["sens_bound_eps"], "kkt_residuals_": ["sens_kkt_residuals"], "compute_eigenvalues_": ["rh_eigendecomp"],
    "allow_inexact_": ["sens_allow_inexact_backsolve"],
    # a warm start parameter falls back to the general one when it was not set
    "warm_start_bound_push_": ["warm_start_bound_push", "bound_push"], "warm_start_bound_frac_": ["warm_start_bound_frac", "bound_frac"],
    "warm_start_slack_bound_push_": ["warm_start_slack_bound_push", "slack_bound_push", "bound_push"],
    "warm_start_slack_bound_frac_": ["warm_start_slack_bound_frac", "slack_bound_frac", "bound_frac"],
}
# parameters of one linear solver: named like the option without the solver's name
TAIL = {"pivtol_", "pivtolmax_", "umax_", "u", "small", "small_", "static_", "liw_init_factor_", "la_init_factor_", "meminc_factor_", "skip_inertia_check_", "ignore_singularity_", "mem_percent_", "print_level"}
# options read on behalf of the whole application, which has no prefix
NOPREFIX = {
    "resto.theta_max_fact": "looked up under its full name",
    "nlp_scaling_method": "one scaling for the whole application",
    "timing_statistics": "one set of timers for the whole application",
    "constr_viol_tol": "the restoration phase must know the tolerance of the original problem",
}
UNUSED = {}
UNREAD = {"wsmp_iterative": "read only where WSMP is compiled in"}
# defaults that depend on the build
BUILD = {"ma77_order", "ma86_order", "pardisolib", "hsllib"}


def lit(n):
    s = [x["v"] for x in walk(n) if x["k"] == "str"]
    return s[0] if len(s) == 1 else None


def const(m, n):
    """value of a constant expression or None"""
    n = strip(n)
    if n is None:
        return None
    k = n["k"]
    if k in ("int", "flt", "bool"):
        return float(n["v"])
    if k == "cast":
        return const(m, n["e"])
    if k == "un" and n["op"] in ("-", "+"):
        v = const(m, n["e"])
        return None if v is None else -v if n["op"] == "-" else v
    if k == "bin" and n["op"] in "+-*/":
        a, b = const(m, n["a"]), const(m, n["b"])
        if a is None or b is None:
            return None
        return a + b if n["op"] == "+" else a - b if n["op"] == "-" else a * b if n["op"] == "*" else a / b if b else None
    if k == "ref" and n.get("d") == "enum":
        return float(n["v"])
    if k == "call" and short(n) in ("pow",):
        a, b = (const(m, x) for x in n["a"])
        return None if a is None or b is None else a ** b
    if k == "ref" and n.get("d") == "global":
        v = m.vars.get(n.get("u")) or m.vars.get(n["n"])
        if isinstance(v, list):
            v = v[0] if v else None
        if v and v.get("i") is not None:
            return const(m, v["i"])
    return None


class Reg:
    pass


def registrations(m, r):
    regs = {}
    fns = []
    for f in sorted(m.fns.values(), key=lambda f: (f.file or "", f.l or 0)):
        if f.body is None or f.f.startswith(RO + "Add"):
            continue
        for n in f.nodes():
            if n["k"] != "call" or not n.get("f", "").startswith(RO + "Add"):
                continue
            b = short(n)
            if b == "AddOption":
                continue
            fns.append(f)
            x = Reg()
            x.name, x.where, x.fn = lit(n["a"][0]), "%s:%d" % (f.file, n["l"]), f
            x.lo = x.hi = x.los = x.his = x.default = None
            x.settings = None
            a = n["a"]
            if x.name is None:
                raise AnalysisError("name of the option registered at %s is not a literal" % x.where)
            if b in KINDS:
                x.type, lo, los, hi, his, d = KINDS[b]
                x.lo = const(m, a[lo]) if lo is not None else None
                x.hi = const(m, a[hi]) if hi is not None else None
                x.haslo, x.hashi = lo is not None, hi is not None
                x.los = bool(const(m, a[los])) if los is not None else False
                x.his = bool(const(m, a[his])) if his is not None else False
                x.default = const(m, a[d])
            elif b == "AddBoolOption":
                x.type, x.settings = "string", ["yes", "no"]
                v = const(m, a[2])
                x.default = None if v is None else "yes" if v else "no"
            elif re.fullmatch(r"AddStringOption\d+", b):
                k = int(b[len("AddStringOption"):])
                x.type, x.default = "string", lit(a[2])
                x.settings = [lit(a[3 + 2 * i]) for i in range(k)]
            elif b == "AddStringOption":
                x.type, x.default = "string", lit(a[2])
                x.settings = None
            else:
                raise AnalysisError("unknown kind of registration %s at %s" % (b, x.where))
            regs.setdefault(x.name, []).append(x)
    r.analysed(fns)
    return regs


def reads(m):
    out = []
    for f in sorted(m.fns.values(), key=lambda f: (f.file or "", f.l or 0)):
        if f.body is None or f.f.startswith(OL):
            continue
        nodes = None
        for n in f.nodes():
            if n["k"] == "call" and n.get("f", "").startswith(OL + "Get") and short(n) in READ:
                nodes = nodes or list(f.nodes())
                out.append((f, n, nodes))
    return out


def target(n):
    """('mem', class-qualified field) | ('loc', id)"""
    n = strip(n)
    while n is not None and n["k"] in ("sub",):
        n = strip(n["a"] if "a" in n else n["b"])
    if n is None:
        return None
    if n["k"] == "mem":
        return ("mem", n["n"])
    if n["k"] == "ref" and "id" in n:
        return ("loc", n["id"])
    return None


def stored(f, n, nodes):
    """fields and enumerations the value that was read ends up in"""
    t = target(n["a"][1])
    if t is None:
        return [], []
    if t[0] == "mem":
        return [t[1]], []
    i0 = next(i for i, x in enumerate(nodes) if x is n)
    flds, enums = [], []
    for x in nodes[i0 + 1:]:
        if x["k"] == "call" and x.get("f", "").startswith(OL + "Get") and x is not n and len(x["a"]) > 1 and target(x["a"][1]) == t:
            break

        def uses(e):
            return any(y["k"] == "ref" and y.get("id") == t[1] for y in walk(e))
        if x["k"] == "cast" and strip(x["e"])["k"] == "ref" and strip(x["e"]).get("id") == t[1]:
            enums.append(x["t"])
        if x["k"] == "bin" and x["op"] == "=" and strip(x["a"])["k"] == "mem":
            v = strip(x["b"])
            while v["k"] in ("cast",) or v["k"] == "ctor" and len(v["a"]) == 1:
                v = strip(v["e"] if v["k"] == "cast" else v["a"][0])
            if v["k"] == "ref" and v.get("id") == t[1]:
                flds.append(strip(x["a"])["n"])
        if x["k"] == "bin" and x["op"] == "=" and target(x["a"]) == t and not uses(x["b"]):
            break
    return flds, enums


def num(s):
    s = s.strip().rstrip(".")
    s = re.sub(r"\s*&middot;\s*10<sup>([+-]?\d+)</sup>", r"e\1", s)
    s = re.sub(r"10<sup>([+-]?\d+)</sup>", r"1e\1", s)
    try:
        return float(s)
    except ValueError:
        return None


def reference():
    """the option reference: name -> (type, lo, lo strict, hi, hi strict, default, settings)"""
    p = os.path.join(REPO, "doc/options.dox")
    out = {}
    if not os.path.exists(p):
        return out
    with open(p) as fh:
        txt = fh.read()
    for blk in re.split(r"^\\anchor OPT_", txt, flags=re.M)[1:]:
        name = blk.split("\n", 1)[0].strip()
        q = re.search(r"<blockquote>(.*?)</blockquote>", blk, re.S)
        if not q:
            continue
        q = q.group(1)
        g = re.search(r"The valid range for this (real|integer) option is (.*?) and its default value is (.*?)\.?\s*$", q, re.M)
        if g:
            ty, rng, d = g.groups()
            lo = hi = None
            los = his = False
            rng = rng.replace("&le;", "<=").replace("&ge;", ">=")
            parts = re.split(r"\s*(<=|<)\s*", rng) if rng != "unrestricted" else []
            if rng != "unrestricted":
                try:
                    i = parts.index(name)
                except ValueError:
                    continue
                if i >= 2:
                    lo, los = num(parts[i - 2]), parts[i - 1] == "<"
                if i + 2 < len(parts):
                    hi, his = num(parts[i + 2]), parts[i + 1] == "<"
            out[name] = (ty, lo, los, hi, his, num(d), None)
            continue
        g = re.search(r'The default value for this string option is "(.*?)"', q)
        if g:
            s = None
            if "Possible values:" in q:
                s = [x.split(":")[0].strip() for x in re.findall(r"^ - (.*)$", q.split("Possible values:")[1], re.M)]
            elif re.search(r"Possible values: (.*)", q):
                s = None
            out[name] = ("string", None, False, None, False, g.group(1), s)
    return out


def close(a, b):
    return a == b or a is not None and b is not None and abs(a - b) <= 1e-5 * max(abs(a), abs(b))


def run(m, r):
    for k, v in RULES.items():
        r.rule(k, v)
    regs = registrations(m, r)
    rd = reads(m)
    if len(regs) < 100 or len(rd) < 150:
        raise AnalysisError("option registrations or reads not found")
    r.analysed(sorted({f for f, n, x in rd}, key=lambda f: f.f))
    names, kept, loc = {}, {}, set()
    for f, n, nodes in rd:
        o = lit(n["a"][0])
        w = "%s:%d" % (f.file, n["l"])
        inst = "%s in %s" % (o, f.f.replace("Ipopt::", ""))
        if o is None:
            if f.f.startswith("Ipopt::"):
                r.check(strip(n["a"][0])["k"] in ("ref", "ctor", "call", "mem", "op"), "R1", inst, w, "the name of the option is unknown")
            continue
        base = o.rsplit(".", 1)[-1]
        names[base] = True
        want = READ[short(n)]
        x = regs.get(base)
        r.check(x is not None, "R1", inst, w, "option %s is read but never registered: reading it throws OPTION_INVALID" % o)
        if x is None:
            continue
        x = x[0]
        if want in ("real", "integer"):
            r.check(x.type == want, "R1", inst, w, "option %s is registered as %s but read as %s: reading it throws OPTION_INVALID" % (o, x.type, want))
        else:
            r.check(x.type == "string" and (want != "bool" or x.settings is not None and all(s is None or s.lower() in BOOLS for s in x.settings)), "R1", inst, w,
                    "option %s is registered as %s%s but read as %s" % (o, x.type, " " + str(x.settings) if x.settings else "", want))
        # R2
        flds, enums = stored(f, n, nodes)
        if short(n) == "GetEnumValue" and x.settings:
            for e in enums:
                vals = (m.enums.get(e) or [None])[0]
                if not vals:
                    continue
                by = {v["v"]: v["n"].rsplit("::", 1)[-1] for v in vals["vals"]}
                mean = MEANING.get(base, {})
                known = set(mean.values())
                for i, s in enumerate(x.settings):
                    got = by.get(i)
                    ok = got is not None and (got == mean.get(s) or s not in mean or mean[s] not in by.values() and got not in known)
                    r.check(ok, "R2", "%s=%s in %s" % (o, s, f.f.replace("Ipopt::", "")), x.where, "setting \"%s\" of option %s selects %s" % (s, o, got))
        # R3
        if not flds:
            loc.add(base)
        for fl in flds:
            kept[fl] = (base, w)
            b = fl.rsplit("::", 1)[-1]
            owners = PARAMS.get(b)
            if owners is None:
                s = b[:-1] if b.endswith("_") else b
                if b in TAIL or s in TAIL:
                    owners = [k for k in regs if k.endswith("_" + s.rstrip("_")) or k == s]
                elif s in regs:
                    owners = [s]
            r.check(owners is None or base in owners, "R3", "%s in %s" % (o, fl.replace("Ipopt::", "")), w, "option %s is stored in %s, the parameter of option %s" % (o, b, (owners or ["?"])[0]))
        # R4
        ps = [p for p in f.p if p["t"] == "const std::basic_string<char> &" or p["t"] == "const std::string &"]
        if len(ps) == 1 and any("OptionsList" in p["t"] for p in f.p) and len(n["a"]) > 2:
            good = uses_prefix(f, n["a"][2], ps[0])
            r.check(good or o in NOPREFIX, "R4", inst, w, "option %s is not read under the prefix %s was given" % (o, f.name()))
        else:
            r.ok("R4", inst, w)
        # R7
        if short(n) == "GetStringValue" and x.settings and "*" not in x.settings:
            t = target(n["a"][1])
            i0 = next(i for i, y in enumerate(nodes) if y is n)
            for y in nodes[i0 + 1:]:
                if y["k"] == "call" and y.get("f", "").startswith(OL + "Get") and len(y["a"]) > 1 and target(y["a"][1]) == t:
                    break
                if y["k"] == "call" and short(y) in ("operator==", "operator!=", "compare") and t is not None:
                    ops = ([y["o"]] if y.get("o") else []) + y["a"]
                    if any(target(z) == t for z in ops):
                        for z in ops:
                            s = lit(z)
                            if s is not None:
                                r.check(s in x.settings, "R7", "%s==%s in %s" % (o, s, f.f.replace("Ipopt::", "")), "%s:%d" % (f.file, y["l"]), "option %s is compared with \"%s\", which it can never be" % (o, s))
    used = {}
    for f in m.fns.values():
        if f.body is None:
            continue
        for x in f.nodes():
            if x["k"] == "mem":
                used[x["n"]] = used.get(x["n"], 0) + 1
            elif x["k"] == "bin" and x["op"] == "=" and strip(x["a"])["k"] == "mem":
                used[strip(x["a"])["n"]] = used.get(strip(x["a"])["n"], 0) - 1
            elif x["k"] == "call" and x.get("f", "").startswith(OL + "Get") and len(x["a"]) > 1 and target(x["a"][1]) and target(x["a"][1])[0] == "mem":
                used[target(x["a"][1])[1]] = used.get(target(x["a"][1])[1], 0) - 1
    byopt = {}
    for fl, (o, w) in sorted(kept.items()):
        byopt.setdefault(o, []).append((fl, w))
    for o, l in sorted(byopt.items()):
        fl, w = l[0]
        r.check(any(used.get(x, 0) > 0 or "control_d::" in x for x, _ in l) or o in loc or o in UNUSED, "R1", "%s is used" % o, w, "option %s is stored in %s, which nothing looks at: setting it has no effect" % (o, fl.rsplit("::", 1)[-1]))
    for o, xs in sorted(regs.items()):
        r.check(o in names or o in UNREAD, "R1", "%s is read" % o, xs[0].where, "option %s is registered but no code reads it: setting it has no effect" % o)
        r.check(len({x.fn.f for x in xs}) == len(xs) == 1, "R5", "%s is registered once" % o, xs[-1].where, "option %s is registered %d times: registering it throws" % (o, len(xs)))
        x = xs[0]
        if x.type in ("real", "integer"):
            d = x.default
            if d is not None:
                r.check(not (x.lo is not None and (d < x.lo or x.los and d == x.lo)), "R5", "default of %s" % o, x.where, "default %g of option %s is below its lower bound %g" % (d, o, x.lo or 0))
                r.check(not (x.hi is not None and (d > x.hi or x.his and d == x.hi)), "R5", "default of %s" % o, x.where, "default %g of option %s is above its upper bound %g" % (d, o, x.hi or 0))
            if x.lo is not None and x.hi is not None:
                r.check(x.lo < x.hi, "R5", "range of %s" % o, x.where, "option %s has an empty range" % o)
        elif x.settings is not None:
            low = [s.lower() for s in x.settings if s is not None]
            r.check(len(set(low)) == len(low), "R5", "settings of %s" % o, x.where, "option %s has two settings that cannot be told apart" % o)
            if x.default is not None and None not in x.settings:
                r.check(x.default in x.settings or "*" in x.settings, "R5", "default of %s" % o, x.where, "default \"%s\" of option %s is not one of its settings" % (x.default, o))
    doc = reference()
    for o, xs in sorted(regs.items()):
        x = xs[0]
        d = doc.get(o)
        if d is None:
            continue
        ty, lo, los, hi, his, df, st = d
        r.check(ty == x.type, "R6", "type of %s" % o, x.where, "option %s is documented as %s but registered as %s" % (o, ty, x.type))
        if ty != x.type:
            continue
        if ty == "string":
            if x.default is not None and o not in BUILD:
                r.check(x.default == df, "R6", "default of %s" % o, x.where, "option %s is documented with default \"%s\", registered with \"%s\"" % (o, df, x.default))
            if st and x.settings and None not in x.settings and "*" not in x.settings:
                r.check(set(st) == set(x.settings), "R6", "settings of %s" % o, x.where, "option %s is documented with settings %s, registered with %s" % (o, ", ".join(st), ", ".join(x.settings)))
        else:
            if x.default is not None and df is not None:
                r.check(close(x.default, df), "R6", "default of %s" % o, x.where, "option %s is documented with default %g, registered with %g" % (o, df, x.default))
            for what, has, dv, ds, cv, cs in (("lower", x.haslo, lo, los, x.lo, x.los), ("upper", x.hashi, hi, his, x.hi, x.his)):
                if has and cv is None:
                    continue
                ok = (dv is None) == (not has) and (dv is None or close(cv, dv) and (bool(ds) == bool(cs) or ty == "integer"))
                r.check(ok, "R6", "%s bound of %s" % (what, o), x.where, "the %s bound of option %s is documented as %s%s, registered as %s%s" % (what, o, "strict " if ds else "", dv, "strict " if cs else "", cv))
    r.floor("R1", 600, "reads and registrations")
    r.floor("R2", 40, "settings of enumerations")
    r.floor("R3", 150, "parameters")
    r.floor("R4", 200, "prefixes")
    r.floor("R5", 450, "defaults")
    r.floor("R6", 450, "documented facts")
    r.floor("R7", 30, "comparisons")


def uses_prefix(f, n, p, depth=0):
    from sa.loops import const_inits
    for x in walk(n):
        if x["k"] == "ref" and x.get("id") == p["id"]:
            return True
        if x["k"] == "ref" and "id" in x and depth < 3:
            i = const_inits(f).get(x["id"])
            if i is None:
                i = next((v["i"] for y in f.nodes() if y["k"] == "decl" for v in y["v"] if v.get("id") == x["id"] and v.get("i") is not None and v["t"].startswith("const ")), None)
            if i is not None and uses_prefix(f, i, p, depth + 1):
                return True
    return False

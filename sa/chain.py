"""The chain of problem callbacks: which calls hand a success/failure report upwards."""
from .model import walk, show, deref

TNLP_CB = ["get_nlp_info", "get_bounds_info", "get_starting_point", "get_warm_start_iterate",
           "eval_f", "eval_grad_f", "eval_g", "eval_jac_g", "eval_h",
           "get_scaling_parameters", "get_list_of_nonlinear_variables"]
NLP_CB = ["GetSpaces", "GetBoundsInformation", "GetStartingPoint", "GetWarmStartIterate",
          "Eval_f", "Eval_grad_f", "Eval_c", "Eval_jac_c", "Eval_d", "Eval_jac_d", "Eval_h", "ProcessOptions"]
IPNLP_CB = ["Initialize", "InitializeStructures", "GetWarmStartIterate"]
# C function-pointer members/fields holding user callbacks
C_CB = {"eval_f_", "eval_grad_f_", "eval_g_", "eval_jac_g_", "eval_h_"}
F_CB = {"EVAL_F", "EVAL_GRAD_F", "EVAL_G", "EVAL_JAC_G", "EVAL_HESS"}
AMPL_CB = {"Objval", "Objgrd", "Conval", "Jacval", "Xknown"}


def virtual_set(m, spec):
    """usr -> short name, for the listed virtual methods and all their overriders"""
    out = {}
    for cls, names in spec:
        for x in m.cls(cls)["methods"]:
            if x["n"].rsplit("::", 1)[-1] in names and x["rt"] == "bool" and x.get("virt"):
                out[x["u"]] = x["n"].rsplit("::", 1)[-1]
                for v in m.all_overriders(x["u"]):
                    out[v] = x["n"].rsplit("::", 1)[-1]
    return out


def callbacks(m):
    if not hasattr(m, "_cbs"):
        m._cbs = virtual_set(m, [("Ipopt::TNLP", TNLP_CB), ("Ipopt::NLP", NLP_CB), ("Ipopt::IpoptNLP", IPNLP_CB)])
    return m._cbs


def fp_member(n):
    """name of the struct/class member or variable through which a function pointer call goes"""
    e = deref(n.get("fe"))
    while e is not None and e["k"] in ("cast", "un"):
        e = e["e"]
    if e is not None and e["k"] in ("mem", "ref"):
        return e["n"].rsplit("::", 1)[-1]
    return None


def jni_call(n):
    """('eval_f_') for env->CallXxxMethod(obj, mid, ...)"""
    f = n.get("f", "")
    if f.startswith("JNIEnv_::Call") and len(n["a"]) >= 2:
        e = deref(n["a"][1])
        if e is not None and e["k"] == "mem":
            return e["n"].rsplit("::", 1)[-1]
        return "?"
    return None

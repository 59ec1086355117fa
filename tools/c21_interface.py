"""Classify the parameters C21 reports on the reference tree: family-wide signatures go to data/c21_interface.json.

Maintenance tool (not run by any check): prints what it cannot classify.
"""
import json
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.project import Project
from sa.scopes import functions

SIG = "common signature of a family of routines (called through one interface with the same arguments)"
FIXED = "input of a common signature that this special case does not depend on (a constant function of it)"
ENTRY = "starting values and null models of the same fit use the default settings"
ALWAYS = "accepted for compatibility, does not change the result by design"
RULES = [
    (r"families\.py:\w+\.", SIG),
    (r"misc/sha\w+\.py:|misc/skewnorm_dist\.py:", SIG),
    (r"pyfa2?/(rotation|criterion)\.py:", FIXED),
    (r"\|(q)$", SIG),
    (r"OLS\.hessian\|reml|LinearModel\.hessian\|reml", FIXED),
    (r"\|use_sw$|use_LDLt_decomposition$", ALWAYS),
    (r"get_\w+_corr\|n_var|get_factor_cov\|n_var", SIG),
    (r"_re_mod_orig\.py", "superseded implementation kept for reference"),
    (r"re_mod\.py:UnstructuredCovariance|re_mod\.py:DiagResidualCovTerm", SIG),
    (r"fitfunctions\.py:CovarianceFitFunction", SIG),
    (r"update_chol\|inverse", SIG),
    (r"crspline_knots\|degree|bspline_penalty\|intercept|srmr\|df|crossval_path\|lambdas|make_termwise_constraint_matrices2?\|scale", SIG),
    (r"dev_grad\|lam|dev_hess\|lam|penalty_hess\|beta|weighted_elnet\|lam0", SIG),
    (r"GLM\.predict\|Y", SIG),
    (r"ModelData\.__init__\|ddof", "kept as a public attribute"),
    (r"sample_tau\|v|construct_random_effects\|n_vars|get_jacmats\|g_indices|CovarianceDerivatives.__init__\|n_matrices", SIG),
    (r"shared_values|check_arr", SIG),
    (r"Huber\.E_psi\|c", FIXED),
    (r"ZeroConstraint\.grad\|params", FIXED),
    (r"SimulatedSEM\.set_parameter\|lhs_eq_rhs", "presence flag: only its being given matters"),
    (r"sample_(ordinal_probit|binomial|bernoulli|normal)\|save_(pred|u|lvar)", "sampling kernels called by sample(), which records the choice on the object"),
    (r"triangular_number\(offset\)", "an unrelated option of the same name"),
    (r"(in one of its calls)$", ENTRY),
    (r"GLM\.fit\|GLM\._optimize\(opt_kws\)|ZeroInflated\w+\.fit\|\w+\._fit\(opt_kws\)", ENTRY),
    (r"bootstrap\|\w+\.fit\((method|opt_kws)\)", ENTRY),
    (r"ZeroInflatedNBinom\.__init__\|NegativeBinomial.__init__\(weights\)", "an unrelated option of the same name"),
    (r"threshold_search\(", "an inner search with its own accuracy"),
]
v = json.load(open("evidence/C21.violations.json"))
P = Project()
out = dict(functions=sorted({f.where for f in functions(P) if f.outer is None}), entries=[])
for x in v:
    rule, where, what = x["key"].split("|")
    for pat, why in RULES:
        if re.search(pat, where + "|" + what):
            out["entries"].append(dict(rule=rule, where=where, what=what, why=why))
            break
    else:
        print(x["key"])
if "-w" in sys.argv:
    json.dump(out, open("data/c21_interface.json", "w"), indent=1)

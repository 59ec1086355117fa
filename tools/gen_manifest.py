"""regenerate MANIFEST.json: claimed = a check module exists and is listed in CLAIMS"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the source to symbolic values, formal differentiation, normal-form equality rule"
CLAIMS = {
 "C26": (AI, "As C01; tables of two to three rows and columns with symbolic counts, thresholds and correlation. The bivariate normal distribution function is one term with known derivatives; the quadrature kernels that compute it are compared with it once (nodes, weights and branches are constants of the source) and assumed by every caller. Numerical Hessians and the hand-written Newton loop are not decided."),
 "C23": (AI, "Real constructors and methods on fixed small grouping layouts (five to seven rows, two or three groups, one or two terms, one or two responses) with responses, covariates and covariance parameters symbolic; CHOLMOD is a permuted Cholesky factor by definition, compiled kernels have a dense meaning and a storage rule (their bounds are C13). 'agrees' is an identity test of the residual term at four high-precision points."),
 "C13": ("abstract interpretation of the compiled kernels' syntax trees (symbolic polynomial bounds, allocation typestate)", "C sources through clang's syntax tree, Cython sources through their own parser; every buffer access is bounded by a symbolic extent (loop intervals with polynomial bounds, invariants of compressed-sparse arrays, two-pass count-and-fill), every allocation follows a null/valid/freed typestate over every exit. Contract: structurally valid sparse inputs of conformable shapes, an in-place output that holds the result's pattern. Two accesses of coo_to_csc stay undecided."),
 "C14": ("interprocedural state (typestate) dataflow over attributes written by evaluation methods", "Every attribute an evaluation method writes: each public evaluation must rewrite what it reads before reading it, restore what it perturbs, or only memoise under a key that determines it. Attribute writes through values of unknown type are not seen."),
 "C12": ("interprocedural taint dataflow from unordered iteration to ordered results", "Every place where a set, frozenset, set algebra or key view is walked or turned into something ordered, followed through calls, attributes, containers and tables; values of unknown type are assumed ordered. Iteration order of dictionaries is insertion order."),
 "C21": ("interprocedural faint-variable (useful-parameter) dataflow", "Every parameter of every public function and constructor: it must reach a returned value, attribute, effect or decision that matters. That the influence is the documented one is not decided. Options kept for a common signature of a family are exempt."),
 "C10": ("interprocedural generator-provenance dataflow analysis", "Every function and constructor taking a generator or seed, each generator argument assumed supplied alone; flow-sensitive with None/False tests resolved, context-sensitive through calls that resolve in the package. Calls of unknown targets are not followed."),
 "C11": ("interprocedural alias and effect analysis", "Flow-sensitive origins with container contents and function summaries. Receivers of unknown type are assumed not to modify their arguments; compiled kernels, arguments named as outputs, announced in-place routines, procedures without a result and state threaded through every call are exempt."),
 "C18": ("gated value numbering (symbolic dataflow) of reporting functions", "Every function that stores, returns or tabulates a fit statistic, with opaque calls as uninterpreted functions of their arguments; statistics are recognised by the label they are reported under."),
 "C19": ("gated value numbering (symbolic dataflow) of reporting functions", "Every function that evaluates a tail probability or quantile of a reference distribution and reports it under a label; estimates and standard errors are uninterpreted terms."),
 "C20": ("abstract interpretation with symbolic polynomials and a symbolic step", "Each helper on polynomials of degree 3 to 5 with symbolic coefficients in one to three dimensions at fixed rational points; helpers are linear in the function, so by Taylor's theorem consistency on these polynomials is consistency on smooth functions."),
 "C15": ("interprocedural alias and effect analysis", "As C11, for objects that outlive a call: default arguments, class-level and module-level containers, cached results, process-wide settings."),
 "C16": ("scope, attribute and call-binding resolution over the syntax tree", "Names, imports, attributes of self and of known classes, and call signatures, for definitions that can be resolved; dynamic attributes, values of unknown type and packages that are not installed are undecided. Signatures and attributes of the third-party libraries are read from the installed libraries by introspection."),
 "C04": (AI, "Real constructors and methods at a fixed small shape (two or three rows, two columns, two smooth terms) with every number symbolic; third-party formula parsing and spline bases are opaque."),
 "C17": (AI, "Exact entry-by-entry comparison at sizes 1 to 4 (6 thorough) with symbolic entries; index arithmetic is constant-folded. Compiled Cython index generators are outside the analysed sources."),
 "C09": (AI, "Dimensions 3 x 1, 3 x 2 (4 x 2 thorough) for factor models, three observed and three latent variables with all six parameter matrices for structural models (one and two groups); formula parsing and pandas parameter tables are replaced by index tables the package's own indexers compute. 'agrees' (identity test of the residual term) for most entries."),
 "C08": (AI, "As C01, entry by entry at matrix sizes 2 and 3 (and 4 for one composition); index arrays and sparse pattern matrices are constant-folded."),
 "C07": (AI, "As C01: gradients for loadings of symbolic size, second derivatives and constraint Jacobians at 3 x 2."),
 "C05": (AI, "As C01; derivative arrays up to fourth order, 'agrees' (identity test of the residual term at 24 forty-digit points) for most third and fourth order entries."),
 "C06": (AI, "As C01, per branch of the piecewise losses; closed-form expectations are compared with a quadrature of the extracted integrand term at three tuning constants."),
 "C02": (AI, "As C01: bundled and single derivatives of every variance function against the formal derivative of that variance function."),
 "C03": (AI, "As C01, with an uninterpreted link: rules score, link-derivative, working-weights, deviance, residuals, dispersion, scale, total, weights-argument, canonical (see evidence)."),
 "C01": (AI, "Each obligation is an equality between the abstract value of one method body and the formal derivative (or inverse) of another; 'proved' means the residual rewrites to zero, 'agrees' means a 40-digit identity test of the residual term found no difference. Trusts the numpy/scipy transfer functions in sa/npmodel.py and real arithmetic in place of floating point."),
}
NA = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3-vt -c 'import mpmath, ast'", checks=[], not_applicable=[],
         notes="All checks parse /repo's current sources; nothing of /repo is imported or executed.")
for p in props:
    if p in CLAIMS:
        t, note = CLAIMS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3-vt run.py " + p, thorough_cmd="VERIF_TIER=thorough python3-vt run.py " + p,
                                technique=t, level="other", level_note=note))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "check not built yet")))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below (python3 tools/meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
P = {}
NA = {}


def p(pid, title, statement, over, quant, why, files, mech, observe, note="", state=None):
    assert len(title) <= 80 and statement.count(". ") <= 2 , pid
    P[pid] = dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": quant}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe,
                           "hook_needed": None, **({"state": state} if state else {})}, _note=note)


GEN = ("The existing tests compare a few simulated data sets with a second implementation at a tolerance; an error which needs a "
       "particular combination of options, repetition, fold or treatment, or which both implementations share, passes them.")
IN = ["inputs", "configurations"]
D = "doubleml/"

p("C01", "Partially linear regression estimate solves the documented moment equation",
  "For every outcome, treatment, sample split and nuisance prediction, the partially linear regression model's estimate for each "
  "treatment and repetition is the ratio of cross-fitted sample means given by the documented partialling-out score "
  "(residual on residual), by the IV-type score (outcome less the fitted g, instrumented by the treatment residual), or by a "
  "user-supplied score. Each reported score component equals the documented expression at every observation.",
  IN, "all real outcomes, treatments and nuisance predictions for fixed small sizes; scores, learner kinds, number of treatments, "
  "repetitions, folds and externally supplied predictions are varied", GEN,
  [D + "plm/plr.py", D + "double_ml_score_mixins.py"],
  [("score elements", D + "plm/plr.py:DoubleMLPLR._score_elements"), ("nuisance estimation", D + "plm/plr.py:DoubleMLPLR._nuisance_est"),
   ("linear estimate", D + "double_ml_score_mixins.py:LinearScoreMixin")],
  ["psi_elements, all_coef of a fitted model"])

p("C02", "Partially linear IV estimate solves the documented moment equation",
  "For every outcome, treatment, instrument(s), split and nuisance prediction, the partially linear IV model's estimate equals the "
  "documented ratio for the partialling-out score with one or several instruments, for the IV-type score, for the variants in which "
  "covariates are partialled out only of the instruments, or only of the treatment, and for a user-supplied score. Each reported score component equals the "
  "documented expression at every observation.",
  IN, "all real data and predictions for fixed small sizes; variants, instruments, repetitions and external predictions varied", GEN,
  [D + "plm/pliv.py", D + "double_ml_score_mixins.py"],
  [("score elements", D + "plm/pliv.py:DoubleMLPLIV._score_elements"), ("projections", D + "plm/pliv.py:DoubleMLPLIV._nuisance_est_partial_x/_z/_xz")],
  ["psi_elements, all_coef of a fitted model"])

p("C03", "Interactive regression (ATE, ATTE) uses the documented doubly robust score",
  "For every outcome, binary treatment pattern, split and nuisance prediction, the interactive regression model's estimate for the "
  "average effect, the effect on the treated, a user-supplied score and observation weights is the documented augmented "
  "inverse-propensity ratio, in every repetition. The outcome regressions are the ones trained on the training observations of the "
  "respective treatment arm, and propensities enter trimmed at the threshold and, on request, normalised.",
  IN, "all real outcomes, predictions and weights; treatment patterns, trimming, normalisation, weights, repetitions, external predictions varied", GEN,
  [D + "irm/irm.py", D + "double_ml_score_mixins.py", D + "utils/_estimation.py"],
  [("score elements", D + "irm/irm.py:DoubleMLIRM._score_elements"), ("weights", D + "irm/irm.py:DoubleMLIRM._get_weights"),
   ("nuisance estimation", D + "irm/irm.py:DoubleMLIRM._nuisance_est")],
  ["psi_elements, all_coef of a fitted model"])

p("C04", "Average potential outcomes and their contrasts follow the documented score",
  "For every outcome, discrete treatment, split and nuisance prediction, the average potential outcome estimate of each treatment "
  "level is the documented augmented inverse-propensity mean (also under weights, trimming and normalisation). Estimating several "
  "levels jointly gives for each level the single-level result, and a causal contrast is the difference of a level's estimate and "
  "scores and those of the reference level.",
  IN, "all real outcomes and predictions; levels, reference levels, weights, normalisation, repetitions varied", GEN,
  [D + "irm/apo.py", D + "irm/apos.py", D + "double_ml_score_mixins.py"],
  [("score elements", D + "irm/apo.py:DoubleMLAPO._score_elements"), ("causal contrast", D + "irm/apos.py:DoubleMLAPOS.causal_contrast")],
  ["psi_elements, all_coef; framework and causal_contrast of the joint model"])

p("C05", "Local average treatment effect estimate follows the documented score",
  "For every outcome, binary treatment and instrument, split and nuisance prediction, the interactive IV model's estimate is the "
  "documented ratio of the augmented effects of the instrument on outcome and treatment. Declaring that there are no always-takers or no "
  "never-takers fixes the respective take-up probability at zero or one, and propensities enter trimmed.",
  IN, "all real outcomes and predictions; compliance subgroups, trimming, normalisation, repetitions, external predictions varied", GEN,
  [D + "irm/iivm.py", D + "double_ml_score_mixins.py"],
  [("score elements", D + "irm/iivm.py:DoubleMLIIVM._score_elements"), ("nuisance estimation", D + "irm/iivm.py:DoubleMLIIVM._nuisance_est")],
  ["psi_elements, all_coef of a fitted model"],
  note="Normalised weights deviate from the documentation (known finding, key iivm-normalize-ipw).")

p("C06", "Sample selection estimate follows the documented score",
  "For every outcome, treatment, selection pattern, split and nuisance prediction, the sample selection model's estimate is the documented "
  "doubly robust ratio under missingness at random and under nonignorable selection (where selection probabilities are fitted on one "
  "part of each training sample and outcome regressions and propensities on the other). Selection and treatment propensities enter trimmed and, on "
  "request, normalised.",
  IN, "all real outcomes and predictions; both scores, trimming, normalisation, repetitions varied", GEN,
  [D + "irm/ssm.py", D + "double_ml_score_mixins.py"],
  [("score elements", D + "irm/ssm.py:DoubleMLSSM._score_elements"), ("nuisance estimation", D + "irm/ssm.py:DoubleMLSSM._nuisance_est")],
  ["psi_elements, all_coef of a fitted model"])

p("C07", "Panel difference-in-differences estimate follows the documented score",
  "For every outcome change, treatment pattern, split and nuisance prediction, the panel difference-in-differences estimate is the documented "
  "ratio for the observational and the experimental score, with and without in-sample normalisation, and for a user-supplied score. "
  "Propensities enter trimmed; in the experimental score they do not enter at all.",
  IN, "all real outcomes and predictions; scores, normalisation, trimming, repetitions, external predictions varied", GEN,
  [D + "did/did.py", D + "double_ml_score_mixins.py"],
  [("score elements", D + "did/did.py:DoubleMLDID._score_elements"), ("nuisance estimation", D + "did/did.py:DoubleMLDID._nuisance_est")],
  ["psi_elements, all_coef of a fitted model"])

p("C08", "Repeated cross-section difference-in-differences follows the documented score",
  "For every outcome, treatment and period pattern, split and nuisance prediction, the repeated cross-section difference-in-differences "
  "estimate is the documented ratio for the observational and the experimental score, with and without in-sample normalisation, and "
  "for a user-supplied score. The outcome regression of each of the four treatment-period cells is trained on that cell only.",
  IN, "all real outcomes and predictions; scores, normalisation, trimming, repetitions, external predictions varied", GEN,
  [D + "did/did_cs.py", D + "double_ml_score_mixins.py"],
  [("score elements", D + "did/did_cs.py:DoubleMLDIDCS._score_elements"), ("nuisance estimation", D + "did/did_cs.py:DoubleMLDIDCS._nuisance_est")],
  ["psi_elements, all_coef of a fitted model"])

p("C12", "Standard errors are the sandwich formula; the empirical moment is zero",
  "For every fitted model with linear score, the score averages to zero at the estimate, and the squared standard error is the mean squared score divided "
  "by the number of observations and the squared mean derivative, in each repetition and for each treatment. The framework object of the model carries "
  "the same estimates and errors, and scores divided by the mean derivative.",
  IN, "all outcomes, every model class with fixed and with arbitrary nuisance predictions, one and several treatments and repetitions", GEN,
  [D + "double_ml.py", D + "utils/_estimation.py", D + "double_ml_framework.py"],
  [("variance", D + "utils/_estimation.py:_var_est"), ("standard error", D + "double_ml.py:DoubleML._se_causal_pars"), ("framework", D + "double_ml.py:DoubleML.construct_framework")],
  ["all_coef, all_se, psi, psi_deriv, framework of a fitted model"])

p("C13", "With clustered data, estimates and errors aggregate over cluster folds",
  "With one-way or two-way clustered data, the estimate of a linear-score model is the ratio of fold-wise weighted cluster sums, and its variance is the documented "
  "cluster-robust variance: averaged over the folds in use, each fold counting the pairs of observations that share a cluster and "
  "scaled by the number of clusters in that fold. This holds for whatever folds the split has and is "
  "not altered by the number of folds named when the model was made.",
  IN, "all outcomes; one-way and two-way cluster patterns and fold patterns, model classes, repetitions varied", GEN,
  [D + "utils/_estimation.py", D + "double_ml_score_mixins.py", D + "double_ml.py"],
  [("cluster variance", D + "utils/_estimation.py:_var_est"), ("cluster estimate", D + "double_ml_score_mixins.py:LinearScoreMixin._est_coef")],
  ["all_coef, all_se, framework of a fitted model"])

p("C14", "Repetitions aggregate by the median, with the spread added to the variance",
  "With several repetitions, the reported estimate is the median of the estimates of the repetitions, and the reported squared standard error is the "
  "median over repetitions of squared error plus squared deviation from the reported estimate divided by the scaling factor. "
  "Each repetition's own estimate and error stay available unchanged.",
  IN, "all estimates and errors of one to four repetitions; all model classes", GEN,
  [D + "utils/_estimation.py", D + "double_ml_framework.py", D + "double_ml.py"],
  [("aggregation", D + "utils/_estimation.py:_aggregate_coefs_and_ses"), ("model", D + "double_ml.py:DoubleML.construct_framework")],
  ["coef, se, thetas, ses"])

p("C15", "Confidence intervals, t statistics and p-values follow their definitions",
  "For every estimate, error, level and repetition, the confidence interval is the estimate plus and minus the standard error times the normal quantile of the two-sided "
  "level, combined over repetitions by the median, and is labelled with its quantiles and treatment names. The t statistic is the estimate over its error and the "
  "p-value is the two-sided normal tail probability; a framework combines the p-values of its repetitions by the median.",
  IN, "all estimates and errors, several levels, one to three repetitions, all model classes", GEN,
  [D + "double_ml_framework.py", D + "double_ml.py"],
  [("confidence interval", D + "double_ml_framework.py:DoubleMLFramework.confint"), ("p-values", D + "double_ml_framework.py:DoubleMLFramework.pvals")],
  ["confint, t_stats, pvals, all_pvals"])

p("C16", "Multiplier bootstrap and joint confidence intervals follow their definitions",
  "For every score, error and drawn multiplier, each bootstrap statistic is the mean of multiplier times normalised score over the standard error, "
  "with multipliers of the documented transformation (normal, wild, Bayes), the same across treatments and drawn anew for every repetition. "
  "A joint confidence interval uses, per repetition, the level quantile over draws of the largest absolute statistic across treatments, "
  "and is combined over repetitions by the median.",
  IN, "all scores, errors and draws; methods, draws, treatments, repetitions varied", GEN,
  [D + "double_ml_framework.py", D + "utils/_estimation.py", D + "double_ml.py"],
  [("bootstrap", D + "double_ml_framework.py:DoubleMLFramework.bootstrap"), ("weights", D + "utils/_estimation.py:_draw_weights"), ("joint interval", D + "double_ml_framework.py:DoubleMLFramework.confint")],
  ["boot_t_stat, confint(joint=True)"])

p("C17", "Multiple-testing adjustment of p-values follows the stated procedure",
  "For every estimate, error, bootstrap draw and number of parameters, Romano-Wolf adjustment is the documented step-down procedure on "
  "the bootstrap statistics, monotone in the ordering of the t statistics, and Bonferroni and Holm adjustment equal their textbook "
  "definitions on the unadjusted p-values. Adjusted p-values are reported for the right parameter, combined over repetitions by the "
  "median, and never leave the unit interval.",
  IN, "all estimates, errors and bootstrap statistics; methods, parameters, repetitions varied", GEN,
  [D + "double_ml_framework.py", D + "double_ml.py"],
  [("adjustment", D + "double_ml_framework.py:DoubleMLFramework.p_adjust")],
  ["p_adjust"])

p("C18", "Arithmetic of estimated parameters propagates scores, errors and sensitivity",
  "Adding, subtracting and scaling estimated parameters gives in every repetition the sum, difference or multiple of estimates and of normalised scores, and the "
  "standard error those scores imply (cluster-robust for clustered data; positive for negative factors); sensitivity bias "
  "terms add and scale by the absolute factor. Operands stay unchanged and incompatible operands are refused.",
  IN, "all estimates, errors, scores, bias terms and factors; sizes, sensitivity parts, clusters varied", GEN,
  [D + "double_ml_framework.py"],
  [("sum", D + "double_ml_framework.py:DoubleMLFramework.__add__"), ("difference", D + "double_ml_framework.py:DoubleMLFramework.__sub__"), ("multiple", D + "double_ml_framework.py:DoubleMLFramework.__mul__")],
  ["all_thetas, all_ses, thetas, ses, scaled_psi, sensitivity_elements"])

NA["C39"] = dict(title="Simulated data sets follow their documented data generating processes",
                 statement="Every data generator returns data with the documented distribution, sizes and true effects.",
                 reason="A property of the distribution of pseudo-random draws (numpy.random) and of matrix factorisations inside "
                        "compiled code; there is no per-value assertion a solver could decide.",
                 files=[D + "datasets.py"])

exec(open(os.path.join(HERE, "tools", "meta2.py")).read())

TECH = "symbolic execution of the real Python code, assertions decided by z3 (SMT, real arithmetic)"
NOTE = ("Bounded: sizes, splits and options as listed in the evidence; within them every real-valued input is a solver variable and z3 "
        "decides each assertion on every path. Reals stand for floats; learners are arbitrary functions of the rows they were given. ")


def main():
    done = [k for k in sorted(P) if os.path.exists(os.path.join(HERE, "props", k.lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for k in sorted(set(done) | set(NA)):
            if k in P:
                d = {a: b for a, b in P[k].items() if a[0] != "_"}
            else:
                n = NA[k]
                d = dict(id=k, title=n["title"], statement=n["statement"], quantifier={"over": ["inputs"], "text": "all seeds and sizes"},
                         why_tests_cant="A test sees a handful of draws.",
                         anchors={"files": n["files"], "mechanism": [{"name": "generators", "where": n["files"][0]}],
                                  "observe_at": ["returned data"], "hook_needed": None})
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": PY + " check.py C14 --list",
         "checks": [{"property": k, "quick_cmd": "%s check.py %s" % (PY, k), "thorough_cmd": "%s check.py %s --tier thorough" % (PY, k),
                     "evidence_file": "evidence/%s.json" % k, "technique": TECH, "level": "other", "level_note": (NOTE + P[k]["_note"]).strip()}
                    for k in done],
         "not_applicable": [{"property": k, "reason": NA[k]["reason"]} for k in sorted(NA)],
         "notes": "One driver (check.py) runs the scenarios of props/cNN.py in parallel; no hooks in /repo are needed."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(done), "claimed;", sorted(NA), "not applicable")


main()

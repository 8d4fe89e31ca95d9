p("C20", "Sensitivity bounds, their errors and limits, and robustness values",
  "For every estimate and confounding scenario, the lower and upper bound are the estimate minus and plus |rho|*sqrt(cf_y*cf_d/(1-cf_d)) times the bias bound, their errors those of "
  "the normalised score minus and plus that strength times the bias score (respecting clusters), their confidence limits one-sided at the level, all combined over repetitions by the "
  "median rule. The robustness value is the common value of cf_y and cf_d at which the bound (or its confidence limit) on the hypothesis's side reaches the null hypothesis. "
  "The scenario is stored as given, and scenarios outside the admissible range or models without sensitivity elements are refused.",
  IN, "all estimates, bias bounds, scores and confounding strengths; models, clusters, repetitions, treatments varied", GEN,
  [D + "double_ml_framework.py", D + "utils/_sensitivity.py"],
  [("bounds", D + "double_ml_framework.py:DoubleMLFramework._calc_sensitivity_analysis"), ("robustness value", D + "double_ml_framework.py:DoubleMLFramework._calc_robustness_value")],
  ["sensitivity_params after sensitivity_analysis"],
  note="The optimiser is replaced by its contract (it returns the point with the smallest objective). Known finding: the errors of the two bounds are interchanged for fitted models (key sensitivity-se-orientation).")

p("C21", "Sensitivity elements are the documented residual and representer moments",
  "For every model with sensitivity analysis, the stored outcome residual variance is the mean squared residual of the outcome given its fitted value, and the second moment of the Riesz "
  "representer follows its documented (debiased) formula including weights, trimming and normalisation, each with its centred score, per treatment and repetition. If the second moment is "
  "not positive it is replaced by the mean squared representer. A contrast of two treatment levels averages the residual variances and adds the second moments.",
  IN, "all outcomes, outcome regressions and two propensities per repetition; models, scores, weights, normalisation, repetitions varied", GEN,
  [D + "double_ml.py", D + "plm/plr.py", D + "irm/irm.py", D + "irm/apo.py", D + "irm/apos.py", D + "did/did.py", D + "did/did_cs.py"],
  [("elements", D + "irm/irm.py:DoubleMLIRM._sensitivity_element_est"), ("fallback", D + "double_ml.py:DoubleML._validate_sensitivity_elements"),
   ("contrast", D + "irm/apos.py:DoubleMLAPOS._compute_causal_contrast_sensitivity_dict")],
  ["sensitivity_elements of a fitted model and of its framework"])

p("C19", "Joining estimated parameters keeps every parameter intact and in order",
  "Concatenating frameworks keeps, in operand order, every estimate, error, per-repetition value, score, variance scaling and (if all operands have them) sensitivity elements, and the "
  "joined t-statistics are estimate over error; the operands stay unchanged. Sensitivity elements appear only if every operand has them and benchmarks only if all do. "
  "Nothing, non-frameworks, frameworks with different numbers of observations or repetitions, and clustered frameworks are refused.",
  IN, "all estimates, errors and scores of two or three frameworks; numbers of parameters, repetitions and models varied", GEN,
  [D + "double_ml_framework.py"], [("concat", D + "double_ml_framework.py:concat")], ["fields of the joined framework"])

p("C22", "Sensitivity benchmarks are the gain statistics of a refit without covariates",
  "gain_statistics returns cf_y=clip((R2y_long-R2y_short)/(1-R2y_long),0,1) with R2y=1-sigma2/var(y), cf_d=clip((1-R2r)/R2r,0,1) with R2r=nu2_short/nu2_long, rho=sign(D)*min(1,|D|/sqrt((sigma2_short-sigma2_long)*(nu2_long-nu2_short))) (sign(D) "
  "if a difference is not positive) and delta_theta=D=theta_short-theta_long, each the median over repetitions, per parameter. sensitivity_benchmark applies them to a refit on the same "
  "folds without the benchmarked covariates, with the given fit arguments, one row per parameter, and leaves the model unchanged; empty, unknown or wrongly typed sets are refused.",
  IN, "all residual variances, representer moments and estimates of the long and short model; models, treatments, repetitions varied", GEN,
  [D + "utils/gain_statistics.py", D + "double_ml.py", D + "irm/apos.py"],
  [("gain statistics", D + "utils/gain_statistics.py:gain_statistics"), ("benchmark", D + "double_ml.py:DoubleML.sensitivity_benchmark"), ("benchmark of APOS", D + "irm/apos.py:DoubleMLAPOS.sensitivity_benchmark")],
  ["result of gain_statistics and sensitivity_benchmark"])

p("C10", "Cross-fitted predictions never come from a learner that saw the observation",
  "In every model, repetition and treatment, the reported nuisance prediction of an observation is that of a fresh learner fitted on exactly the training sample of the observation's fold "
  "(restricted to the relevant treatment, instrument, period or selection group), hence never on the observation itself nor, with one- or two-way clusters, on its clusters. "
  "One learner is fitted per nuisance part, fold, repetition and treatment, and stored models are those learners in fold order; storing them changes nothing.",
  IN, "arbitrary learners (predictions of chosen rows are solver variables indexed by what the learner was trained on); models, folds, clusters, repetitions, treatments varied", GEN,
  [D + "utils/_estimation.py", D + "double_ml.py", D + "plm/plr.py", D + "plm/pliv.py", D + "irm/irm.py", D + "irm/apo.py", D + "irm/iivm.py", D + "irm/ssm.py", D + "did/did.py", D + "did/did_cs.py"],
  [("cross-fitting", D + "utils/_estimation.py:_dml_cv_predict"), ("conditional samples", D + "utils/_estimation.py:_get_cond_smpls"), ("storing", D + "double_ml.py:DoubleML._store_predictions_and_targets")],
  ["predictions and models of a fitted model"])

p("C23", "External nuisance predictions are used verbatim; the rest is estimated",
  "For every subset of nuisance parts supplied externally (for some or all treatments or treatment levels), exactly the supplied column of the repetition is used and reported, no learner is "
  "fitted for it, the remaining parts are cross-fitted as usual, and the supplied arrays stay unchanged. Handing a model's own predictions back reproduces its scores and estimates without any fit. "
  "Unknown treatments, levels or parts, non-arrays and wrong shapes are refused, as are models without support.",
  IN, "all external values of chosen rows, arbitrary learners; subsets, models, repetitions, treatments and levels varied", GEN,
  [D + "double_ml.py", D + "utils/_estimation.py", D + "utils/_checks.py", D + "irm/apos.py"],
  [("selection", D + "utils/_estimation.py:_set_external_predictions"), ("check", D + "utils/_checks.py:_check_external_predictions"), ("levels", D + "irm/apos.py:DoubleMLAPOS._rename_external_predictions")],
  ["predictions, psi_elements, all_coef of a fitted model"])

p("C09", "Quantile-type models solve their moment condition with correctly built parts",
  "PQ and LPQ report a value at which the mean of the documented score changes its sign, with the score and the kernel density estimate as derivative evaluated there; CVaR uses the documented linear score. "
  "Estimated parts follow the documented nesting: in every fold the preliminary quantile minimises the absolute mean inverse-probability score of one half of the training rows (propensities cross-fitted "
  "within that half), the outcome part is fitted on the relevant rows of the other half against the indicator (or tail) target of that quantile, propensities on the whole training fold. QTE is the difference of the treated and the untreated model on the same splits, with the difference of their scores.",
  IN, "the root search returns a sign change of the function it is given, the minimiser any value between two outcomes; propensities and predictions of chosen rows, preliminary quantiles; quantile, treatment, trimming and normalisation, folds and repetitions varied", GEN,
  [D + "irm/pq.py", D + "irm/lpq.py", D + "irm/cvar.py", D + "irm/qte.py", D + "double_ml_score_mixins.py"],
  [("potential quantile", D + "irm/pq.py:DoubleMLPQ._nuisance_est"), ("local quantile", D + "irm/lpq.py:DoubleMLLPQ._nuisance_est"), ("CVaR", D + "irm/cvar.py:DoubleMLCVAR._nuisance_est"), ("effects", D + "irm/qte.py:DoubleMLQTE.fit")],
  ["coef, psi, psi_deriv, predictions of a fitted model"])

p("C24", "User-supplied sample splits are accepted exactly when they are partitions",
  "set_sample_splitting accepts a split if and only if, in every repetition, the test sets together contain every row exactly once, and each training set has distinct valid rows none of which is in its own test set; "
  "a single tuple (no splitting) needs both sets to be all rows. For clustered data a cluster split is also required in which, for every repetition, fold and cluster variable, train and test clusters partition the clusters. "
  "An accepted split is stored with unchanged contents and sets the numbers of folds and repetitions; anything else, including other containers and non-integer indices, is refused and not stored.",
  IN, "every index (or cluster label) at up to three positions (thorough: six) of splits of three or four rows into one to three folds and one or two repetitions; containers, damage kinds and models (PLR, APOS, QTE) varied", GEN,
  [D + "utils/_checks.py", D + "double_ml.py", D + "irm/apos.py", D + "irm/qte.py"],
  [("check", D + "utils/_checks.py:_check_sample_splitting"), ("cluster check", D + "utils/_checks.py:_check_cluster_sample_splitting")],
  ["set_sample_splitting: exception or smpls, n_folds, n_rep"])

p("C25", "Drawn sample splits are stratified, cluster-disjoint partitions",
  "Splits drawn at construction or by draw_sample_splitting give n_rep separately drawn repetitions of n_folds folds; test sets partition the rows, each training set is its complement, fold sizes differ by at most one, and where the model stratifies so do the counts of every stratum "
  "(treatment in IRM, APO, PQ, CVaR, DID, APOS and QTE; treatment and instrument in IIVM and LPQ; and selection in SSM; and time in DIDCS). With clustered data each cluster variable is split separately and every combination of cluster folds is used, with test (training) rows exactly those whose clusters are all test (training) clusters. "
  "Redrawing follows the current numbers of folds and repetitions, and models made of sub-models hand the new split to all of them.",
  IN, "every draw that scikit-learn's splitters can return (their contract is encoded), cluster labels at up to two rows; models, folds, repetitions, one or two cluster variables varied", GEN,
  [D + "utils/resampling.py", D + "double_ml.py", D + "irm/apos.py", D + "irm/qte.py"],
  [("rows", D + "utils/resampling.py:DoubleMLResampling"), ("clusters", D + "utils/resampling.py:DoubleMLClusterResampling"), ("redraw", D + "double_ml.py:DoubleML.draw_sample_splitting")],
  ["smpls, smpls_cluster, n_folds, n_rep of a model"])

p("C29", "CATE, GATE and GAPO are best linear predictors of the orthogonal signal",
  "cate, gate (IRM with score ATE, PLR), capo and gapo (APO) and DoubleMLBLP give the least-squares coefficients of the orthogonal signal (for PLR: of the outcome residual on basis times treatment residual) with the requested heteroscedasticity-robust covariance; for disjoint groups these are the group means. "
  "Bool or integer dummies and one column of group names are accepted; confint gives effect ± normal quantile times standard error at the requested points and level (joint: a quantile of the maximal t statistic), correctly named. "
  "Non-frames, duplicate names, other groups, other scores, several repetitions or treatments, and bases with other columns are refused.",
  IN, "outcomes (signals) of one or two rows (thorough: all) over all reals in a box; models, groupings, bases of one to three columns, levels, HC0/HC1 varied; statsmodels' OLS is encoded by its normal equations and sandwich formula", GEN,
  [D + "utils/blp.py", D + "irm/irm.py", D + "irm/apo.py", D + "plm/plr.py"],
  [("regression", D + "utils/blp.py:DoubleMLBLP.fit"), ("bands", D + "utils/blp.py:DoubleMLBLP.confint"), ("groups", D + "irm/irm.py:DoubleMLIRM.gate")],
  ["blp_model.params, blp_omega, orth_signal, summary, confint of the returned object"])

p("C30", "Policy trees solve weighted classification of the signal's sign",
  "policy_tree (IRM with score ATE) and DoubleMLPolicyTree hand scikit-learn's decision tree the given features, a 0/1 label that is 1 where the orthogonal signal is positive, and the signal's absolute value as weight, so that for either policy the weighted reward equals its value up to a constant, also where the signal is zero. "
  "Depth and tree parameters arrive at the tree (default pruning where not given); predict returns the features with the tree's decision as pred_treatment. Other scores, several repetitions, negative or non-integer depth, non-frames and features with other names are refused.",
  IN, "signals of up to four observations (outcomes of up to three rows; thorough: all) over all reals in a box; depth and parameters varied", GEN,
  [D + "utils/policytree.py", D + "irm/irm.py"],
  [("labels and weights", D + "utils/policytree.py:DoubleMLPolicyTree.fit"), ("decision", D + "utils/policytree.py:DoubleMLPolicyTree.predict")],
  ["arguments of DecisionTreeClassifier.fit, result of predict, summary"])

p("C31", "Nuisance losses and learner evaluation use the right targets and rows",
  "After fit, nuisance_targets holds for every learner, repetition and treatment the variable that learner was trained on, missing exactly outside its subsample (treatment, instrument, selection or period group); nuisance_loss is the root mean squared error, for classifiers the log loss with probabilities clipped at 1e-15, of the stored predictions over those rows, and missing for external predictions without target. "
  "evaluate_learners calls the metric (default RMSE over the available targets) once per requested learner, repetition and treatment with the stored predictions and targets of shape (1, n) and returns its values as (n_rep, n_coefs) arrays; unfitted models, unknown learners, non-callable metrics and values that are not finite are refused.",
  IN, "outcomes, treatments, instruments and predictions of a few rows over all reals in a box; models, repetitions, treatments, binary outcomes varied (8 to 16 rows)", GEN,
  [D + "double_ml.py", D + "utils/_estimation.py", D + "irm/irm.py", D + "irm/ssm.py"],
  [("loss", D + "double_ml.py:DoubleML._calc_nuisance_loss"), ("evaluation", D + "double_ml.py:DoubleML.evaluate_learners"), ("targets", D + "utils/_estimation.py:_cond_targets")],
  ["nuisance_loss, nuisance_targets, evaluate_learners"])

p("C38", "Summaries report each parameter's numbers under its own label",
  "The summary of a fitted model, framework, contrast, APOS or QTE has one row per parameter, in the order of the estimates and labelled by treatment variable, treatment level, quantile or name, with the estimate, its error, "
  "their ratio, the p-value the object reports and the limits of confint() at 95 percent; before the fit it has no rows. The printed form of a model repeats it with the score, numbers of observations, folds and repetitions, and the loss of each nuisance part "
  "(RMSE or log loss). sensitivity_summary prints the scenario, and per parameter confidence limits, bounds, estimate, null hypothesis and 100 times both robustness values, each in its column.",
  IN, "all estimates and errors of frameworks (any consistent or inconsistent aggregate); outcomes of fitted models; models, repetitions, levels, quantiles and names varied", GEN,
  [D + "double_ml.py", D + "double_ml_framework.py", D + "utils/_descriptive.py", D + "irm/apos.py", D + "irm/qte.py"],
  [("summary", D + "double_ml.py:DoubleML.summary"), ("summary of a framework", D + "utils/_descriptive.py:generate_summary"), ("sensitivity", D + "double_ml_framework.py:DoubleMLFramework.sensitivity_summary")],
  ["summary, sensitivity_summary, str() of a fitted model"],
  note="Printed numbers are compared up to the printed digits in the replay and exactly (as solver variables) in the symbolic run.")

p("C26", "The data backend serves each column exactly in the role it was given",
  "For every assignment of columns to outcome, treatments, covariates, instruments, time, selection and clusters, y, z, t, s and cluster_vars are those columns unchanged and in the given order; with x_cols=None the covariates are the remaining columns in data order. "
  "For the active treatment (the first, or as chosen by set_x_d) d is that column and x the covariates followed by the other treatments if these are used as covariates; counts, names and the 0/1 indicators of outcome and treatments fit the columns; reassigning a role acts as if the backend had been made that way; from_arrays keeps columns in order; "
  "one column in two roles, unknown or duplicate names, wrong types, and missing or infinite values (in covariates as force_all_x_finite asks) are refused.",
  IN, "all values of the columns (two rows; three for the 0/1 indicators); presence, number and order of the roles, role changes, clashing pairs, place and kind of missing values varied", GEN,
  [D + "double_ml_data.py"],
  [("roles", D + "double_ml_data.py:DoubleMLData.set_x_d"), ("default covariates", D + "double_ml_data.py:DoubleMLData.x_cols"), ("clusters", D + "double_ml_data.py:DoubleMLClusterData"), ("arrays", D + "double_ml_data.py:DoubleMLData.from_arrays")],
  ["x, y, d, z, t, s, cluster_vars, binary_treats, binary_outcome or the exception"])

p("C33", "RDD estimates adjust the outcome by both cutoff limits and aggregate by median",
  "RDFlex hands rdrobust, per repetition and iteration, the score less the cutoff and the outcome (in fuzzy designs also the treatment) less the mean of the cross-fitted predictions just left and just right of the cutoff; learners are trained outside the row's fold on the features of fs_specification with the kernel's weights, "
  "first at h_fs (default the largest bandwidth of rdbwselect), then at the larger bandwidth of the previous iteration, whose h and b the last iteration uses. all_coef and all_se are rdrobust's, coef, ci and confint their medians over repetitions, se the root of the median of squared error plus squared deviation over effective sample size; further keywords are passed on, and wrong data, cutoffs, kernels or specifications are refused.",
  IN, "outcomes, scores near the cutoff, cutoff, bandwidths, predictions and rdrobust's answers (a few at a time) over all reals in a box; specification, kernel, design, repetitions, folds, iterations varied (12 rows)", GEN,
  [D + "rdd/rdd.py"],
  [("adjustment", D + "rdd/rdd.py:RDFlex._fit_nuisance_model"), ("bandwidths", D + "rdd/rdd.py:RDFlex._update_weights"), ("aggregation", D + "rdd/rdd.py:RDFlex.aggregate_over_splits")],
  ["arguments of rdrobust.rdrobust, coef, se, ci, all_coef, all_se, confint"],
  note="rdrobust itself is not encoded: its two functions are stand-ins that record their arguments and answer free values.")

p("C34", "Global learners ignore sample weights; dummy learners never act",
  "GlobalRegressor and GlobalClassifier, fitted with any sample weights or none, predict (classifiers also probabilities and classes) exactly as a copy of the base learner fitted on the same data without weights; the base learner itself stays unfitted, a later fit replaces the first, parameters reach the base learner, and base learners of the wrong kind are refused. "
  "As first-stage learners of RDFlex they get no kernel weights while unwrapped learners do, and other models give the same results with a wrapped learner as with the learner. Dummy learners refuse fit, predict, predict_proba and set_params; models given all predictions give the same results with them, and no result if a prediction is missing.",
  IN, "features, targets and weights of three to six rows over all reals in a box; outcomes of two rows in models; models, designs, specifications varied", GEN,
  [D + "utils/global_learner.py", D + "utils/dummy_learners.py", D + "rdd/rdd.py"],
  [("unweighted fit", D + "utils/global_learner.py:GlobalRegressor.fit"), ("classifier", D + "utils/global_learner.py:GlobalClassifier.fit"), ("refusal", D + "utils/dummy_learners.py:DMLDummyRegressor.fit")],
  ["predict, predict_proba, classes_ of the wrappers; coef and predictions of models using them"])

p("C35", "Set or tuned hyperparameters are used exactly where they belong",
  "Parameters given to set_ml_nuisance_params for a nuisance part and treatment (a dict for all, or a list per repetition and fold) are used by every fit of that part, treatment, repetition and fold and by no other fit, and None takes them back; the learners handed in stay unchanged. "
  "tune searches once per part, treatment and sample (all rows, or with tune_on_folds each repetition's training folds, restricted to the part's subsample) on that part's target with the given grid, scoring and search settings, returns what each search found by treatment (and repetition), and sets it for exactly those fits if asked; invalid requests are refused.",
  IN, "outcomes of a few rows, all numeric parameter values set or found; models, parts, treatments, repetitions, folds, search modes and integer-valued data varied (12 to 48 rows)", GEN,
  [D + "double_ml.py", D + "utils/_estimation.py", D + "plm/plr.py", D + "plm/pliv.py", D + "irm/irm.py", D + "irm/lpq.py"],
  [("assignment", D + "double_ml.py:DoubleML.set_ml_nuisance_params"), ("tuning", D + "double_ml.py:DoubleML.tune"), ("searches", D + "utils/_estimation.py:_dml_tune")],
  ["arguments of GridSearchCV and RandomizedSearchCV, parameters of every fitted learner, params, get_params, result of tune"])

p("C36", "Results depend on data, splits and arguments, not on earlier calls",
  "Fitting again with the same arguments reproduces every result, and with other external predictions gives what a new object would; frameworks, contrasts and sums obtained earlier keep their values. Confidence intervals, summaries, bootstrap, sensitivity analysis, learner evaluation and effect heterogeneity leave estimates, predictions and data unchanged, "
  "a new fit or another sample splitting withdraws bootstrap, sensitivity and estimates of the old one, and models sharing a data object do not affect each other.",
  IN + ["histories"], "outcomes of two rows and all estimates of frameworks; call sequences, models, treatments and repetitions varied", GEN,
  [D + "double_ml.py", D + "double_ml_framework.py", D + "irm/apos.py"],
  [("fit", D + "double_ml.py:DoubleML.fit"), ("framework", D + "double_ml.py:DoubleML.construct_framework"), ("splitting", D + "double_ml.py:DoubleML.set_sample_splitting")],
  ["all results of a model or framework before and after further calls"])

p("C11", "Models refuse what they cannot estimate and accept everything else",
  "IRM, IIVM, DID, quantile and related models accept a treatment (IIVM, LPQ: instrument, DIDCS: time) exactly if it is one column of zeros and ones, a classifier for outcome or PLR treatment exactly if that variable is, APO at least five rows at its level, trimming thresholds in (0, 0.5), quantiles and confidence levels in (0, 1), cf_y and cf_d in [0, 1), rho in [-1, 1], nonnegative weights with positive sum (zero-one for ATTE). "
  "Learners lacking a needed method, classes instead of instances, undocumented scores, options, keys or types, missing or superfluous instruments, non-finite predictions (PLR, PLIV, IRM, APO, IIVM, SSM, DID, DIDCS), labels where PLR's treatment or the outcome of IRM, APO, IIVM needs probabilities, and queries before fit are refused, and a refused method call changes no result.",
  IN, "two rows of each such column, one to three weights, threshold, quantile, level, cf_y, cf_d and rho over all reals in a box around the admissible set; models, options, learners, arguments varied (8 to 16 rows)", GEN,
  [D + "double_ml.py", D + "double_ml_framework.py", D + "utils/_checks.py", D + "plm/plr.py", D + "plm/pliv.py", D + "irm/irm.py", D + "irm/apo.py", D + "irm/iivm.py", D + "irm/pq.py", D + "irm/lpq.py", D + "irm/cvar.py", D + "irm/qte.py", D + "irm/ssm.py", D + "did/did.py", D + "did/did_cs.py"],
  [("learners", D + "double_ml.py:DoubleML._check_learner"), ("checks", D + "utils/_checks.py"), ("data", D + "irm/irm.py:DoubleMLIRM._check_data")],
  ["construction of a model, draw_sample_splitting and every method of a fitted model: goes through, or the exception"])

p("C27", "APOS and QTE results are those of the single models they consist of",
  "After fit on given splits, level i of DoubleMLAPOS has the estimate, error, repetitions, scores, t-statistic, framework p-value, intervals, bootstrap statistics (for the same draws), sensitivity elements, bounds, contour values and benchmarks of a DoubleMLAPO of that level with the same data, options, splits and external predictions, labelled by the levels in the given order; "
  "causal_contrast gives for each reference level its difference to every level not yet compared, with mean residual variance and summed representer moments. QTE results, bootstrap, intervals and adjusted p-values are those of the joined differences of its treated and untreated models, labelled by quantile; queries before fit, unknown reference levels or benchmark sets and contrasts of a single level are refused, and new splits withdraw the results.",
  IN, "two outcomes and the null hypothesis over all reals in a box; levels and their order, repetitions, weights, normalisation, trimming, partly external predictions, quantile scores varied (12 to 16 rows)", GEN,
  [D + "irm/apos.py", D + "irm/qte.py", D + "irm/apo.py", D + "double_ml_framework.py"],
  [("levels", D + "irm/apos.py:DoubleMLAPOS.fit"), ("contrasts", D + "irm/apos.py:DoubleMLAPOS.causal_contrast"), ("quantiles", D + "irm/qte.py:DoubleMLQTE.fit")],
  ["coef, se, framework, confint, bootstrap, sensitivity analysis, plot and benchmark, causal_contrast, p_adjust"])

p("C32", "Sensitivity contour plots show the bounds at each grid point",
  "In sensitivity_plot the contour value at horizontal position cf_d and vertical position cf_y is the bound (value='theta') or confidence limit (value='ci') that sensitivity_analysis gives for these strengths, rho and level and the chosen treatment, on the side of the null hypothesis given (upper if it exceeds the estimate), over grid_size points from 0 to grid_bounds on each axis. "
  "The scenario of the last analysis, the unadjusted estimate and the benchmarks appear at their cf_d and cf_y with their value and name, the last analysis and the given benchmarks stay unchanged, and inadmissible arguments are refused.",
  IN, "estimates, bias bounds, null hypothesis and grid bounds over all reals in a box; side, value, treatment, repetitions, rho, level, grid and benchmarks varied; seven points of each grid", GEN,
  [D + "double_ml_framework.py", D + "double_ml.py", D + "utils/_sensitivity.py"],
  [("contours", D + "double_ml_framework.py:DoubleMLFramework.sensitivity_plot"), ("plot", D + "utils/_plots.py:_sensitivity_contour_plot")],
  ["arguments of plotly's graph objects"],
  note="plotly is replaced by a recorder of what is drawn. Two defects found here are repaired (see known_findings.txt).")

p("C40", "A result framework is built only from components that fit together",
  "DoubleMLFramework(d) keeps estimates, errors, scores, sensitivity elements and names exactly as given, knows their numbers, and has no bootstrap or analysis yet; without sensitivity elements a sensitivity analysis is refused, and names label the rows of its results. "
  "A component that is missing, of another shape than the scores imply or of the wrong type, a negative sigma2 or nu2, names that are no list of as many strings, and incomplete cluster information are refused.",
  IN, "all estimates, errors, scores and sensitivity elements of well-formed input; both moments over [-1, 1]; component, shape, kind of flaw varied", GEN,
  [D + "double_ml_framework.py"],
  [("checks", D + "double_ml_framework.py:DoubleMLFramework._check_framework_shapes"), ("sensitivity elements", D + "double_ml_framework.py:DoubleMLFramework._check_and_set_sensitivity_elements")],
  ["attributes of the framework or the exception"])

PRE = '''
import warnings; warnings.filterwarnings("ignore")
import numpy as np, pandas as pd, doubleml as dml
from sklearn.linear_model import LinearRegression, LogisticRegression
rng = np.random.RandomState(7)
def close(a, b, what):
    assert np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-7, atol=1e-9), (what, a, b)
'''
F = "doubleml/double_ml_framework.py"
SEEDS = {}

SEEDS["cluster-count"] = dict(prop="C13", subs=[("doubleml/utils/_estimation.py", "var_scaling_factor = min(n_first_clusters, n_second_clusters)", "var_scaling_factor = n_first_clusters")],
    needs="two-way clustered data whose first cluster variable has more clusters than the second",
    breaks="the cluster-robust variance is divided by the number of clusters of the first variable instead of the smaller of the two", demo=PRE + '''
N, M = 8, 4
c1 = np.repeat(np.arange(N), M); c2 = np.tile(np.arange(M), N); n = N * M
x = rng.normal(size=(n, 2)); d = x[:, 0] + rng.normal(size=n); y = d + rng.normal(size=n)
df = pd.DataFrame(dict(y=y, d=d, x1=x[:, 0], x2=x[:, 1], c1=c1, c2=c2))
m = dml.DoubleMLPLR(dml.DoubleMLClusterData(df, "y", "d", ["c1", "c2"]), LinearRegression(), LinearRegression(), n_folds=2)
m.fit()
psi, dp = m.psi[:, 0, 0], m.psi_deriv[:, 0, 0]
g = J = 0.0
for (tr, te), (_, (I, L)) in zip(m.smpls[0], m.smpls_cluster[0]):
    w = min(len(I), len(L)) / (len(I) * len(L)) ** 2
    g += w * (sum(psi[(c1 == c) & np.isin(c2, L)].sum() ** 2 for c in I) + sum(psi[(c2 == c) & np.isin(c1, I)].sum() ** 2 for c in L))
    J += dp[te].sum() / (len(I) * len(L))
K = len(m.smpls[0])
close(m.all_se[0, 0] ** 2, (g / K) / ((J / K) ** 2 * min(N, M)), "clustered variance")
''')

SEEDS["joint-band-axis"] = dict(prop="C16", subs=[(F, "np.amax(np.abs(self._boot_t_stat), axis=1)", "np.abs(np.amax(self._boot_t_stat, axis=1))")],
    needs="a joint confidence band in which some draw's largest statistic in absolute value is negative (several parameters)",
    breaks="the critical value is the quantile of |max t| instead of max |t|, the joint intervals are too short", demo=PRE + '''
n = 60
x = rng.normal(size=(n, 2)); d = rng.normal(size=(n, 3)); y = d.sum(1) + rng.normal(size=n)
df = pd.DataFrame(np.column_stack([y, d, x]), columns=["y", "d1", "d2", "d3", "x1", "x2"])
m = dml.DoubleMLPLR(dml.DoubleMLData(df, "y", ["d1", "d2", "d3"]), LinearRegression(), LinearRegression(), n_folds=2)
m.fit(); m.bootstrap(n_rep_boot=200)
q = np.quantile(np.abs(m.boot_t_stat[:, :, 0]).max(axis=1), 0.95)
ci = m.confint(joint=True, level=0.95).to_numpy()
close(ci[:, 1], m.coef + q * m.se, "joint interval")
''')

SEEDS["pval-median"] = dict(prop="C15", subs=[(F, "pvals = np.median(self.all_pvals, axis=1)", "pvals = 2 * (1 - norm.cdf(np.median(np.abs(self.all_t_stats), axis=1)))")],
    needs="repetitions whose number is even, with different t statistics (median is then a midpoint)",
    breaks="the reported p-value is that of the median t statistic, not the median of the p-values", demo=PRE + '''
n = 40
x = rng.normal(size=(n, 2)); d = rng.normal(size=n); y = 0.2 * d + rng.normal(size=n)
df = pd.DataFrame(np.column_stack([y, d, x]), columns=["y", "d", "x1", "x2"])
m = dml.DoubleMLPLR(dml.DoubleMLData(df, "y", "d"), LinearRegression(), LinearRegression(), n_folds=2, n_rep=2)
m.fit()
from scipy.stats import norm
ap = 2 * (1 - norm.cdf(np.abs(m.all_coef / m.all_se)))
assert abs(ap[0, 0] - ap[0, 1]) > 1e-4
close(m.framework.pvals, np.median(ap, axis=1), "p-value")
''')

SEEDS["boot-all-ses"] = dict(prop="C16", subs=[(F, "var_scaling = self._var_scaling_factors.reshape(-1, 1) * self._all_ses", "var_scaling = self._var_scaling_factors.reshape(-1, 1) * self._ses.reshape(-1, 1) * np.ones((1, self._n_rep))")],
    needs="several repetitions whose standard errors differ from the aggregated one",
    breaks="bootstrap statistics are scaled by the aggregated instead of the repetition's standard error", demo=PRE + '''
n = 40
x = rng.normal(size=(n, 2)); d = rng.normal(size=n); y = 0.2 * d + rng.normal(size=n)
df = pd.DataFrame(np.column_stack([y, d, x]), columns=["y", "d", "x1", "x2"])
m = dml.DoubleMLPLR(dml.DoubleMLData(df, "y", "d"), LinearRegression(), LinearRegression(), n_folds=2, n_rep=3)
m.fit()
np.random.seed(3); m.bootstrap(method="normal", n_rep_boot=5)
np.random.seed(3)
for r in range(3):
    w = np.random.normal(size=(5, n))
    t = w @ (m.psi[:, r, 0] / m.psi_deriv[:, r, 0].mean()) / (n * m.all_se[0, r])
    close(m.boot_t_stat[:, 0, r], t, "bootstrap statistic")
''')

SEEDS["sub-bias-sign"] = dict(prop="C18", subs=[(F, '''max_bias = self._sensitivity_elements["max_bias"] + other._sensitivity_elements["max_bias"]
                psi_max_bias = self._sensitivity_elements["psi_max_bias"] + other._sensitivity_elements["psi_max_bias"]
                sensitivity_elements = {
                    "max_bias": max_bias,
                    "psi_max_bias": psi_max_bias,
                }
                doubleml_dict["sensitivity_elements"] = sensitivity_elements

            new_obj = DoubleMLFramework(doubleml_dict)
        else:
            raise TypeError(f"Unsupported operand type: {type(other)}")

        return new_obj

    def __rsub__''', '''max_bias = self._sensitivity_elements["max_bias"] + other._sensitivity_elements["max_bias"]
                psi_max_bias = self._sensitivity_elements["psi_max_bias"] - other._sensitivity_elements["psi_max_bias"]
                sensitivity_elements = {
                    "max_bias": max_bias,
                    "psi_max_bias": psi_max_bias,
                }
                doubleml_dict["sensitivity_elements"] = sensitivity_elements

            new_obj = DoubleMLFramework(doubleml_dict)
        else:
            raise TypeError(f"Unsupported operand type: {type(other)}")

        return new_obj

    def __rsub__''')],
    needs="the difference of two frameworks with sensitivity elements, looking at the errors of the bounds",
    breaks="the score of the bias bound of a difference is subtracted although the bounds add", demo=PRE + '''
n = 60
x = rng.normal(size=(n, 2)); d = (np.arange(n) % 2).astype(float); y = d + rng.normal(size=n)
df = pd.DataFrame(np.column_stack([y, d, x]), columns=["y", "d", "x1", "x2"])
def fit(score):
    m = dml.DoubleMLIRM(dml.DoubleMLData(df, "y", "d"), LinearRegression(), LogisticRegression(), n_folds=2, score=score)
    return m.fit().framework
a, b = fit("ATE"), fit("ATTE")
close((a - b).sensitivity_elements["psi_max_bias"], a.sensitivity_elements["psi_max_bias"] + b.sensitivity_elements["psi_max_bias"], "bias score")
''')

SEEDS["models-shared"] = dict(prop="C10", subs=[("doubleml/utils/_estimation.py", """        if est_params is None:
            fitted_models = parallel(
                delayed(_fit)(clone(estimator), x, y_list[idx], train_index, idx)
                for idx, (train_index, test_index) in enumerate(smpls)
            )""", """        if est_params is None:
            this_estimator = clone(estimator)
            fitted_models = parallel(
                delayed(_fit)(this_estimator, x, y_list[idx], train_index, idx)
                for idx, (train_index, test_index) in enumerate(smpls)
            )""")],
    needs="fit(store_models=True), the estimates of which are compared with a fit that does not store the models",
    breaks="all folds share one estimator, so test predictions come from the learner fitted for the last fold, which saw those rows", demo=PRE + '''
n = 40
x = rng.normal(size=(n, 2)); d = rng.normal(size=n); y = d + rng.normal(size=n)
df = pd.DataFrame(np.column_stack([y, d, x]), columns=["y", "d", "x1", "x2"])
def run(store):
    m = dml.DoubleMLPLR(dml.DoubleMLData(df, "y", "d"), LinearRegression(), LinearRegression(), n_folds=4, draw_sample_splitting=False)
    ix = np.arange(n)
    m.set_sample_splitting([[(ix[ix % 4 != k], ix[ix % 4 == k]) for k in range(4)]])
    return m.fit(store_models=store)
close(run(True).coef, run(False).coef, "storing the models changes nothing")
''')

SEEDS["iivm-ext-trim"] = dict(prop="C05", subs=[("doubleml/irm/iivm.py", '''        # also trimm external predictions
        m_hat["preds"] = _trimm(m_hat["preds"], self.trimming_rule, self.trimming_threshold)
''', '''        if external_predictions["ml_m"] is None:
            m_hat["preds"] = _trimm(m_hat["preds"], self.trimming_rule, self.trimming_threshold)
''')],
    needs="an externally supplied instrument propensity outside the trimming bounds",
    breaks="external propensities enter the score untrimmed", demo=PRE + '''
n = 40
x = rng.normal(size=(n, 2)); z = (np.arange(n) % 2).astype(float); d = z.copy(); d[::5] = 1 - d[::5]; y = d + rng.normal(size=n)
df = pd.DataFrame(np.column_stack([y, d, z, x]), columns=["y", "d", "z", "x1", "x2"])
m = dml.DoubleMLIIVM(dml.DoubleMLData(df, "y", "d", z_cols="z"), LinearRegression(), LogisticRegression(), LogisticRegression(), n_folds=2, trimming_threshold=0.2)
p = rng.uniform(0.05, 0.95, (n, 1)); g0, g1 = rng.normal(size=(2, n, 1)); r0, r1 = rng.uniform(0.1, 0.9, (2, n, 1))
m.fit(external_predictions={"d": {"ml_m": p, "ml_g0": g0, "ml_g1": g1, "ml_r0": r0, "ml_r1": r1}})
q = np.clip(p[:, 0], 0.2, 0.8)
b = g1[:, 0] - g0[:, 0] + z * (y - g1[:, 0]) / q - (1 - z) * (y - g0[:, 0]) / (1 - q)
close(m.psi_elements["psi_b"][:, 0, 0], b, "score")
''')

SEEDS["rw-order"] = dict(prop="C17", subs=[(F, "all_p_vals_corrected = np.full_like(self.all_pvals, np.nan)\n", "all_p_vals_corrected = np.full_like(self.all_pvals, np.nan)\n        stepdown_order = np.argsort(np.abs(self.all_t_stats[:, 0]))[::-1]\n")],
    needs="", breaks="", demo="")
del SEEDS["rw-order"]

SEEDS["gain-rho-zero"] = dict(prop="C22", subs=[("doubleml/utils/gain_statistics.py", "where=(var_g > 0) & (var_riesz > 0))", "where=(var_g * var_riesz > 0))")],
    needs="both explanatory gains negative in the same repetition (the short model fits better on both counts)",
    breaks="rho is computed from the product of two negative gains instead of falling back to the sign", demo=PRE + '''
from types import SimpleNamespace as N
from doubleml.utils import gain_statistics
def mk(s, nu, th):
    return N(framework=N(sensitivity_elements={"sigma2": np.full((1, 1, 1), s), "nu2": np.full((1, 1, 1), nu)}), all_coef=np.full((1, 1), th), _dml_data=N(y=np.array([0.0, 1.0, 3.0])))
g = gain_statistics(mk(1.0, 1.0, 0.5), mk(0.5, 2.0, 0.6))
close(g["rho"], [1.0], "rho")
''')

SEEDS["did-exp-norm"] = dict(prop="C14", subs=[("doubleml/utils/_estimation.py", "coefs_deviations = np.square(all_coefs - coefs.reshape(-1, 1))", "coefs_deviations = np.square(all_coefs - np.median(coefs))")],
    needs="several repetitions and several parameters with different estimates",
    breaks="the spread added to the variance is measured from the median over all parameters", demo=PRE + '''
n = 40
x = rng.normal(size=(n, 2)); d = rng.normal(size=(n, 2)); y = d @ [1.0, -2.0] + rng.normal(size=n)
df = pd.DataFrame(np.column_stack([y, d, x]), columns=["y", "d1", "d2", "x1", "x2"])
m = dml.DoubleMLPLR(dml.DoubleMLData(df, "y", ["d1", "d2"]), LinearRegression(), LinearRegression(), n_folds=2, n_rep=3).fit()
c = np.median(m.all_coef, axis=1)
s = np.sqrt(np.median(m.all_se ** 2 + (m.all_coef - c[:, None]) ** 2 / n, axis=1))
close(m.se, s, "aggregated error")
''')
SEEDS["agg-center"] = SEEDS.pop("did-exp-norm")
for k in ("agg-center", "boot-all-ses", "gain-rho-zero", "joint-band-axis", "models-shared"):  # the existing tests see these
    del SEEDS[k]

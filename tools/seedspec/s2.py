PRE = '''
import warnings; warnings.filterwarnings("ignore")
import numpy as np, pandas as pd, doubleml as dml
from sklearn.linear_model import LinearRegression, LogisticRegression
rng = np.random.RandomState(7)
def close(a, b, what):
    assert np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-7, atol=1e-9), (what, a, b)
def refuses(f, ex, what):
    try:
        f()
    except ex:
        return
    raise AssertionError(what)
'''
F = "doubleml/double_ml_framework.py"
E = "doubleml/utils/_estimation.py"
SEEDS = {}

SEEDS["sens-cluster-rep"] = dict(prop="C20", subs=[(F, 'smpls_cluster = self._cluster_dict["smpls_cluster"][i_rep]', 'smpls_cluster = self._cluster_dict["smpls_cluster"][0]')],
    needs="clustered data, several repetitions and a sensitivity analysis",
    breaks="the errors of the sensitivity bounds use the first repetition's clusters in every repetition", demo=PRE + '''
G = 11; c = np.repeat(np.arange(G), 5); n = len(c)
x = rng.normal(size=(n, 2)); d = x[:, 0] + rng.normal(size=n); y = d + rng.normal(size=G)[c] + rng.normal(size=n)
df = pd.DataFrame(dict(y=y, d=d, x1=x[:, 0], x2=x[:, 1], c=c))
np.random.seed(5)
m = dml.DoubleMLPLR(dml.DoubleMLClusterData(df, "y", "d", "c"), LinearRegression(), LinearRegression(), n_folds=3, n_rep=3)
m.fit()
m.sensitivity_analysis(cf_y=0.0, cf_d=0.0)   # no confounding: the bounds are the estimates
psi, th = m.framework.scaled_psi[:, 0, :], m.all_coef[0]
v = []
for r in range(3):
    g = J = 0.0
    for (_, te), (_, (I,)) in zip(m.smpls[r], m.smpls_cluster[r]):
        g += sum(psi[c == k, r].sum() ** 2 for k in I) / len(I) / 3
        J += len(te) / len(I) / 3
    v.append(g / J ** 2 / G)
se = np.sqrt(np.median(np.array(v) + (th - np.median(th)) ** 2 / G))
close(m.sensitivity_params["se"]["lower"], se, "error of the lower bound")
close(m.sensitivity_params["se"]["upper"], se, "error of the upper bound")
''')

SEEDS["rv-side"] = dict(prop="C20", subs=[(F, 'bound = "upper" if (null_hypothesis > self.thetas[idx_treatment]) else "lower"', 'bound = "upper" if (null_hypothesis > self.thetas[0]) else "lower"')],
    needs="several parameters and a null hypothesis that lies between their estimates",
    breaks="the side of the robustness value is taken from the first parameter", demo=PRE + '''
n = 200
x = rng.normal(size=(n, 2)); d = rng.normal(size=(n, 2)); y = d @ [1.0, -1.0] + 2.0 * rng.normal(size=n)
df = pd.DataFrame(np.column_stack([y, d, x]), columns=["y", "d1", "d2", "x1", "x2"])
m = dml.DoubleMLPLR(dml.DoubleMLData(df, "y", ["d1", "d2"]), LinearRegression(), LinearRegression(), n_folds=2).fit()
m.sensitivity_analysis()
for i in range(2):
    rv = float(m.sensitivity_params["rv"][i])
    k = dml.DoubleMLPLR
    b = np.sqrt(rv * rv / (1 - rv)) * m.framework.sensitivity_elements["max_bias"][0, i, 0]
    assert abs(abs(m.coef[i]) - b) < 1e-3, (i, rv, b)
''')

SEEDS["loss-clf-rows"] = dict(prop="C31", subs=[("doubleml/double_ml.py", "loss = -np.nanmean(logloss, axis=0)", "loss = -np.nansum(logloss, axis=0) / logloss.shape[0]")],
    needs="a binary outcome with a classifier as outcome learner, whose targets are known for one treatment group only",
    breaks="the log loss of such a learner is divided by all observations", demo=PRE + '''
from sklearn.metrics import log_loss
n = 80
x = rng.normal(size=(n, 2)); d = (np.arange(n) % 2).astype(float); y = (x[:, 0] + d + rng.normal(size=n) > 0.5).astype(float)
df = pd.DataFrame(np.column_stack([y, d, x]), columns=["y", "d", "x1", "x2"])
m = dml.DoubleMLIRM(dml.DoubleMLData(df, "y", "d"), LogisticRegression(), LogisticRegression(), n_folds=2).fit()
for k in (0, 1):
    close(m.nuisance_loss["ml_g%d" % k][0, 0], log_loss(y[d == k], m.predictions["ml_g%d" % k][d == k, 0, 0]), "log loss of ml_g%d" % k)
''')

SEEDS["gain-clip-order"] = dict(prop="C22", subs=[("doubleml/utils/gain_statistics.py", '''    all_cf_y_benchmark = np.clip(np.divide((R2_y_long - R2_y_short), (1.0 - R2_y_long)), 0, 1)
''', '''    all_cf_y_benchmark = np.divide((R2_y_long - R2_y_short), (1.0 - R2_y_long))
'''), ("doubleml/utils/gain_statistics.py", "cf_y_benchmark = np.median(all_cf_y_benchmark, axis=1)", "cf_y_benchmark = np.clip(np.median(all_cf_y_benchmark, axis=1), 0, 1)")],
    needs="an even number of repetitions with a gain on both sides of zero",
    breaks="negative gains of single repetitions enter the reported gain", demo=PRE + '''
from types import SimpleNamespace as N
from doubleml.utils import gain_statistics
y = np.array([0.0, 1.0, 3.0, 7.0]); v = np.var(y)
def mk(s, nu, th):
    a = lambda q: np.array(q).reshape(1, 1, 2)
    return N(framework=N(sensitivity_elements={"sigma2": a(s), "nu2": a(nu)}), all_coef=np.array(th).reshape(1, 2), _dml_data=N(y=y))
g = gain_statistics(mk([1.0, 1.0], [2.0, 2.0], [0.5, 0.5]), mk([1.5, 0.8], [1.5, 1.0], [0.6, 0.7]))
close(g["cf_y"], [0.25], "cf_y")
''')

SEEDS["cluster-redraw"] = dict(prop="C25", subs=[("doubleml/utils/resampling.py", '''        for _ in range(self.n_rep):
            smpls_cluster_vars = []
''', '''        smpls_cluster_vars = []
        for _ in range(self.n_rep):
''')],
    needs="clustered data and several repetitions",
    breaks="all repetitions use the partition drawn for the first one", demo=PRE + '''
c = np.repeat(np.arange(12), 3); n = len(c)
df = pd.DataFrame(np.column_stack([rng.normal(size=(n, 4)), c]), columns=["y", "d", "x1", "x2", "c"])
m = dml.DoubleMLPLR(dml.DoubleMLClusterData(df, "y", "d", "c"), LinearRegression(), LinearRegression(), n_folds=3, n_rep=4)
s = {frozenset(frozenset(te.tolist()) for _, te in sp) for sp in m.smpls}
assert len(s) > 1, "the repetitions are not drawn separately"
''')

SEEDS["rw-reorder"] = dict(prop="C17", subs=[(F, "p_vals_corrected_tmp = p_vals_corrected_tmp_sorted[ro]", "p_vals_corrected_tmp = p_vals_corrected_tmp_sorted[stepdown_ind]")],
    needs="at least three parameters whose ranking by t statistic is a permutation that is not its own inverse",
    breaks="adjusted p-values are returned for the wrong parameters", demo=PRE + '''
n = 100
x = rng.normal(size=(n, 1)); d = rng.normal(size=(n, 3))
y = d @ [0.2, 0.0, 2.0] + rng.normal(size=n)
df = pd.DataFrame(np.column_stack([y, d, x]), columns=["y", "d1", "d2", "d3", "x1"])
from itertools import permutations
for p in permutations(range(3)):
    cols = ["d%d" % (k + 1) for k in p]
    m = dml.DoubleMLPLR(dml.DoubleMLData(df, "y", cols, x_cols="x1"), LinearRegression(), LinearRegression(), n_folds=2).fit()
    m.bootstrap(n_rep_boot=400)
    _, a = m.framework.p_adjust("romano-wolf")
    t = np.abs(m.t_stat)
    assert np.all(np.diff(a[np.argsort(t), 0]) <= 1e-12), ("a larger t statistic has the larger adjusted p-value", t, a)
''')

SEEDS["neg-test-index"] = dict(prop="C24", subs=[("doubleml/utils/_checks.py", "if not set(test_index).issubset(range(n_obs)):", "if len(test_index) and test_index[-1] >= n_obs:")],
    needs="a user-supplied split that refers to the last observation by a negative test index",
    breaks="negative test indices are accepted", demo=PRE + '''
n = 8
df = pd.DataFrame(rng.normal(size=(n, 4)), columns=["y", "d", "x1", "x2"])
m = dml.DoubleMLPLR(dml.DoubleMLData(df, "y", "d"), LinearRegression(), LinearRegression(), n_folds=2)
a, b = np.arange(4), np.array([4, 5, 6, -1])
refuses(lambda: m.set_sample_splitting([[(np.arange(4, 8), a), (np.arange(4), b)]]), ValueError, "a negative test index is accepted")
''')

SEEDS["atte-weights"] = dict(prop="C03", subs=[("doubleml/irm/irm.py", 'subgroup_probability = np.mean(subgroup)', 'subgroup_probability = np.mean(self._dml_data.d)')],
    needs="the ATTE score with user-supplied group weights that leave out some treated observations",
    breaks="the effect is normalised by the share of the treated instead of the treated in the group", demo=PRE + '''
n = 40
x = rng.normal(size=(n, 2)); d = (np.arange(n) % 2).astype(float); y = d + rng.normal(size=n)
df = pd.DataFrame(np.column_stack([y, d, x]), columns=["y", "d", "x1", "x2"])
w = (np.arange(n) % 3 > 0).astype(float)
m = dml.DoubleMLIRM(dml.DoubleMLData(df, "y", "d"), LinearRegression(), LogisticRegression(), n_folds=2, score="ATTE", weights=w)
p = rng.uniform(0.3, 0.7, (n, 1)); g0 = rng.normal(size=(n, 1)); g1 = rng.normal(size=(n, 1))
m.fit(external_predictions={"d": {"ml_m": p, "ml_g0": g0, "ml_g1": g1}})
p, g0 = p[:, 0], g0[:, 0]
num = w * d * (y - g0) - w * (1 - d) * p * (y - g0) / (1 - p)
close(m.coef[0], num.sum() / (w * d).sum(), "effect on the treated of the group")
''')

SEEDS["concat-scale"] = dict(prop="C19", subs=[(F, 'var_scaling_factors = np.concatenate([obj._var_scaling_factors for obj in objs], axis=0)', 'var_scaling_factors = np.concatenate([objs[0]._var_scaling_factors for obj in objs], axis=0)')],
    needs="joined objects whose variance scaling factors differ",
    breaks="all parameters get the first object's scaling factor", demo=PRE + '''
from doubleml.double_ml_framework import DoubleMLFramework, concat
def fw(scale):
    r = np.random.RandomState(int(scale))
    return DoubleMLFramework({"thetas": np.array([1.0]), "ses": np.array([0.5]), "all_thetas": np.array([[1.0, 1.5]]), "all_ses": np.array([[0.5, 0.25]]),
                              "var_scaling_factors": np.array([scale]), "scaled_psi": r.normal(size=(6, 1, 2)), "is_cluster_data": False})
a, b = fw(6.0), fw(3.0)
c = concat([a, b])
np.random.seed(1); b.bootstrap(n_rep_boot=3)
np.random.seed(1); c.bootstrap(n_rep_boot=3)
close(c.boot_t_stat[:, 1], b.boot_t_stat[:, 0], "bootstrap statistic of the second parameter")
''')

SEEDS["blp-cov"] = dict(prop="C29", subs=[("doubleml/utils/blp.py", "blp_se = np.sqrt((np.dot(np_basis, self._blp_omega) * np_basis).sum(axis=1))", "blp_se = np.sqrt(np.abs((np.dot(np_basis, self._blp_omega) * np_basis)).sum(axis=1))")],
    needs="a basis point at which the covariance terms of the coefficients are negative",
    breaks="negative covariance terms enter the pointwise error with the wrong sign", demo=PRE + '''
n = 50
b = pd.DataFrame({"one": np.ones(n), "v": rng.uniform(size=n)})
s = b["v"].to_numpy() + rng.normal(size=n)
m = dml.DoubleMLBLP(s, b).fit()
at = pd.DataFrame({"one": [1.0, 1.0], "v": [0.5, -0.5]})
from scipy.stats import norm
ci = m.confint(basis=at, level=0.9).to_numpy()
om = np.asarray(m.blp_omega); B = at.to_numpy()
close((ci[:, 2] - ci[:, 0]) / 2, norm.ppf(0.95) * np.sqrt(np.einsum("ij,jk,ik->i", B, om, B)), "half width")
''')

SEEDS["pliv-ext-scale"] = dict(prop="C13", subs=[(E, "for i_fold, (_, test_index) in enumerate(smpls):", "for i_fold, (_, test_index) in enumerate(smpls):")], needs="", breaks="", demo="")
del SEEDS["pliv-ext-scale"]

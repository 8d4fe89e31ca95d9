"""Policy trees: weighted classification of the sign of the orthogonal signal"""
import itertools

import pandas as pd

from props.common import *
from props.models import D8, build, num
from props.c29 import fitted, signal, vals

LOG = []
PRED = [None]


def trees(h):
    def make(real):
        class Tree(real):
            """records what it is given; predicts the class the scenario asks for"""
            def __init__(self, criterion="gini", splitter="best", max_depth=None, min_samples_split=2, min_samples_leaf=1, min_weight_fraction_leaf=0.0, max_features=None,
                         random_state=None, max_leaf_nodes=None, min_impurity_decrease=0.0, class_weight=None, ccp_alpha=0.0, monotonic_cst=None):
                super().__init__(criterion=criterion, splitter=splitter, max_depth=max_depth, min_samples_split=min_samples_split, min_samples_leaf=min_samples_leaf,
                                 min_weight_fraction_leaf=min_weight_fraction_leaf, max_features=max_features, random_state=random_state, max_leaf_nodes=max_leaf_nodes,
                                 min_impurity_decrease=min_impurity_decrease, class_weight=class_weight, ccp_alpha=ccp_alpha, monotonic_cst=monotonic_cst)

            def fit(self, X, y, sample_weight=None, check_input=True):
                LOG.append((X, y, sample_weight, self.get_params()))
                self.fitted_ = True
                self.feature_names_in_ = np.array(list(X.columns))
                return self

            def predict(self, X, check_input=True):
                PRED.append(X)
                return np.array([float(v) for v in PRED[0][:len(X)]])
        return Tree
    return {"DecisionTreeClassifier": make}


def feats(n):
    return pd.DataFrame({"a": num(2, n, -1.0, 1.0), "b": num(9, n, 0.0, 2.0)})


def look(h, t, sig, n, depth, params, F):
    h.true(len(LOG) == 1, "one tree is fitted")
    X, y, w, par = LOG[0]
    h.true(list(X.columns) == ["a", "b"] and bool((X.to_numpy() == F.to_numpy()).all()), "features as given")
    y, w = list(obj(y).ravel()), list(obj(w).ravel())
    h.true(len(y) == n and len(w) == n, "one label and weight per observation")
    for i in range(n):
        h.le(0.0, w[i], "weight %d is not negative" % i)
        h.eq(w[i], abs(sig[i]), "weight %d" % i)
        h.true(S.b_any([y[i] == 0, y[i] == 1]), "label %d is 0 or 1" % i)
        # the classification reward of either policy is its value up to a constant
        for pi in (0, 1):
            hit = (y[i] * 1.0 if pi else 1.0 - y[i]) * w[i]
            h.eq(2 * hit, abs(sig[i]) + (2 * pi - 1) * sig[i], "reward of treating=%d observation %d" % (pi, i))
    for k, v in dict(max_depth=depth, **params).items():
        h.true(par[k] == v, "tree parameter " + k)
    # prediction
    PRED[0] = [1, 0, 1]
    new = pd.DataFrame({"a": [0.5, 1.0, 2.0], "b": [1.0, 0.0, 3.0]}, index=["x", "y", "z"])
    keep = new.copy()
    r = t.predict(new)
    h.true(list(r.index) == ["x", "y", "z"] and list(r.columns) == ["a", "b", "pred_treatment"], "prediction: rows and columns")
    h.true(list(r["pred_treatment"]) == [1, 0, 1] and bool((r[["a", "b"]] == keep).all().all()) and new.equals(keep), "prediction: the tree's classes next to unchanged features")
    h.true(PRED[-1][["a", "b"]].equals(keep), "prediction: features handed to the tree")
    h.raises(lambda: t.predict(new.to_numpy()), TypeError, "prediction: not a data frame")
    h.raises(lambda: t.predict(new[["a"]]), KeyError, "prediction: missing feature")
    h.raises(lambda: t.predict(new.assign(c=1.0)), KeyError, "prediction: additional feature")


def irm(free, depth=2, params=None, weights=False):
    params = params or {}

    def f(h):
        LOG.clear()
        m, e, y = fitted(h, "IRM", free)
        sig, _ = signal(h, "IRM", m, e, y)
        F = feats(8)
        t = m.policy_tree(F, **dict({} if depth == 2 else {"depth": depth}, **params))
        h.eq(t.orth_signal, h.arr(sig), "orthogonal signal")
        h.true(isinstance(t, dml.DoubleMLPolicyTree) and list(t.summary["Max Depth"]) == [depth] * 2 and list(t.summary["Decision Variables"]) == ["a", "b"], "summary")
        look(h, t, sig, 8, depth, dict({"ccp_alpha": 0.01, "min_samples_leaf": 8}, **params), F)
    return f


def direct(k, depth, params):
    def f(h):
        LOG.clear()
        n = 4
        s = [h.real("s%d" % i, -2, 2) for i in range(k)] + [1.5, 0.0, -0.25, 0.75][k:]
        F = feats(n)
        t = dml.DoubleMLPolicyTree(h.arr(s), F, depth=depth, **params)
        h.raises(lambda: t.predict(F), Exception, "not fitted")
        h.true(t.fit() is t, "fit returns the object")
        look(h, t, s, n, depth, dict({"ccp_alpha": 0.01, "min_samples_leaf": 8}, **params), F)
    return f


def refused(h):
    m, e, y = fitted(h, "IRM", (2,))
    F = feats(8)
    h.raises(lambda: m.policy_tree(F.to_numpy()), TypeError, "features: not a data frame")
    h.raises(lambda: m.policy_tree(F, depth=1.0), TypeError, "depth: not an integer")
    h.raises(lambda: m.policy_tree(F, depth=-1), ValueError, "depth: negative")
    h.raises(lambda: m.policy_tree(pd.DataFrame(np.ones((8, 2)), columns=["a", "a"])), ValueError, "features: duplicate names")
    a, e2, _ = fitted(h, "ATTE", (2,))
    h.raises(lambda: a.policy_tree(F), ValueError, "only for the average treatment effect")
    r, e3, _ = fitted(h, "IRM", (), nrep=2)
    h.raises(lambda: r.policy_tree(F), NotImplementedError, "several repetitions")
    h.raises(lambda: dml.DoubleMLPolicyTree([1.0], F), TypeError, "signal: not an array")
    h.raises(lambda: dml.DoubleMLPolicyTree(np.ones((8, 1)), F), ValueError, "signal: not one-dimensional")


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, bounds=name, patches=trees, witness=True, **kw))
    add("irm", irm((1, 4)))
    add("irm-depth", irm((0, 7), depth=1))
    add("irm-params", irm((2,), depth=3, params={"min_samples_leaf": 2, "ccp_alpha": 0.0, "max_features": 1}))
    add("irm-more", irm((2, 3, 5)))
    add("signal-4", direct(4, 2, {}))
    add("signal-2", direct(2, 1, {"min_samples_leaf": 1}))
    add("signal-params", direct(1, 4, {"ccp_alpha": 0.5, "min_samples_split": 3}))
    add("refused", refused)
    if tier != "quick":
        add("irm-all", irm(tuple(range(8))), budget=300, max_paths=20000)
    return out

"""learner wrappers: global learners ignore weights, dummy learners refuse to be used"""
import numbers

from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin, clone
from sklearn.exceptions import NotFittedError

from props.common import *
from props.models import build, num

from props import c33
from symx.env import has_sym


def local(h):
    def mk_validate(real):
        def validate_data(est, X, y):
            if has_sym(X) or has_sym(y):
                if np.shape(X)[0] != np.shape(y)[0] or np.ndim(X) != 2:
                    raise ValueError("inconsistent numbers of samples")
                est.n_features_in_ = np.shape(X)[1]
                return X, y
            return real(est, X, y)
        return validate_data

    def mk_weight(real):
        def check(w, X, *a, **k):
            if has_sym(w) or has_sym(X):
                n = np.shape(X)[0]
                if w is None or isinstance(w, numbers.Number):
                    return np.ones(n)
                if np.shape(w) != (n,):
                    raise ValueError("sample_weight.shape == %s, expected %s!" % (np.shape(w), (n,)))
                return w
            return real(w, X, *a, **k)
        return check
    r = c33.local(h)
    r.update(validate_data=mk_validate, _check_sample_weight=mk_weight)
    return r


USED = []


class _W(BaseEstimator):
    """weighted moments: what it predicts depends on every row, target, weight and hyperparameter it is given"""

    def __init__(self, shift=0.25):
        self.shift = shift

    def fit(self, X, y, sample_weight=None):
        USED.append(("fit", self))
        X, y = as_sym(obj(X)), as_sym(obj(y))
        w = as_sym(obj(np.ones(len(y)) if sample_weight is None else sample_weight))
        self.m_ = sum(w * y) / sum(w)
        self.c_ = sum(w * y * X[:, 0]) / sum(w)
        self.s_ = self.shift
        self.classes_ = np.array([0, 1])
        return self

    def _p(self, X):
        USED.append(("predict", self))
        X = as_sym(obj(X))
        return self.m_ + self.c_ * X[:, 0] * X[:, 0] + self.s_

    def moments(self, X, y, Z):
        X, y, Z = as_sym(obj(X)), as_sym(obj(y)), as_sym(obj(Z))
        n = len(y)
        m, c = sum(y) / n, sum(y * X[:, 0]) / n
        return [m + c * Z[i, 0] * Z[i, 0] + self.shift for i in range(len(Z))]


def fin(v):
    return v if H_().sym else np.array(list(v), dtype=float)


class WReg(RegressorMixin, _W):
    def predict(self, X):
        return fin(self._p(X))


class WClf(ClassifierMixin, _W):
    def predict(self, X):
        return fin(self._p(X) * 3 - 1)

    def predict_proba(self, X):
        p = self._p(X)
        return np.column_stack((fin(1 - p), fin(p)))


def fresh(base):
    return not any(hasattr(base, a) for a in ("m_", "c_", "s_"))


G = dml.utils


def fits(kind, n, p):
    def f(h):
        del USED[:]
        reg = kind == "reg"
        base = (WReg if reg else WClf)(h.pick([0.25, -0.5], "shift"))
        mk = G.GlobalRegressor if reg else G.GlobalClassifier
        X, X2, Z = h.arr(h.reals("X", (n, p))), h.arr(h.reals("X2", (n - 1, p))), h.arr(h.reals("Z", (2, p)))
        if reg:
            y, y2 = h.arr(h.reals("y", n)), h.arr(h.reals("y2", n - 1))
        else:
            y, y2 = np.array([0, 1] * n)[:n], np.array([1, 0, 0] * n)[:n - 1]
        w = h.arr(h.reals("w", n, 0.125, 4))
        g = mk(base)
        h.true(g.base_estimator is base and g.get_params()["base_estimator"] is base and g.get_params()["base_estimator__shift"] == base.shift, "parameters")
        h.raises(lambda: g.predict(Z), NotFittedError, "prediction before fitting")
        if not reg:
            h.raises(lambda: g.predict_proba(Z), NotFittedError, "probability before fitting")
        how = h.choose(4, "weights")
        r = [lambda: g.fit(X, y, w), lambda: g.fit(X, y, sample_weight=w), lambda: g.fit(X, y), lambda: g.fit(X, y, sample_weight=None)][how]()
        h.true(r is g, "fit returns the learner")
        h.true(fresh(base) and g.base_estimator is base, "base learner left alone")

        def same(a, b, y_, lab):
            want = base.moments(a, y_, Z)
            if reg:
                h.eq(g.predict(Z), want, lab + "prediction")
            else:
                q = g.predict_proba(Z)
                h.eq(q[:, 1], want, lab + "probability of 1")
                h.eq(q[:, 0], [1 - v for v in want], lab + "probability of 0")
                h.eq(g.predict(Z), [3 * v - 1 for v in want], lab + "label")
                h.true(list(g.classes_) == sorted(set(y_)), lab + "classes")
        same(X, w, y, "")
        c = clone(g)
        h.true(type(c) is type(g) and c.base_estimator is not base and c.base_estimator.shift == base.shift, "clone")
        h.raises(lambda: c.predict(Z), NotFittedError, "clone is not fitted")
        g.fit(X2, y2, h.arr(h.reals("w2", n - 1, 0.125, 4)))
        same(X2, None, y2, "second fit: ")
        h.true(fresh(base), "base learner left alone by the second fit")
        g.set_params(base_estimator__shift=1.5)
        g.fit(X, y, w)
        h.true(base.shift == 1.5, "parameter of the base learner")
        same(X, w, y, "new parameter: ")
        h.raises(lambda: g.fit(X, y, w[:-1]), ValueError, "weights of another length")
        h.raises(lambda: mk((WClf if reg else WReg)()).fit(X, y), ValueError, "base learner of the wrong kind")
        h.raises(lambda: mk((WClf if reg else WReg)()).fit(X, y, w), ValueError, "base learner of the wrong kind, weighted")
    return f


def rdflex(fuzzy, spec, its):
    """in the regression discontinuity model the kernel weights do not reach the base learners"""
    def f(h):
        del c33.CALLS[:], USED[:]
        c33.OPT.update(reports=None, bws=0)
        h.cache["free"] = ()
        n, k = 12, 2
        B = c33.BASE
        Y = h.arr(list(num(5, n, -1, 2).astype(object)))
        yv = num(5, n, -1, 2).astype(object)
        yv[2], yv[7] = h.real("y2"), h.real("y7")
        Y = h.arr(list(yv))
        D = np.array([0, 0, 0, 1, 0, 0, 1, 1, 0, 1, 1, 1], float) if fuzzy else (B >= 0) * 1.0
        bg, bm = c33.FlexReg("g"), c33.FlexClf("m")
        which = h.choose(3 if fuzzy else 1, "wrapped")
        g, m = (G.GlobalRegressor(bg) if which in (0, 1) else bg), (G.GlobalClassifier(bm) if which in (0, 2) else bm)
        dd = data(Y, D, s=h.arr(list(B)))
        rd = dml.rdd.RDFlex(dd, g, m if fuzzy else None, fuzzy=fuzzy, n_folds=k, h_fs=0.9, fs_specification=spec)
        rd.fit(n_iterations=its)
        Z = [c33.design(spec, x) for x in B]
        nz = len(Z[0])
        at = {0: [0.0] * nz, 1: [1.0] + [0.0] * (nz - 1)}
        pos, b = 0, 0.9
        for it in range(its):
            q = c33.CALLS[it]
            own = h.fits[pos:q["fits"]]
            pos = q["fits"]
            for tag, outc, wrapped, kind in (("g", Y, which in (0, 1), "reg"),) + ((("m", D, which in (0, 2), "clf"),) if fuzzy else ()):
                fl = [x for x in own if x["tag"] == tag]
                h.true(len(fl) == k, "one fit of %s per fold" % tag)
                eta = [None] * n
                for x in fl:
                    rows = list(x["rows"])
                    h.true((x["w"] is None) == wrapped, "weights of " + tag)
                    if not wrapped:
                        h.eq(obj(x["w"]), [c33.kernel("triangular", B[i], b) for i in rows], "kernel weights of " + tag)
                    h.true(len(rows) + len(set(range(n)) - set(rows)) == n and len(rows) >= n // k - 1, "all training rows of " + tag)
                    h.eq(x["y"], [obj(outc)[i] for i in rows], "target of " + tag)
                    h.eq(x["X"][:, :nz], [[Z[i][c_] for c_ in range(nz)] for i in rows], "features of " + tag)
                    for i in set(range(n)) - set(rows):
                        eta[i] = (c33.value(x, at[0], i, kind) + c33.value(x, at[1], i, kind)) / 2
                h.true(all(e is not None for e in eta), "a prediction for every row")
                h.eq(q["y" if tag == "g" else "fuzzy"], [obj(outc)[i] - eta[i] for i in range(n)], "adjusted " + tag)
            b = c33.maxi(*q["res"].bws.loc["h"].tolist())
    return f


REGS, CLFS = {"ml_l", "ml_g", "ml_r", "ml_g0", "ml_g1"}, {"ml_pi"}


def wrapped(name, n):
    """a model with wrapped learners is the model with the learners themselves"""
    def f(h):
        h.cache["free_rows"] = (0, n - 1)
        X, Y, D, Z = num(3, n, -1, 1).reshape(n, 1), h.arr(list(num(5, n, -1, 2).astype(object))), None, None
        yv = num(5, n, -1, 2).astype(object)
        yv[0], yv[3] = h.real("y0"), h.real("y3")
        Y = h.arr(list(yv))
        bd = np.array((BIN[8][0] * 3)[:n], float)
        dv = num(9, n, 0, 1).astype(object)
        dv[1] = h.real("d1")
        D = bd if name in ("IRM", "IIVM") else h.arr(list(dv))
        zv = np.array(([0, 1, 0, 1, 1, 0, 1, 0] * 3)[:n], float) if name == "IIVM" else h.arr(list(num(4, n, 0, 1)))
        sm = splits(n, 2, 1, "mod")
        wr, wc = (lambda t: G.GlobalRegressor(StubReg(t))), (lambda t: G.GlobalClassifier(StubClf(t)))

        def mod(wr, wc):
            if name == "PLR":
                m = dml.DoubleMLPLR(data(Y, D), wr("l"), wr("m"), n_folds=2, draw_sample_splitting=False)
            elif name == "IRM":
                m = dml.DoubleMLIRM(data(Y, D), wr("g"), wc("m"), n_folds=2, draw_sample_splitting=False)
            elif name == "PLIV":
                m = dml.DoubleMLPLIV(data(Y, D, z=zv), wr("l"), wr("m"), wr("r"), n_folds=2, draw_sample_splitting=False)
            else:
                m = dml.DoubleMLIIVM(data(Y, D, z=zv), wr("g"), wc("m"), wc("r"), n_folds=2, draw_sample_splitting=False)
            m.set_sample_splitting(sm)
            return m.fit()
        a = mod(StubReg, StubClf)
        b = mod(wr, wc)
        h.eq(a.coef, b.coef, "estimate")
        h.eq(a.se * a.se, b.se * b.se, "squared error")
        h.true(set(a.predictions) == set(b.predictions), "nuisance elements")
        for key in a.predictions:
            if a.predictions[key] is not None and not np.all([v is None for v in plain(obj(a.predictions[key])).ravel()]):
                x, y = plain(obj(a.predictions[key])).ravel(), plain(obj(b.predictions[key])).ravel()
                for i in range(len(x)):
                    if not (isinstance(x[i], float) and x[i] != x[i]):
                        h.eq(x[i], y[i], "predictions of " + key)
    return f


def dummy(name):
    """all predictions given: dummy learners are as good as any, and are never used; else there is no result"""
    def f(h):
        n = 6 if name not in ("DID", "DIDCS", "APO") else 8
        m, ext_, dd = build(h, name, n, 1, 2)
        R, C = G.DMLDummyRegressor, G.DMLDummyClassifier
        m.fit(external_predictions=ext_)
        want, se = m.coef, m.se
        cls, args = type(m), {}
        params = {}
        for k, v in m.learner.items():
            from sklearn.base import is_classifier
            args[k] = C() if is_classifier(v) else R()
        kw = dict(n_folds=2, n_rep=1, draw_sample_splitting=False)
        if name not in ("PLIV2",) and hasattr(m, "score"):
            kw["score"] = m.score
        if name == "APO":
            kw["treatment_level"] = m.treatment_level
        names = {"PLR": ("ml_l", "ml_m", "ml_g"), "PLR-IV": ("ml_l", "ml_m", "ml_g"), "PLIV": ("ml_l", "ml_m", "ml_r", "ml_g"), "IIVM": ("ml_g", "ml_m", "ml_r"), "SSM": ("ml_g", "ml_pi", "ml_m")}.get(name, ("ml_g", "ml_m"))
        args = {k: args[k] for k in names if k in args}
        mm = cls(dd, **args, **kw)
        mm.set_sample_splitting(m.smpls)
        mm.fit(external_predictions=ext_)
        h.eq(mm.coef, want, "estimate")
        h.eq(mm.se * mm.se, se * se, "squared error")
        m3 = cls(dd, **args, **kw)
        m3.set_sample_splitting(m.smpls)
        h.raises(lambda: m3.fit(), AttributeError, "fit without predictions")
        h.true(m3.framework is None, "no result without predictions")
        d0 = list(ext_)[0]
        for k in list(ext_[d0]):
            if name == "PLR-IV" and k == "ml_l":  # only a means to an initial guess for ml_g
                continue
            part = {d: {kk: v for kk, v in e.items() if kk != k} for d, e in ext_.items()}
            m4 = cls(dd, **args, **kw)
            m4.set_sample_splitting(m.smpls)
            h.raises(lambda: m4.fit(external_predictions=part), AttributeError, "fit without " + k)
    return f


def refusals(h):
    r, c = G.DMLDummyRegressor(), G.DMLDummyClassifier()
    X, y = h.arr(h.reals("X", (3, 1))), h.arr(h.reals("y", 3))
    for d, nm in ((r, "regressor"), (c, "classifier")):
        for what, fn in (("fit", lambda: d.fit(X, y)), ("predict", lambda: d.predict(X)), ("set_params", lambda: d.set_params(3))):
            h.raises(fn, AttributeError, "%s of the dummy %s" % (what, nm))
        clone(d)
    h.raises(lambda: c.predict_proba(X), AttributeError, "predict_proba of the dummy classifier")
    h.raises(lambda: c.predict_proba(X=X), AttributeError, "predict_proba of the dummy classifier, by name")
    from sklearn.base import is_classifier, is_regressor
    h.true(is_regressor(r) and not is_classifier(r), "kind of the dummy regressor")
    h.true(is_classifier(c) and not is_regressor(c), "kind of the dummy classifier")
    h.true(is_regressor(G.GlobalRegressor(WReg())) and is_classifier(G.GlobalClassifier(WClf())), "kind of the global learners")
    h.observe("none", 0.0)


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, patches=local, bounds=name, **kw))
    for kind in ("reg", "clf"):
        for n, p in ((3, 1), (4, 2)) + (((6, 2),) if tier == "thorough" else ()):
            add("global-%s-%d-%d" % (kind, n, p), fits(kind, n, p))
    for fz in (False, True):
        for sp in ("cutoff", "cutoff and score", "interacted cutoff and score"):
            for its in (1, 2) + ((3,) if tier == "thorough" else ()):
                add("rdflex-%s-%s-%d" % ("fuzzy" if fz else "sharp", sp, its), rdflex(fz, sp, its))
    for nm in ("PLR", "IRM", "PLIV", "IIVM"):
        add("wrapped-" + nm, wrapped(nm, 8))
    for nm in ("PLR", "PLR-IV", "PLIV", "IRM", "ATTE", "APO", "IIVM", "DID", "DIDCS"):
        add("dummy-" + nm, dummy(nm))
    add("dummy-refusals", refusals)
    return out

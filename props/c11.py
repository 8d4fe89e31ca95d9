"""what a model accepts and what it refuses"""
import warnings

from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin

from props.c26 import kind_of
from props.c20 import IDLE
from props.models import *

N = 16
D = np.array([0, 1, 1, 0, 1, 0, 0, 1] * 2, float)
Z = np.array([0, 1, 0, 1, 1, 0, 1, 0] * 2, float)
T = np.array([0, 0, 1, 1, 1, 1, 0, 0] * 2, float)
ONE = np.ones(N)
Y = num(3, N, -1, 2)
R, C = StubReg, StubClf


def model(name, dd, g=None, m=None, **kw):
    """a model on the data dd with the given learners and options"""
    kw.setdefault("n_folds", 2)
    kw.setdefault("draw_sample_splitting", False)
    G, M = g or R("g"), m or C("m")
    if name in ("PLR", "PLR-IV"):
        if name == "PLR-IV":
            kw.update(score=kw.get("score", "IV-type"), ml_g=kw.get("ml_g", R("g")))
        return dml.DoubleMLPLR(dd, g or R("l"), m or R("m"), **kw)
    if name == "PLIV":
        return dml.DoubleMLPLIV(dd, g or R("l"), m or R("m"), R("r"), **kw)
    if name in ("IRM", "ATTE"):
        kw.setdefault("score", {"IRM": "ATE", "ATTE": "ATTE"}[name])
        return dml.DoubleMLIRM(dd, G, M, **kw)
    if name == "IIVM":
        return dml.DoubleMLIIVM(dd, G, M, C("r"), **kw)
    if name == "APO":
        kw.setdefault("treatment_level", 1)
        return dml.DoubleMLAPO(dd, G, M, **kw)
    if name == "APOS":
        kw.setdefault("treatment_levels", [0, 1])
        return dml.DoubleMLAPOS(dd, G, M, **kw)
    if name == "SSM":
        return dml.DoubleMLSSM(dd, G, C("pi"), M, **kw)
    if name == "DID":
        return dml.DoubleMLDID(dd, G, M, **kw)
    if name == "DIDCS":
        return dml.DoubleMLDIDCS(dd, G, M, **kw)
    if name == "PQ":
        return dml.DoubleMLPQ(dd, g or C("g"), M, **kw)
    if name == "LPQ":
        return dml.DoubleMLLPQ(dd, g or C("g"), M, **kw)
    if name == "CVaR":
        return dml.DoubleMLCVAR(dd, g or R("g"), M, **kw)
    if name in ("QTE", "QTE-LPQ", "QTE-CVaR"):
        kw.setdefault("score", {"QTE": "PQ", "QTE-LPQ": "LPQ", "QTE-CVaR": "CVaR"}[name])
        return dml.DoubleMLQTE(dd, g or (R("g") if "CVaR" in name else C("g")), M, **kw)
    raise KeyError(name)


ROLES = {"PLIV": "z", "IIVM": "z", "LPQ": "z", "QTE-LPQ": "z", "SSM": "s", "DIDCS": "t"}
ALL = ("PLR", "PLR-IV", "PLIV", "IRM", "ATTE", "APO", "APOS", "IIVM", "SSM", "DID", "DIDCS", "PQ", "LPQ", "CVaR", "QTE", "QTE-LPQ", "QTE-CVaR")
BINARY = ("IRM", "ATTE", "IIVM", "DID", "DIDCS", "PQ", "LPQ", "CVaR", "QTE", "QTE-LPQ", "QTE-CVaR")
TRIM = tuple(a for a in ALL if a not in ("PLR", "PLR-IV", "PLIV"))
VAL = {"z": Z, "s": ONE, "t": T}


def columns(name, **over):
    """y, d and what else the model needs"""
    c = dict(y=Y, d=D if name not in ("PLR", "PLR-IV", "PLIV") else num(7, N, -1, 1))
    if name in ROLES:
        c[ROLES[name]] = VAL[ROLES[name]] if name != "SSM" else np.array(list(ONE[:-2]) + [0.0, 0.0])
    c.update(over)
    return c


def backend(h, c, **kw):
    y, d = c.pop("y"), c.pop("d")
    return exactly(data(y, d, **c, **kw))


def exactly(dd):
    """the binary indicators for the symbolic columns"""
    dd.y_col = dd.y_col
    dd.d_cols = dd.d_cols
    return dd


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def accepted(h, f, want, label, exc=ValueError):
    """f() goes through if and only if `want`"""
    if want:
        try:
            quiet(f)
        except exc:
            h.fail(label + ": refused")
            return
        h.true(True, label)
    else:
        h.raises(lambda: quiet(f), exc, label)


def zero_one(values):
    return all(bool((v == 0.0) | (v == 1.0)) if isinstance(v, S.SymReal) else v in (0.0, 1.0) for v in values)


def binary(name, role):
    """a treatment, instrument or period is accepted exactly if its values are zero and one"""
    def f(h):
        c = columns(name)
        v = list(c[role])
        v[2], v[5] = h.real("v2", -1, 2), h.real("v5", -1, 2)
        c[role] = h.arr(v)
        c["y"] = h.arr(list(c["y"][:-1]) + [h.real("y", -1, 1)])
        dd = backend(h, c)
        ok = zero_one(v)
        accepted(h, lambda: model(name, dd), ok, "%s of %s" % (role, name))
    return f


def outcome(name):
    """a classifier for the outcome is accepted exactly if the outcome is zero and one"""
    def f(h):
        v = list(np.array([0, 1, 1, 0, 0, 1, 1, 0] * 2, float))
        v[2], v[5] = h.real("v2", -1, 2), h.real("v5", -1, 2)
        dd = backend(h, columns(name, y=h.arr(v)))
        ok = zero_one(v)
        accepted(h, lambda: model(name, dd, g=C("g")), ok, "classifier for the outcome of " + name)
        accepted(h, lambda: model(name, dd, g=R("g")), True, "regressor for the outcome of " + name)
    return f


def treatment_classifier(name, nt):
    def f(h):
        ds = [np.array(D, dtype=object) for _ in range(nt)]
        ds[-1][2], ds[-1][5] = h.real("v2", -1, 2), h.real("v5", -1, 2)
        dd = exactly(data(Y, [h.arr(list(d)) for d in ds]))
        accepted(h, lambda: model(name, dd, m=C("m")), zero_one(ds[-1]), "classifier for the treatment of " + name)
        accepted(h, lambda: model(name, dd, m=R("m")), True, "regressor for the treatment of " + name)
    return f


def threshold(name):
    def f(h):
        dd = backend(h, columns(name))
        t = h.real("threshold", -0.25, 0.75)
        ok = bool(t > 0) and bool(t < 0.5)
        box = []
        accepted(h, lambda: box.append(model(name, dd, trimming_threshold=t)), ok, "threshold of " + name)
        if box:
            h.eq(box[0].trimming_threshold, t, "threshold")
            h.true(box[0].trimming_rule == "truncate", "rule")
    return f


def quantile(name):
    def f(h):
        dd = backend(h, columns(name))
        q = h.real("quantile", -0.5, 1.5)
        ok = bool(q > 0) and bool(q < 1)
        if name.startswith("QTE"):
            q2 = h.real("quantile2", -0.5, 1.5)
            ok2 = bool(q2 > 0) and bool(q2 < 1)
            accepted(h, lambda: model(name, dd, quantiles=[q, 0.5, q2]), ok and ok2, "quantiles of " + name)
            return
        accepted(h, lambda: model(name, dd, quantile=q), ok, "quantile of " + name)
    return f


def weights(name):
    def f(h):
        dd = backend(h, columns(name))
        w = np.zeros(N, dtype=object)
        for i in (1, 4, 9):
            w[i] = h.real("w%d" % i, -1, 2)
        free = [w[i] for i in (1, 4, 9)]
        pos = all(bool(v >= 0) for v in free) and any(bool(v > 0) for v in free)
        if name == "ATTE":
            pos = pos and zero_one(free)
            accepted(h, lambda: model(name, dd, weights=h.arr(list(w))), pos, "weights of " + name)
            return
        how = h.choose(3, "form")
        if how == 0:
            accepted(h, lambda: model(name, dd, weights=h.arr(list(w))), pos, "weights of " + name)
        else:
            bar = np.ones((N, 2)) if name != "APOS" else np.ones((N, 2))
            good = num(5, N, 0.25, 1)
            sy = np.zeros((N, 2), dtype=object)
            for j, i in enumerate((1, 4, 9)):
                sy[i, j % 2] = w[i]
            a = {"weights": h.arr(list(w)), "weights_bar": bar} if how == 1 else {"weights": good, "weights_bar": as_sym(sy) if h.sym else sy.astype(float)}
            accepted(h, lambda: model(name, dd, weights=a, n_rep=2), pos, "weights of %s in form %d" % (name, how))
    return f


class NoFit(BaseEstimator):
    def predict(self, X):
        pass

    predict_proba = predict


class NoPredict(RegressorMixin, BaseEstimator):
    def fit(self, X, y):
        pass


class NoProba(ClassifierMixin, NoPredict):
    def predict(self, X):
        pass


class NoParams:
    def fit(self, X, y):
        pass

    def predict(self, X):
        pass

    predict_proba = predict


class NoSet(NoParams):
    def get_params(self, deep=True):
        return {}


class NoGet(NoParams):
    def set_params(self, **k):
        return self


def learners(name):
    def f(h):
        dd = backend(h, columns(name))
        reg_g = name not in ("PQ", "LPQ", "QTE", "QTE-LPQ")
        reg_m = name in ("PLR", "PLR-IV", "PLIV")
        which = h.pick(["g", "m"], "learner")
        bad = [NoFit(), NoSet(), NoGet(), NoParams(), (R if (reg_g if which == "g" else reg_m) else C)]
        bad += [NoPredict()] if (reg_g if which == "g" else reg_m) else [NoProba()]
        b = h.pick(bad, "flaw")
        mk = lambda: model(name, dd, **{which: b})
        if name.startswith("QTE"):
            h.raises(lambda: quiet(lambda: mk().draw_sample_splitting()), TypeError, "learner ml_%s of %s" % (which, name))
        else:
            h.raises(lambda: quiet(mk), TypeError, "learner ml_%s of %s" % (which, name))
    return f


SCORES = {"PLR": ("partialling out", "IV-type", True), "PLIV": ("partialling out", "IV-type", True), "IRM": ("ATE", "ATTE", True), "APO": ("APO", False), "APOS": ("APO", False),
          "IIVM": ("LATE", True), "SSM": ("missing-at-random", "nonignorable", True), "DID": ("observational", "experimental", False), "DIDCS": ("observational", "experimental", False), "PQ": ("PQ", False), "LPQ": ("LPQ", False),
          "CVaR": ("CVaR", False), "QTE": ("PQ", "CVaR", False), "QTE-LPQ": ("LPQ", False)}


def options(name):
    """options of the wrong type or value"""
    def f(h):
        dd = backend(h, columns(name))
        V, T_ = ValueError, TypeError
        base = "PLR" if name == "PLR-IV" else "IRM" if name == "ATTE" else "QTE" if name == "QTE-CVaR" else name
        good = SCORES[base]
        bad = [(dict(score="nonsense"), V), (dict(score=2), T_), (dict(n_folds=1.5), T_), (dict(n_rep=1.5), T_), (dict(n_folds=0), V), (dict(n_rep=0), V), (dict(draw_sample_splitting="yes"), T_)]
        if not good[-1]:
            bad.append((dict(score=lambda *a: None), T_))
        if name in TRIM:
            bad += [(dict(trimming_rule="discard"), V), (dict(trimming_threshold=1), T_), (dict(trimming_threshold="0.1"), T_)]
            if name in ("DID", "DIDCS"):
                bad += [(dict(in_sample_normalization=1), T_), (dict(in_sample_normalization="yes"), T_)]
            else:
                bad += [(dict(normalize_ipw=1), T_), (dict(normalize_ipw="yes"), T_)]
        if name in ("PQ", "LPQ", "QTE"):
            bad.append((dict(kde=0), T_))
        if name in ("PQ", "LPQ", "CVaR"):
            bad += [(dict(treatment=2), V), (dict(treatment=-1), V), (dict(treatment=1.0), T_), (dict(quantile=1), T_), (dict(quantile="0.5"), T_)]
        if name == "IIVM":
            ok = {"always_takers": True, "never_takers": True}
            bad += [(dict(subgroups=[True, True]), T_), (dict(subgroups={"always_takers": True}), V), (dict(subgroups=dict(ok, compliers=True)), V), (dict(subgroups=dict(ok, always_takers=1)), T_), (dict(subgroups=dict(ok, never_takers=0)), T_)]
        if name in ("IRM", "ATTE", "APO", "APOS"):
            bad += [(dict(weights=[1.0] * N), T_), (dict(weights=np.ones(N - 1)), V), (dict(weights=np.ones((N, 1))), V)]
            if name == "ATTE":
                bad += [(dict(weights={"weights": ONE, "weights_bar": np.ones((N, 1))}), T_)]
            else:
                bad += [(dict(weights={"weights": ONE}), V), (dict(weights={"weights": ONE, "weights_bar": ONE}), V), (dict(weights={"weights": np.ones(N - 1), "weights_bar": np.ones((N, 1))}), V),
                        (dict(weights={"weights": ONE, "weights_bar": np.ones((N, 2))}), V), (dict(weights={"weights": ONE, "weights_bar": np.ones((N, 1)), "more": 1}), V)]
        if name == "APO":
            bad += [(dict(treatment_level=2), V), (dict(treatment_level=0.5), V)]
        if name == "APOS":
            bad += [(dict(treatment_levels=[0, 2]), V), (dict(treatment_levels=3), V)]
        if name.startswith("QTE"):
            bad = [b for b in bad if not set(b[0]) & {"n_folds", "n_rep"}]
            bad = [b for b in bad if "draw_sample_splitting" not in b[0]]
        if name == "APOS":
            bad = [b for b in bad if not set(b[0]) & {"n_folds", "n_rep", "draw_sample_splitting"}]
        b, ex = h.pick(bad, "option")
        h.raises(lambda: quiet(lambda: model(name, dd, **b)), ex, "%s of %s" % (b, name))
        quiet(lambda: model(name, dd))
    return f


def roles(name):
    """instruments, periods and further treatments: required, refused or ignored"""
    def f(h):
        what = h.choose(4, "data")
        T_ = TypeError
        if what == 0:  # no data object
            for bad in (None, np.zeros((N, 3)), {"y": Y}):
                h.raises(lambda: quiet(lambda: model(name, bad)), (TypeError, AttributeError) if name in ("APOS",) else T_, "data of another kind")
        elif what == 1:  # instrument given where there must be none
            if name in ("PLR", "PLR-IV", "IRM", "ATTE", "APO", "APOS", "DID", "DIDCS", "PQ", "CVaR", "QTE", "QTE-CVaR"):
                if name.startswith("QTE"):
                    h.raises(lambda: quiet(lambda: model(name, backend(h, columns(name, z=Z))).draw_sample_splitting()), ValueError, "instrument")
                else:
                    h.raises(lambda: quiet(lambda: model(name, backend(h, columns(name, z=Z)))), ValueError, "instrument")
        elif what == 2:  # no instrument where there must be one
            if ROLES.get(name) == "z":
                c = columns(name)
                c.pop("z")
                dd = backend(h, c)
                if name.startswith("QTE"):
                    h.raises(lambda: quiet(lambda: model(name, dd).draw_sample_splitting()), Exception, "no instrument")
                else:
                    h.raises(lambda: quiet(lambda: model(name, dd)), ValueError, "no instrument")
                if name != "PLIV":
                    c = columns(name, z=[Z, 1 - Z])
                    dd = backend(h, c)
                    if not name.startswith("QTE"):
                        h.raises(lambda: quiet(lambda: model(name, dd)), ValueError, "two instruments")
            if name == "SSM":
                h.raises(lambda: quiet(lambda: model(name, backend(h, columns(name)), score="nonignorable")), ValueError, "nonignorable selection without instrument")
            if name == "PLIV":
                two = backend(h, columns(name, z=[Z, 1 - Z]))
                quiet(lambda: model(name, two))
                h.raises(lambda: quiet(lambda: model(name, two, score="IV-type", ml_g=R("g"))), ValueError, "IV-type score with two instruments")
                h.raises(lambda: quiet(lambda: model(name, backend(h, columns(name)), score="IV-type")), ValueError, "IV-type score without ml_g")
        else:  # two treatments
            two = backend(h, columns(name, d=[D, 1 - D]))
            if name in ("PLR", "PLR-IV", "PLIV"):
                quiet(lambda: model(name, two))
            elif name in BINARY + ("APO",):
                h.raises(lambda: quiet(lambda: model(name, two)), ValueError, "two treatments")
        quiet(lambda: model(name, backend(h, columns(name))))
        h.true(True, "accepted otherwise")
    return f


def treated(name):
    """at least five observations at the treatment level"""
    def f(h):
        k = h.choose(8, "treated")
        d = np.array([1.0] * k + [0.0] * (N - k))
        if name == "APOS" and not k:
            h.true(True, "no such level")
            return
        dd = data(Y, d)
        mk = (lambda: model("APO", dd, treatment_level=1)) if name == "APO" else (lambda: model("APOS", dd, treatment_levels=[1.0]).draw_sample_splitting())
        accepted(h, mk, k >= 5, "%d treated" % k)
    return f


class Odd:
    bad, where = None, ()

    def _pred(self, X):
        p = np.array(plain(obj(super()._pred(X))), dtype=object)
        rows = rows_of(X)
        for i, k in enumerate(rows):
            if k in self.where:
                p[i] = self.bad
        return as_sym(p) if H_().sym else p.astype(float)


from symx.lib import _rows  # noqa: E402


def rows_of(X):
    return list(_rows(X))


def odd(kind, bad, where):
    return type("Odd" + kind, (Odd, R if kind == "reg" else C), {"bad": bad, "where": where})


def finite(name):
    """predictions that are not finite are refused, whatever the other ones are"""
    def f(h):
        h.cache["free_rows"] = (0,)
        c = columns(name)
        which = h.pick(["g", "m"], "learner")
        v = h.pick([float("nan"), float("inf")], "value")
        reg = which == "g" or name in ("PLR", "PLIV")
        bad = odd("reg" if reg else "clf", v, (3,))(which)
        m = model(name, backend(h, c), **{which: bad})
        m.set_sample_splitting(splits(N, 2, 1, "blocks"))
        h.raises(lambda: quiet(m.fit), ValueError, "predictions of ml_%s" % which)
        h.true(m.framework is None, "no result")
    return f


def labels(name):
    """labels instead of probabilities are refused for a binary treatment or outcome"""
    def f(h):
        yb = np.array([0, 1, 1, 0, 0, 1, 1, 0] * 2, float)
        which = h.choose(2, "all labels")
        h.cache["free_rows"] = ()

        class Labels(R):
            def _pred(self, X):
                rows = rows_of(X)
                p = np.array([r % 2 for r in rows], dtype=object)
                if which and 0 in rows:
                    p[rows.index(0)] = H_().real("p", -1, 2)
                return as_sym(p) if H_().sym else p.astype(float)
        if name == "PLR":
            m = model("PLR", data(Y, D), m=Labels("m"))
        elif name == "IRM":
            m = model("IRM", data(yb, D), g=Labels("g"))
        elif name == "APO":
            m = model("APO", data(yb, D), g=Labels("g"))
        else:
            m = model("IIVM", data(yb, D, z=Z), g=Labels("g"))
        m.set_sample_splitting(splits(N, 2, 1, "blocks"))
        ok = bool(which) and not zero_one([h.real("p", -1, 2)])
        accepted(h, m.fit, ok, "labels for " + name)
    return f


def fit(h, name, n=8, nt=1, cluster=None):
    n = 10 if name == "APO" else n
    m, ext, _ = build(h, name, n, 1, 2, nt, cluster, ycol=num(3, n, -1, 2))
    return m, quiet(lambda: m.fit(external_predictions=ext) if ext else m.fit())


def levels(name):
    """confidence levels lie strictly between zero and one"""
    def f(h):
        h.cache["free_rows"] = ()
        m, _ = fit(h, name)
        o = m if h.choose(2, "framework") == 0 else m.framework
        lv = h.real("level", -0.5, 1.5)
        ok = bool(lv > 0) and bool(lv < 1)
        accepted(h, lambda: o.confint(level=lv), ok, "confidence level of " + name)
    return f


CONF = (("cf_y", 0, False), ("cf_d", 0, False), ("rho", -1, True), ("level", 0, None))


def confounding(name):
    """the scenario of a sensitivity analysis: 0 <= cf < 1, |rho| <= 1, 0 < level < 1"""
    def f(h):
        h.cache["free_rows"] = ()
        m, _ = fit(h, name)
        o = m if h.choose(2, "framework") == 0 else m.framework
        key = h.pick(["cf_y", "cf_d", "rho", "level"], "argument")
        v = h.real(key, -1.5, 1.5)
        if key in ("cf_y", "cf_d"):
            ok = bool(v >= 0) and bool(v < 1)
        elif key == "rho":
            ok = bool(v >= -1) and bool(v <= 1)
        else:
            ok = bool(v > 0) and bool(v < 1)
        kw = dict(cf_y=0.25, cf_d=0.125, rho=1.0, level=0.75)
        kw[key] = v
        before = o.sensitivity_params
        if ok:
            accepted(h, lambda: o.sensitivity_analysis(**kw), True, "%s of %s" % (key, name))
        else:
            h.raises(lambda: quiet(lambda: o.sensitivity_analysis(**kw)), ValueError, "%s of %s" % (key, name))
            h.true(before is None and o.sensitivity_params is None, "no results of a refused analysis")
    return f


BEFORE = (("bootstrap", lambda m: m.bootstrap()), ("confint", lambda m: m.confint()), ("p_adjust", lambda m: m.p_adjust()), ("sensitivity_analysis", lambda m: m.sensitivity_analysis()),
          ("sensitivity_plot", lambda m: m.sensitivity_plot()), ("evaluate_learners", lambda m: m.evaluate_learners()))


def unfitted(name):
    """nothing can be asked of a model that has not been fitted"""
    def f(h):
        n = 10 if name == "APO" else 8
        m, _, _ = build(h, name, n, 1, 2, 1, None, ycol=num(3, n, -1, 2))
        for k, c in BEFORE:
            h.raises(lambda: quiet(lambda: c(m)), (ValueError, NotImplementedError) if k.startswith("sens") else ValueError, "%s before fit" % k)
    return f


def bare(name):
    """no sample splitting, no fit"""
    def f(h):
        m = model(name, backend(h, columns(name)))
        h.raises(lambda: quiet(m.fit), (ValueError, TypeError), "fit without sample splitting")
        h.raises(lambda: m.smpls, ValueError, "sample splitting before it is drawn")
    return f


def state(m):
    """what a refused call must leave alone"""
    keep = lambda v: np.array(plain(obj(v)), dtype=object)
    out = [(k, keep(getattr(m, k))) for k in ("coef", "se", "all_coef", "all_se", "psi")]
    out += [("summary", keep(m.summary.values)), ("interval", keep(m.confint(level=0.5).values)), ("boot", m.boot_method), ("covariates", list(m._dml_data.x_cols)), ("folds", str(m.smpls)), ("params", str(m.params)), ("sensitivity", str(m.sensitivity_params))]
    return out + [(k, keep(v)) for k, v in sorted((m.predictions or {}).items())]


def calls(name):
    """arguments of the methods of a fitted model"""
    def f(h):
        h.cache["free_rows"] = ()
        m, _ = fit(h, name)
        V, T_ = ValueError, TypeError
        x = m._dml_data.x_cols if not hasattr(m, "data") else None
        bad = [(lambda: m.fit(n_jobs_cv=1.5), T_), (lambda: m.fit(store_predictions=1), T_), (lambda: m.fit(store_models="yes"), T_),
               (lambda: m.confint(level=1), T_), (lambda: m.confint(level="0.95"), T_), (lambda: m.confint(joint=1), T_), (lambda: m.confint(joint=True), V),
               (lambda: m.bootstrap(method="nonsense"), V), (lambda: m.bootstrap(method=1), V), (lambda: m.bootstrap(n_rep_boot=1.5), T_), (lambda: m.bootstrap(n_rep_boot=0), V), (lambda: m.bootstrap(n_rep_boot=-3), V),
               (lambda: m.p_adjust(method=2), T_), (lambda: m.p_adjust(), V), (lambda: m.p_adjust(method="nonsense"), V),
               (lambda: m.evaluate_learners(metric="rmse"), T_), (lambda: m.evaluate_learners(learners=["nonsense"]), V), (lambda: m.evaluate_learners(learners=["ml_m", "nonsense"]), V), (lambda: m.evaluate_learners(metric=lambda y_true, y_pred: float("nan")), V),
               (lambda: m.set_ml_nuisance_params("nonsense", m._dml_data.d_cols[0], {}), V), (lambda: m.set_ml_nuisance_params(m.params_names[0], "nonsense", {}), V)]
        if SENS.get(name):
            bad += [(lambda: m.sensitivity_analysis(cf_y=1), T_), (lambda: m.sensitivity_analysis(cf_d=0), T_), (lambda: m.sensitivity_analysis(rho=1), T_), (lambda: m.sensitivity_analysis(rho="1"), T_), (lambda: m.sensitivity_analysis(level=1), T_),
                    (lambda: m.sensitivity_benchmark("X1"), T_), (lambda: m.sensitivity_benchmark([]), V), (lambda: m.sensitivity_benchmark(["nonsense"]), V), (lambda: m.sensitivity_benchmark(["X1", "d"]), V), (lambda: m.sensitivity_benchmark(["X1"], fit_args=["n_jobs_cv"]), T_),
                    (lambda: m.sensitivity_plot(), V)]
        else:
            bad += [(lambda: m.sensitivity_analysis(), (NotImplementedError, ValueError)), (lambda: m.sensitivity_benchmark(["X1"]), (NotImplementedError, ValueError))]
        grid = {k: {"a": [1, 2]} for k in m.learner_names}
        less = dict(list(grid.items())[1:])
        bad += [(lambda: m.tune([grid]), V), (lambda: m.tune(less), V), (lambda: m.tune(grid, scoring_methods="mse"), V), (lambda: m.tune(grid, scoring_methods={"nonsense": "mse"}), V), (lambda: m.tune(grid, tune_on_folds=1), T_),
                (lambda: m.tune(grid, n_folds_tune=1.5), T_), (lambda: m.tune(grid, n_folds_tune=1), V), (lambda: m.tune(grid, search_mode="nonsense"), V), (lambda: m.tune(grid, search_mode=1), V), (lambda: m.tune(grid, n_iter_randomized_search=1.5), T_),
                (lambda: m.tune(grid, n_iter_randomized_search=1), V), (lambda: m.tune(grid, n_jobs_cv=1.5), T_), (lambda: m.tune(grid, set_as_params=1), T_), (lambda: m.tune(grid, return_tune_res=1), T_)]
        i = h.choose(len(bad), "call")
        before = state(m)
        h.raises(lambda: quiet(bad[i][0]), (TypeError, ValueError, NotImplementedError), "call %d of %s" % (i, name))
        for (k, a), (_, b) in zip(before, state(m)):
            h.eq(a, b, "%s after the refused call %d" % (k, i)) if isinstance(a, np.ndarray) else h.true(a == b, "%s after the refused call %d" % (k, i))
    return f


SENS = dict.fromkeys(("PLR", "PLR-IV", "IRM", "ATTE", "APO", "DID", "DIDCS"), True)


def scenarios(tier):
    out = []
    exact = lambda h: {"type_of_target": kind_of} if h.sym else {}

    def add(name, fn, patches=exact, **kw):
        out.append(Scenario(name, fn, patches=patches, bounds=name, **kw))
    for nm in BINARY:
        add("treatment-" + nm, binary(nm, "d"))
    for nm in ("IIVM", "LPQ"):
        add("instrument-" + nm, binary(nm, "z"))
    add("period", binary("DIDCS", "t"))
    for nm in ("IRM", "ATTE", "APO", "APOS", "IIVM", "SSM", "DID", "DIDCS"):
        add("outcome-" + nm, outcome(nm))
    for nm in ("PLR", "PLR-IV"):
        for nt in (1, 2):
            add("classifier-%s-%d" % (nm, nt), treatment_classifier(nm, nt))
    for nm in TRIM:
        add("threshold-" + nm, threshold(nm))
    for nm in ("PQ", "LPQ", "CVaR", "QTE", "QTE-LPQ", "QTE-CVaR"):
        add("quantile-" + nm, quantile(nm))
    for nm in ("IRM", "ATTE", "APO", "APOS"):
        add("weights-" + nm, weights(nm))
    for nm in ALL:
        add("learners-" + nm, learners(nm))
        add("options-" + nm, options(nm))
        add("roles-" + nm, roles(nm))
    for nm in ("APO", "APOS"):
        add("treated-" + nm, treated(nm))
    for nm in ("PLR", "PLIV", "IRM", "ATTE", "APO", "IIVM", "SSM", "DID", "DIDCS"):
        add("finite-" + nm, finite(nm))
    for nm in ("PLR", "IRM", "APO", "IIVM"):
        add("labels-" + nm, labels(nm))
    for nm in ("PLR", "PLIV", "IRM", "APO", "IIVM", "SSM", "DID", "DIDCS"):
        add("levels-" + nm, levels(nm), patches=None)
        add("unfitted-" + nm, unfitted(nm), patches=None)
        add("calls-" + nm, calls(nm), patches=None)
        if SENS.get(nm):
            add("confounding-" + nm, confounding(nm), patches=lambda h: IDLE)
    for nm in ALL:
        if not nm.startswith("QTE") and nm != "APOS":
            add("bare-" + nm, bare(nm))
    return out

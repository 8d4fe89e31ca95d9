"""Best linear predictor, CATE and GATE"""
import warnings

import pandas as pd
from symx.nparr import NP, SymArray, has_sym, plain

from props.common import *
from props.draws import drawing
from props.models import D8, build, num


# ---- statsmodels' OLS by its defining equations, used when something in it is a solver variable -----------------------------
def gauss(A, B):
    """A^-1 B for a small matrix: by blocks that do not interact, 1x1 and 2x2 by the adjugate, larger concrete ones by elimination"""
    k = len(A)
    zero = lambda e: (not isinstance(e, S.SymReal) and e == 0) or (isinstance(e, S.SymReal) and e.is_const and e.const() == 0)
    if all(zero(A[i][j]) for i in range(k) for j in range(k) if i != j):
        return [[(0.0 if zero(B[i][c]) else B[i][c] / A[i][i]) for c in range(len(B[0]))] for i in range(k)]
    if k == 2:
        det = A[0][0] * A[1][1] - A[0][1] * A[1][0]
        return [[(A[1][1] * B[0][c] - A[0][1] * B[1][c]) / det for c in range(len(B[0]))],
                [(A[0][0] * B[1][c] - A[1][0] * B[0][c]) / det for c in range(len(B[0]))]]
    inv = np.linalg.inv(np.array([[float(e) for e in r] for r in A]))
    return [[sum(S.frac(float(np.round(inv[i][j], 13))) * 1.0 * B[j][c] for j in range(k)) for c in range(len(B[0]))] for i in range(k)]


class Res:
    def __init__(self, y, X, cols, cov_type):
        n, k = X.shape
        self.cols = cols
        xx = [[sum(X[i, a] * X[i, b] for i in range(n)) for b in range(k)] for a in range(k)]
        xy = [[sum(X[i, a] * y[i] for i in range(n))] for a in range(k)]
        self.b = [r[0] for r in gauss(xx, xy)]
        e = [y[i] - sum(X[i, a] * self.b[a] for a in range(k)) for i in range(n)]
        f = {"HC0": 1.0, "HC1": n / (n - k)}[cov_type]
        meat = [[f * sum(X[i, a] * X[i, b] * e[i] * e[i] for i in range(n)) for b in range(k)] for a in range(k)]
        half = gauss(xx, meat)
        om = gauss(xx, [list(r) for r in zip(*half)])
        self.om = np.empty((k, k), dtype=object)
        for a in range(k):
            for b in range(k):
                self.om[a, b] = om[a][b]

    def _ser(self, v):
        return pd.Series(list(v), index=self.cols, dtype=object)

    params = property(lambda s: s._ser(s.b))
    bse = property(lambda s: s._ser([NP.sqrt(s.om[i, i]) for i in range(len(s.b))]))
    tvalues = property(lambda s: s._ser([b / e for b, e in zip(s.b, s.bse)]))
    pvalues = property(lambda s: s._ser([2 * S.Phi(-abs(t)) for t in s.tvalues]))

    def conf_int(self, alpha=0.05, cols=None):
        from scipy.stats import norm
        q = norm.ppf(1 - alpha / 2)
        return pd.DataFrame({0: self._ser([b - q * e for b, e in zip(self.b, self.bse)]), 1: self._ser([b + q * e for b, e in zip(self.b, self.bse)])}, dtype=object)

    def cov_params(self, *a, **k):
        return pd.DataFrame(self.om, index=self.cols, columns=self.cols)

    def predict(self, exog=None, *a, **k):
        X = plain(exog.to_numpy() if hasattr(exog, "to_numpy") else exog)
        r = [sum((X[i, j] * 1.0 if isinstance(X[i, j], (bool, np.bool_)) else X[i, j]) * self.b[j] for j in range(X.shape[1])) for i in range(X.shape[0])]
        return pd.Series(r, index=getattr(exog, "index", None), dtype=object)


def regression(h):
    if not h.sym:
        return {}

    def ols(real):
        class OLS:
            def __init__(self, endog, exog=None, **k):
                self.y, self.X = endog, exog

            def fit(self, cov_type="nonrobust", **kw):
                X = self.X.to_numpy() if hasattr(self.X, "to_numpy") else np.asarray(self.X)
                if not has_sym(self.y) and not has_sym(X):
                    return real(np.asarray(plain(self.y), float), self.X).fit(cov_type=cov_type, **kw)
                X = np.array([[e * 1.0 if not isinstance(e, S.SymReal) else e for e in r] for r in plain(X)], dtype=object)
                return Res(obj(self.y), X, self.X.columns, cov_type)
        return OLS

    class Sm:
        def __init__(self, real):
            self._r, self.OLS = real, ols(real.OLS)

        def __getattr__(self, n):
            return getattr(self._r, n)

    def root(real):
        def sqrtm(a, *args, **k):
            if not has_sym(a):
                return real(np.asarray(plain(a), float), *args, **k)
            a = obj(a)
            z = lambda e: not isinstance(e, S.SymReal) and e == 0 or isinstance(e, S.SymReal) and e.is_const and e.const() == 0
            if all(z(a[i, j]) for i in range(len(a)) for j in range(len(a)) if i != j):
                return h.arr([[NP.sqrt(a[i, i]) if i == j else 0.0 for j in range(len(a))] for i in range(len(a))])
            # 2x2: sqrt(M) = (M + s I) / t with s = sqrt(det M), t = sqrt(tr M + 2 s)
            s = NP.sqrt(a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0])
            t = NP.sqrt(a[0, 0] + a[1, 1] + 2 * s)
            return h.arr([[(a[i, j] + (s if i == j else 0)) / t for j in range(2)] for i in range(2)])
        return sqrtm
    return {"sm": Sm, "OLS": ols, "sqrtm": root}


# ---- what is claimed ------------------------------------------------------------------------------------------------------
def vals(x):
    return obj(x.to_numpy() if hasattr(x, "to_numpy") else x)


def check(h, b, sig, X, factor=1.0, tag=""):
    """coefficients and covariance of the regression of the signal on the basis"""
    n, k = X.shape
    beta = list(vals(b.blp_model.params))
    e = [sig[i] - sum(X[i, j] * beta[j] for j in range(k)) for i in range(n)]
    for j in range(k):
        h.eq(sum(X[i, j] * e[i] for i in range(n)), 0.0, tag + "normal equation %d" % j)
    h.eq(b.orth_signal, h.arr(list(sig)), tag + "signal")
    om = vals(b.blp_omega)
    xx = [[sum(X[i, a] * X[i, c] for i in range(n)) for c in range(k)] for a in range(k)]
    for a in range(k):
        for c in range(a, k):
            lhs = sum(xx[a][p] * om[p, q] * xx[q][c] for p in range(k) for q in range(k))
            h.eq(lhs, factor * sum(X[i, a] * X[i, c] * e[i] * e[i] for i in range(n)), tag + "covariance %d%d" % (a, c))
    return beta, om


def bands(h, b, beta, om, at, names, level=0.95, tag="", sqrt=None, **kw):
    from scipy.stats import norm
    sq = h.np.sqrt
    q = norm.ppf(1 - (1 - level) / 2)
    ci = b.confint(level=level, **kw)
    h.true(list(ci.columns) == ["{:.1f} %".format((1 - level) / 2 * 100), "effect", "{:.1f} %".format((1 - (1 - level) / 2) * 100)], tag + "columns")
    h.true(list(ci.index) == list(names), tag + "rows")
    v = vals(ci)
    for r, x in enumerate(at):
        g = sum(x[j] * beta[j] for j in range(len(beta)))
        var = sum(x[a] * x[c] * om[a, c] for a in range(len(beta)) for c in range(len(beta)) if x[a] != 0 and x[c] != 0)
        h.eq(v[r, 1], g, tag + "effect %d" % r)
        h.eq((v[r, 2] + v[r, 0]) / 2, g, tag + "centre %d" % r)
        h.eq((v[r, 2] - v[r, 0]) ** 2, 4 * q * q * var, tag + "squared width %d" % r)
        h.le(v[r, 0], v[r, 2], tag + "order %d" % r)


GR = {8: [[0, 1, 0, 1, 1, 0, 1, 0]], 10: [[0, 1, 0, 1, 1, 0, 1, 0, 1, 1]]}


def groups(n, kind):
    g = np.array([0, 1, 0, 2, 1, 0, 1, 2, 1, 0][:n])
    if kind == "one":
        return pd.DataFrame({"g": [["a", "b", "c"][i] for i in g]}), np.array([g == i for i in range(3)]).T * 1.0, ["Group_a", "Group_b", "Group_c"]
    m = np.array([g == i for i in range(3)]).T
    if kind == "int":
        return pd.DataFrame(m.astype(int), columns=["p", "q", "r"]), m * 1.0, ["p", "q", "r"]
    if kind == "two":  # some rows in no group
        return pd.DataFrame(m[:, :2], columns=["p", "q"]), m[:, :2] * 1.0, ["p", "q"]
    if kind == "single":
        return pd.DataFrame(m[:, :1], columns=["p"]), m[:, :1] * 1.0, ["p"]
    return pd.DataFrame(m, columns=["p", "q", "r"]), m * 1.0, ["p", "q", "r"]


def fitted(h, name, free, n=8, **kw):
    base = num(4, 10 if name == "APO" else n, -1.0, 2.0).astype(object)
    for i in free:
        base[i] = h.real("y%d" % i, -2, 3)
    m, e, _ = build(h, name, n, ycol=h.arr(list(base)), **kw)
    m.fit(external_predictions=e)
    return m, e, h.arr(list(base))


def signal(h, name, m, e, y):
    """the orthogonal signal and the factor of the basis, from the predictions"""
    one = e["d"]
    c = lambda k: one[k][:, 0]
    n = len(y)
    d = D8[:n] if name in ("IRM", "APO") else num(3, n, -1.0, 2.0)
    if name == "IRM":
        g0, g1, p = c("ml_g0"), c("ml_g1"), c("ml_m")
        return [g1[i] - g0[i] + d[i] * (y[i] - g1[i]) / p[i] - (1 - d[i]) * (y[i] - g0[i]) / (1 - p[i]) for i in range(n)], np.ones(n)
    if name == "APO":
        g1, p = c("ml_g_d_lvl1"), c("ml_m")
        return [g1[i] + d[i] * (y[i] - g1[i]) / p[i] for i in range(n)], np.ones(n)
    if name == "PLR":
        return [y[i] - c("ml_l")[i] for i in range(n)], d - c("ml_m")
    th = vals(m.coef)[0]
    return [y[i] - th * c("ml_m")[i] - c("ml_g")[i] for i in range(n)], d - c("ml_m")


def gate(name, kind, free, cov=None):
    def f(h):
        m, e, y = fitted(h, name, free)
        n = len(y)
        df, G, names = groups(n, kind)
        sig, fac = signal(h, name, m, e, y)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            b = (m.gapo if name == "APO" else m.gate)(df, **({} if cov is None else {"cov_type": cov}))
        X = G * fac[:, None]
        k = G.shape[1]
        beta, om = check(h, b, sig, X, 1.0 if cov is None else n / (n - k))
        for j in range(k):  # disjoint groups: each group alone
            rows = np.where(G[:, j] == 1)[0]
            den = sum(fac[i] ** 2 for i in rows)
            h.eq(beta[j], sum(fac[i] * sig[i] for i in rows) / den, "group %d: effect" % j)
        bands(h, b, beta, om, np.eye(k), names, tag="gate ")
        bands(h, b, beta, om, np.eye(k), names, level=0.8, tag="gate 80 ", joint=False)
        s = b.summary
        h.eq(vals(s["coef"]), h.arr(beta), "summary: coef")
        h.eq(h.arr([x * x for x in vals(s["std err"])]), h.arr([om[j, j] for j in range(k)]), "summary: squared se")
        h.true(list(s.index) == names, "summary: rows")
    return f


def basis(n, k):
    X = np.column_stack([np.ones(n), num(2, n, -1.0, 1.0), num(9, n, 0.0, 2.0)])[:, :k]
    return pd.DataFrame(X, columns=["one", "b", "c"][:k], index=range(n)), X


def cate(name, k, free, new=True):
    def f(h):
        m, e, y = fitted(h, name, free)
        n = len(y)
        df, B = basis(n, k)
        sig, fac = signal(h, name, m, e, y)
        b = (m.capo if name == "APO" else m.cate)(df)
        beta, om = check(h, b, sig, B * fac[:, None])
        at = np.array([[1.0, 0.25, 0.5][:k], [0.0, 1.0, -0.5][:k]])
        if new:
            nb = pd.DataFrame(at, columns=df.columns, index=["u", "v"])
            bands(h, b, beta, om, at, ["u", "v"], tag="at new points ", basis=nb)
            bands(h, b, beta, om, at, ["u", "v"], level=0.5, tag="at new points, 50 % ", basis=nb)
        h.raises(lambda: b.confint(basis=pd.DataFrame(at[:, :1], columns=["one"])), ValueError, "another number of columns")
        h.raises(lambda: b.confint(basis=pd.DataFrame(at[:, ::-1], columns=list(df.columns)[::-1])), ValueError, "another order of columns") if k > 1 else None
    return f


def direct(k, cov):
    """DoubleMLBLP on a signal of its own"""
    def f(h):
        n = 6
        df, B = basis(n, k)
        base = num(4, n, -1.0, 2.0).astype(object)
        for i in (1, 4):
            base[i] = h.real("s%d" % i, -2, 3)
        s = h.arr(list(base))
        b = dml.DoubleMLBLP(s, df)
        h.true(b.summary.shape == (0, 6), "empty summary before the fit")
        h.raises(lambda: b.confint(), ValueError, "not fitted")
        b.fit(cov_type=cov)
        beta, om = check(h, b, list(s), B, 1.0 if cov == "HC0" else n / (n - k))
        bands(h, b, beta, om, B[:2], [0, 1], basis=df.iloc[:2])
        v = b.summary
        h.eq(vals(v["coef"]), h.arr(beta), "summary: coef")
        h.eq(h.arr([x * x for x in vals(v["std err"])]), h.arr([om[j, j] for j in range(k)]), "summary: squared se")
        h.eq(h.arr([a * c for a, c in zip(vals(v["t"]), vals(v["std err"]))]), h.arr(beta), "summary: t")
        from scipy.stats import norm
        q = norm.ppf(0.975)
        h.eq(h.arr([(a - c) ** 2 for a, c in zip(vals(v["0.975]"]), vals(v["[0.025"]))]), h.arr([4 * q * q * om[j, j] for j in range(k)]), "summary: squared width")
    return f


def coefci(h):
    """known finding: the intervals of the coefficients themselves do not have the level that was asked for"""
    coefci2(h, False)


def coefpin(h):
    coefci2(h, True)


def coefci2(h, pinned):
    n = 6
    df, B = basis(n, 2)
    base = num(4, n, -1.0, 2.0).astype(object)
    base[1] = h.real("s1", -2, 3)
    b = dml.DoubleMLBLP(h.arr(list(base)), df).fit()
    beta, om = check(h, b, list(base), B)
    if not pinned:
        bands(h, b, beta, om, np.eye(2), ["one", "b"], tag="coefficients ")
        return
    from scipy.stats import norm
    for level in (0.95, 0.8):
        v = vals(b.confint(level=level))
        q, q2 = norm.ppf(1 - (1 - level) / 2), norm.ppf(1 - (1 - level) / 4)
        h.eq(v[:, 1], h.arr(beta), "coefficients: effect")
        h.eq(h.arr([(r[0] + r[2]) / 2 for r in v]), h.arr(beta), "coefficients: centre")
        w = h.arr([(r[2] - r[0]) ** 2 for r in v])
        h.either(w, [h.arr([4 * x * x * om[j, j] for j in range(2)]) for x in (q, q2)], "coefficients: squared width")


def joint(name, kind, level=0.5, nb=2, pinned=True):
    """bands from a quantile, over the draws, of the maximal t statistic; known finding: the maximum is taken over the draws"""
    def f(h):
        m, e, y = fitted(h, name, (2,))
        n = len(y)
        if kind == "cate":
            df, B = basis(n, 2)
        else:
            df, B, names = groups(n, kind)
        sig, fac = signal(h, name, m, e, y)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            b = m.cate(df) if kind == "cate" else m.gate(df)
        beta, om = check(h, b, sig, B * fac[:, None])
        k = B.shape[1]
        Z = num(7, (k, nb), -2.0, 2.0)
        at = np.array([[1.0, 0.25], [0.0, 1.0]]) if kind == "cate" else np.eye(k)
        kw = dict(basis=pd.DataFrame(at, columns=df.columns)) if kind == "cate" else {}
        with drawing(h, fixed=lambda kd, t, ix: Z[ix]) as d:
            ci = vals(b.confint(joint=True, level=level, n_rep_boot=nb, **kw))
        h.true(len(d.log) == 1 and np.shape(d.log[0][1]) == (k, nb), "one matrix of draws")
        var = [sum(x[a] * x[c] * om[a, c] for a in range(k) for c in range(k) if x[a] != 0 and x[c] != 0) for x in at]
        if kind == "cate":
            return
        # disjoint groups: the draws themselves are the t statistics
        mx = np.max(np.abs(Z), axis=0)
        q = float(np.quantile(mx, level))
        q2 = float(np.quantile(np.max(np.abs(Z), axis=1), level)) if pinned else q
        for r, x in enumerate(at):
            g = sum(x[j] * beta[j] for j in range(k))
            h.eq(ci[r, 1], g, "effect %d" % r)
            h.eq((ci[r, 2] + ci[r, 0]) / 2, g, "centre %d" % r)
        h.either(h.arr([(ci[r, 2] - ci[r, 0]) ** 2 for r in range(k)]), [h.arr([4 * x * x * var[r] for r in range(k)]) for x in (q, q2)], "squared width")
        for r in range(k):
            h.le(ci[r, 0], ci[r, 2], "order %d" % r)
    return f


def refused(h):
    m, e, y = fitted(h, "IRM", (2,))
    h.raises(lambda: m.gate(np.zeros((8, 2))), TypeError, "groups: not a data frame")
    h.raises(lambda: m.gate(pd.DataFrame(np.ones((8, 2)))), TypeError, "groups: several columns that are neither bool nor int")
    h.raises(lambda: m.cate(np.zeros((8, 2))), TypeError, "basis: not a data frame")
    h.raises(lambda: m.cate(pd.DataFrame(np.ones((8, 2)), columns=["a", "a"])), ValueError, "basis: duplicate names")
    b = m.cate(basis(8, 2)[0])
    for kw, ex in ((dict(level=1), TypeError), (dict(level=0.0), ValueError), (dict(level=1.0), ValueError), (dict(joint=1), TypeError),
                   (dict(n_rep_boot=0), ValueError), (dict(n_rep_boot=2.0), TypeError)):
        h.raises(lambda: b.confint(**kw), ex, "confint %r" % kw)
    a, e2, _ = fitted(h, "ATTE", (2,))
    h.raises(lambda: a.gate(groups(8, "bool")[0]), ValueError, "gate: only for the average treatment effect")
    h.raises(lambda: a.cate(basis(8, 2)[0]), ValueError, "cate: only for the average treatment effect")
    for nm in ("IRM", "PLR", "APO"):
        r, e3, y3 = fitted(h, nm, (), nrep=2)
        h.raises(lambda: (r.capo if nm == "APO" else r.cate)(basis(len(y3), 2)[0]), NotImplementedError, nm + ": several repetitions")
    two, e4, _ = fitted(h, "PLR", (), ntreat=2)
    h.raises(lambda: two.cate(basis(8, 2)[0]), NotImplementedError, "several treatments")
    h.raises(lambda: dml.DoubleMLBLP([1.0, 2.0], basis(2, 1)[0]), TypeError, "signal: not an array")
    h.raises(lambda: dml.DoubleMLBLP(np.ones((2, 1)), basis(2, 1)[0]), ValueError, "signal: not one-dimensional")


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, bounds=name, patches=regression, witness=True, **kw))
    for nm in ("IRM", "APO", "PLR", "PLR-IV"):
        fr = (1, 4) if nm != "PLR-IV" else (1,)
        for kind in (("bool", "one", "int") if nm == "IRM" else ("bool", "int", "two") if nm == "PLR" else ("one", "int")):
            add("gate-%s-%s" % (nm, kind), gate(nm, kind, fr))
        add("cate-" + nm, cate(nm, 2, fr))
    add("gate-HC1", gate("IRM", "bool", (1, 2), "HC1"))
    add("gate-single", gate("IRM", "single", (0, 1)))
    add("blp-1", direct(1, "HC0"))
    add("blp-2", direct(2, "HC0"))
    add("blp-HC1", direct(2, "HC1"))
    add("cate-3", cate("IRM", 3, (1, 4)))
    add("coefficients", coefci, known="blp-coefficient-level")
    add("coefficients-known", coefpin)
    add("joint", joint("IRM", "bool", pinned=False), known="blp-joint-quantile")
    add("joint-IRM", joint("IRM", "bool"))
    add("joint-PLR", joint("PLR", "bool", 0.75, 4))
    add("refused", refused)
    if tier != "quick":
        for nm in ("IRM", "APO", "PLR"):
            add("gate-all-" + nm, gate(nm, "bool", tuple(range(8))), budget=300)
            add("cate-all-" + nm, cate(nm, 2, tuple(range(8))), budget=300)
    return out

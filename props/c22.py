"""benchmarking of confounding strength against observed covariates (gain statistics)"""
from types import SimpleNamespace

from props.fw import *
from doubleml.utils import gain_statistics


def clip01(h, x):
    if bool(x < 0):
        return 0.0
    return 1.0 if bool(x > 1) else x


def sign(x):
    return 1.0 if bool(x > 0) else (-1.0 if bool(x < 0) else 0.0)


def spec(h, vy, L, S_, nrep):
    """L, S_: (residual variances, second moments, estimates) of one parameter in each repetition"""
    cy, cd, rho, dl = [], [], [], []
    for r in range(nrep):
        (sl, nl, tl), (ss, ns, ts) = [x[r] for x in L], [x[r] for x in S_]
        cy.append(clip01(h, (ss - sl) / sl if vy is None else ((1 - sl / vy) - (1 - ss / vy)) / (1 - (1 - sl / vy))))
        cd.append(clip01(h, (1 - ns / nl) / (ns / nl)))
        d = ts - tl
        g, w = ss - sl, nl - ns
        if bool(g > 0) and bool(w > 0):
            a = abs(d) / sqrt_(g * w)
            rho.append(sign(d) * (1.0 if bool(a > 1) else a))
        else:
            rho.append(sign(d))
        dl.append(d)
    return median(cy), median(cd), median(rho), median(dl)


def fake(h, y, s, n_, th):
    """the parts of a fitted model that a benchmark reads"""
    return SimpleNamespace(framework=SimpleNamespace(sensitivity_elements={"sigma2": s.reshape((1,) + s.shape), "nu2": n_.reshape((1,) + n_.shape)}),
                           all_coef=th, _dml_data=data(y, num(2, len(y), -1, 1), sig=False))


FIX_S = np.array([[1.0, 1.25, 0.75], [0.5, 1.5, 1.0]])


def gain(nt, nrep, free, which="all", spread=0.125):
    """free: (parameter, repetition) whose values are arbitrary"""
    def f(h):
        y = num(3, 5, -1, 2)
        vy = float(np.var(y))
        A = {}
        for k, (key, lo, hi) in enumerate((("sl", 0.25, 2), ("ss", 0.25, 2), ("nl", 0.25, 4), ("ns", 0.25, 4), ("tl", -2, 2), ("ts", -2, 2))):
            v = num(4 + k, (nt, nrep), 0.5, 2).astype(object)
            v = np.array([[float(e) + (spread if key in ("ss", "nl") else 0.0) for e in row] for row in v], dtype=object)
            for i in range(nt):
                for r in range(nrep):
                    if (i, r) in free and (which == "all" or key in which):
                        v[i, r] = h.real("%s%d%d" % (key, i, r), lo, hi)
            A[key] = h.arr(v)
        g = gain_statistics(fake(h, y, A["sl"], A["nl"], A["tl"]), fake(h, y, A["ss"], A["ns"], A["ts"]))
        for i in range(nt):
            e = spec(h, vy, (A["sl"][i], A["nl"][i], A["tl"][i]), (A["ss"][i], A["ns"][i], A["ts"][i]), nrep)
            for key, v in zip(("cf_y", "cf_d", "rho", "delta_theta"), e):
                h.eq(g[key][i], v, "%s of parameter %d" % (key, i))
            h.le(0.0, g["cf_y"][i], "cf_y >= 0")
            h.le(g["cf_y"][i], 1.0, "cf_y <= 1")
            h.le(0.0, g["cf_d"][i], "cf_d >= 0")
            h.le(g["cf_d"][i], 1.0, "cf_d <= 1")
            h.le(-1.0, g["rho"][i], "rho >= -1")
            h.le(g["rho"][i], 1.0, "rho <= 1")
    return f


class ColReg(StubReg):
    """predictions depend on the number of covariates seen"""

    def predict(self, X):
        return colpred(self, X)


class ColClf(StubClf):
    def predict_proba(self, X):
        p = colpred(self, X)
        return np.column_stack((1 - p, p))


def colvals(kind, tag, sig, train, rows, ncol):
    s = sum(map(ord, str(tag) + str(sig))) + 3 * ncol + sum(train)
    v = num(s, 16, *((0.4, 0.6) if kind == "clf" else (-1.0, 1.5)))
    return np.array([v[k % 16] for k in rows])


def colpred(o, X):
    from symx.lib import _rows
    f = o.fit_
    return colvals(o.kind, f["tag"], f["sig"], f["rows"], _rows(X), np.shape(X)[1])


def bench(name, nrep=1, nt=1, n=8, args=False, apos=False):
    """benchmark of a model: refit on the same folds without the covariates, everything else equal; the model itself stays"""
    def f(h):
        y = h.arr([float(v) for v in num(3, n, -1, 2)])
        y[0] = h.real("y0", -1, 2)
        x2 = num(4, n, -1, 1)
        kw = dict(n_folds=2, n_rep=nrep, draw_sample_splitting=False)

        def make(cols):
            if name == "PLR":
                ds = [num(5 + i, n, -1, 2) for i in range(nt)]
                dd = data(y, ds, x=x2 if cols else None)
                m = dml.DoubleMLPLR(dd, ColReg("l"), ColReg("m"), **kw)
            elif name in ("IRM", "ATTE"):
                dd = data(y, D8[:n], x=x2 if cols else None)
                m = dml.DoubleMLIRM(dd, ColReg("g"), ColClf("m"), score="ATE" if name == "IRM" else name, **kw)
            elif name == "DID":
                dd = data(y, D8[:n], x=x2 if cols else None)
                m = dml.DoubleMLDID(dd, ColReg("g"), ColClf("m"), **kw)
            elif name == "APOS":
                dd = data(y, np.array([0, 1, 1, 0, 1, 0, 1, 0, 1, 0], float)[:n], x=x2 if cols else None)
                m = dml.DoubleMLAPOS(dd, ColReg("g"), ColClf("m"), treatment_levels=[0.0, 1.0], **kw)
            m.set_sample_splitting(splits(n, 2, nrep))
            return m
        lng, sh = make(True), make(False)
        fa = {"store_predictions": False} if args else None
        lng.fit()
        sh.fit()
        before = obj(lng.all_coef).copy(), list(lng._dml_data.x_cols)
        df = lng.sensitivity_benchmark(["X2"], fit_args=fa) if args else lng.sensitivity_benchmark(["X2"])
        h.eq(lng.all_coef, before[0], "the model keeps its estimates")
        h.true(list(lng._dml_data.x_cols) == before[1], "the data keep their covariates")
        el, es = lng.framework.sensitivity_elements, sh.framework.sensitivity_elements
        vy = var0(y)
        k = lng.framework.n_thetas
        h.true(list(df.columns) == ["cf_y", "cf_d", "rho", "delta_theta"], "columns")
        h.true(df.shape[0] == k, "rows")
        h.true(list(df.index) == ([0.0, 1.0] if name == "APOS" else list(lng._dml_data.d_cols)), "names")
        for i in range(k):
            e = spec(h, vy, (el["sigma2"][0, i], el["nu2"][0, i], lng.all_coef[i]), (es["sigma2"][0, i], es["nu2"][0, i], sh.all_coef[i]), nrep)
            for key, v in zip(("cf_y", "cf_d", "rho", "delta_theta"), e):
                h.eq(df[key].iloc[i], v, "%s of parameter %d" % (key, i))
    return f


def reject(h):
    m, e, _ = build(h, "PLR", ycol=num(3, 8, -1, 1))
    m.fit(external_predictions=e)
    h.raises(lambda: m.sensitivity_benchmark([]), ValueError, "empty set")
    h.raises(lambda: m.sensitivity_benchmark("X1"), TypeError, "no list")
    h.raises(lambda: m.sensitivity_benchmark(["nope"]), ValueError, "unknown covariate")
    h.raises(lambda: m.sensitivity_benchmark(["X1"], fit_args=3), TypeError, "fit_args")
    p, e, _ = build(h, "IIVM", ycol=num(3, 8, -1, 1))
    p.fit(external_predictions=e)
    h.raises(lambda: p.sensitivity_benchmark(["X1"]), NotImplementedError, "no sensitivity elements")
    y = num(3, 5, -1, 1)
    a = fake(h, y, np.ones((2, 1)), np.ones((2, 1)), np.ones((2, 1)))
    b = fake(h, y, np.ones((1, 1)), np.ones((1, 1)), np.ones((1, 1)))
    c = fake(h, y, np.ones((2, 1)), np.ones((2, 1)), np.ones((1, 1)))
    h.raises(lambda: gain_statistics(a, b), ValueError, "different numbers of parameters")
    h.raises(lambda: gain_statistics(a, c), ValueError, "shape of the estimates")
    h.raises(lambda: gain_statistics(c, a), ValueError, "shape of the estimates")
    h.observe("x", h.real("x"))


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, bounds=str(kw)))
    add("gain-all", gain(1, 1, [(0, 0)]))
    add("gain-2par", gain(2, 1, [(1, 0)]))
    add("gain-2rep", gain(1, 2, [(0, 1)]))
    add("gain-3rep-y", gain(1, 3, [(0, 0), (0, 2)], ("sl", "ss")))
    add("gain-3rep-d", gain(1, 3, [(0, 0), (0, 2)], ("nl", "ns")))
    add("gain-3rep-t", gain(2, 3, [(1, 0), (1, 2)], ("tl", "ts")))
    add("gain-3rep-rho", gain(2, 3, [(1, 1)], ("ts", "ss", "nl"), 1.5))
    add("bench-PLR", bench("PLR"))
    add("bench-PLR-2", bench("PLR", 2, 2))
    add("bench-PLR-args", bench("PLR", 1, args=True))
    add("bench-IRM", bench("IRM", 2))
    add("bench-ATTE", bench("ATTE", 1, args=True))
    add("bench-DID", bench("DID"))
    add("bench-APOS", bench("APOS", 2, n=10))
    add("reject", reject)
    return out

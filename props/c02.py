"""partially linear IV"""
from props.common import *


def body(score="partialling out", k=2, nrep=1, ntreat=1, nz=1, n=4, ext=(), noclone=True):
    def f(h):
        y = h.reals("y", n)
        ds = [h.reals("d%d" % i, n) for i in range(ntreat)]
        zs = [h.reals("z%d" % i, n) for i in range(nz)]
        dd = data(y, ds, z=zs)
        sm = splits(n, k, nrep)
        kw = {}
        if score in ("IV-type", "callable") and noclone:
            kw["ml_g"] = StubReg("g")
        sc = score
        if score == "callable":
            def sc(y, z, d, l_hat, m_hat, r_hat, g_hat, smpls):
                return -(z - m_hat) * (d + l_hat), (z - m_hat) * (y - g_hat) - r_hat * m_hat
        m = dml.DoubleMLPLIV(dd, StubReg("l"), StubReg("m"), StubReg("r"), n_folds=k, n_rep=nrep, score=sc,
                             draw_sample_splitting=False, **kw)
        m.set_sample_splitting(sm)
        e = {}
        mk = ["m"] if nz == 1 else ["m_" + z for z in dd.z_cols]
        for dn in dd.d_cols:
            e[dn] = {"ml_" + t: h.reals("ext_%s_%s" % (t, dn), (n, nrep)) for t in ext}

        def nuis(i, r, what):
            dn = dd.d_cols[i]
            if what == "l":
                return e[dn]["ml_l"][:, r] if "l" in ext else cf_pred("l", "y", sm[r], n)
            if what == "r":
                return e[dn]["ml_r"][:, r] if "r" in ext else cf_pred("r", dn, sm[r], n)
            if what == "g":
                return e[dn]["ml_g"][:, r] if "g" in ext else cf_pred("g" if noclone else "l", "g%d%d" % (r, i), sm[r], n)
            j = mk.index(what)
            return e[dn]["ml_" + what][:, r] if what in ext else cf_pred("m", dd.z_cols[j], sm[r], n)
        if score != "partialling out":
            for i in range(ntreat):
                for r in range(nrep):
                    W, V, U = ds[i] - nuis(i, r, "r"), zs[0] - nuis(i, r, "m"), y - nuis(i, r, "l")
                    h.cache[("target", "g%d%d" % (r, i))] = y - dotm(V, U) / dotm(V, W) * ds[i]
        m.fit(external_predictions=e if ext else None)
        for i, dn in enumerate(dd.d_cols):
            for r in range(nrep):
                tag = "rep%d %s" % (r, dn)
                L, R = nuis(i, r, "l"), nuis(i, r, "r")
                U, W = y - L, ds[i] - R
                if nz == 1:
                    M = nuis(i, r, "m")
                    V = zs[0] - M
                    if score == "partialling out":
                        linear(h, m, r, i, -W * V, V * U, tag)
                    elif score == "IV-type":
                        linear(h, m, r, i, -V * ds[i], V * (y - nuis(i, r, "g")), tag)
                    else:
                        linear(h, m, r, i, -V * (ds[i] + L), V * (y - nuis(i, r, "g")) - R * M, tag)
                else:
                    Vs = [zs[j] - nuis(i, r, mk[j]) for j in range(nz)]
                    X_, W_, ic = h.cache["ols"][r * ntreat + i] if ntreat == 1 else h.cache["ols"][r + nrep * i]
                    h.true(ic, tag + " projection with an intercept")
                    h.eq(X_, h.arr(np.column_stack([plain(v) for v in Vs])), tag + " projection regressors")
                    h.eq(W_, W, tag + " projection target")
                    P_ = h.reals("ols%d" % (r + nrep * i), n)
                    linear(h, m, r, i, -W * P_, P_ * U, tag)
    return f


class OLS:
    """environment stub of the least squares routine: records what is projected on what, returns arbitrary fitted values"""

    def __init__(self, *a, fit_intercept=True, **k):
        self.icpt = fit_intercept

    def fit(self, X, y, sample_weight=None):
        from symx.harness import H_
        h = H_()
        log = h.cache.setdefault("ols", [])
        self.k = len(log)
        log.append((X, y, self.icpt))
        return self

    def predict(self, X):
        from symx.harness import H_
        h = H_()
        if X is not h.cache["ols"][self.k][0]:
            h.eq(X, h.cache["ols"][self.k][0], "projection evaluated at its own regressors")
        return h.reals("ols%d" % self.k, len(X))


def ols_patch(h):
    return {"LinearRegression": lambda real: OLS}


def body_z(k=2, nrep=1, n=4, nz=1):
    """partialZ: the learner for the treatment sees covariates and instruments"""
    def f(h):
        y, d = h.reals("y", n), h.reals("d", n)
        zs = [h.reals("z%d" % i, n) for i in range(nz)]
        dd = data(y, d, z=zs)
        sm = splits(n, k, nrep)
        m = dml.DoubleMLPLIV._partialZ(dd, StubReg("r"), n_folds=k, n_rep=nrep, draw_sample_splitting=False)
        m.set_sample_splitting(sm)
        m.fit()
        h.true(all(f["ncol"] == 1 + nz for f in h.fits), "instruments are among the features")
        for r in range(nrep):
            R = cf_pred("r", "d", sm[r], n)
            linear(h, m, r, 0, -R * d, R * y, "rep%d" % r)
    return f


def body_xz(k=2, nrep=1, n=4, nz=1):
    def f(h):
        y, d = h.reals("y", n), h.reals("d", n)
        zs = [h.reals("z%d" % i, n) for i in range(nz)]
        dd = data(y, d, z=zs)
        sm = splits(n, k, nrep)
        m = dml.DoubleMLPLIV._partialXZ(dd, StubReg("l"), StubReg("m"), StubReg("r"), n_folds=k, n_rep=nrep,
                                        draw_sample_splitting=False)
        m.set_sample_splitting(sm)
        # the learner r is trained on the in-sample predictions of m on the training rows
        for r in range(nrep):
            for j, (tr, te) in enumerate(sm[r]):
                col = np.full(n, float("nan"), dtype=object if h.sym else float)
                col[tr] = plain(pred("m", "d", list(tr), list(tr)))
                h.cache[("target", "mt%d%d" % (r, j))] = col
        m.fit()
        for f in h.fits:
            h.true(f["ncol"] == (1 + nz if f["tag"] == "m" else 1), "features of " + f["tag"])
        for r in range(nrep):
            L = cf_pred("l", "y", sm[r], n)
            M = cf_pred("m", "d", sm[r], n)
            MT = np.full(n, float("nan"), dtype=object if h.sym else float)
            for j, (tr, te) in enumerate(sm[r]):
                MT[te] = plain(pred("r", "mt%d%d" % (r, j), list(tr), list(te)))
            MT = h.arr(MT)
            linear(h, m, r, 0, -(d - MT) * (M - MT), (M - MT) * (y - L), "rep%d" % r)
    return f


def scenarios(tier):
    out = []

    def add(name, b=body, **kw):
        out.append(Scenario(name, b(**kw), bounds=str(kw), patches=ols_patch if kw.get("nz", 1) > 1 else None))
    for sc in ("partialling out", "IV-type", "callable"):
        s = sc[:2]
        add(s + "-plain", score=sc)
        add(s + "-2rep-2treat", score=sc, nrep=2, ntreat=2)
        add(s + "-k3", score=sc, k=3, n=5)
    add("PO-2z", nz=2, n=4)
    add("PO-2z-2rep", nz=2, n=4, nrep=2, ext=("m_z1",))
    add("PO-ext-all", ext=("l", "m", "r"), nrep=2, ntreat=2)
    add("PO-ext-r", ext=("r",))
    add("IV-ext-g", score="IV-type", ext=("g",))
    add("IV-ext-all", score="IV-type", ext=("l", "m", "r", "g"), nrep=2)
    add("PO-2z-ext-all", nz=2, ext=("l", "m_z1", "m_z2", "r"))
    add("partialZ", b=body_z, nrep=2)
    add("partialZ-2z", b=body_z, nz=2)
    add("partialXZ", b=body_xz, nrep=2)
    add("partialXZ-2z-k3", b=body_xz, nz=2, k=3, n=5)
    if tier == "thorough":
        add("PO-n6k3", n=6, k=3, nrep=2, ntreat=2)
        add("IV-n6k3", n=6, k=3, nrep=2, score="IV-type")
        add("PO-2z-n5", nz=2, n=5)
    return out

"""partially linear regression"""
from props.common import *


def body(score="partialling out", k=2, nrep=1, ntreat=1, clf=False, n=4, noclone=True, ext=()):
    def f(h):
        y = h.reals("y", n)
        ds = [np.array(BIN[n][(i + 1) % len(BIN[n])][i:] + BIN[n][(i + 1) % len(BIN[n])][:i], float) if clf
              else h.reals("d%d" % i, n) for i in range(ntreat)]
        dd = data(y, ds)
        sm = splits(n, k, nrep)
        kw = {}
        if score == "IV-type" and noclone:
            kw["ml_g"] = StubReg("g")
        sc = score
        if score == "callable":
            kw["ml_g"] = StubReg("g")

            def sc(y, d, l_hat, m_hat, g_hat, smpls):
                return -(d - m_hat) * (d + l_hat), (d - m_hat) * (y - g_hat) - l_hat * m_hat
        m = dml.DoubleMLPLR(dd, StubReg("l"), StubClf("m") if clf else StubReg("m"), n_folds=k, n_rep=nrep, score=sc,
                            draw_sample_splitting=False, **kw)
        m.set_sample_splitting(sm)
        e = {}
        for i, dn in enumerate(dd.d_cols):
            e[dn] = {"ml_" + t: h.reals("ext_%s_%s" % (t, dn), (n, nrep), 0.125, 0.875) for t in ext}
        # pre-register the target of the learner for g
        for i, dn in enumerate(dd.d_cols):
            for r in range(nrep):
                kind = "clf" if clf else "reg"
                L = e[dn]["ml_l"][:, r] if "l" in ext else cf_pred("l", "y", sm[r], n)
                M = e[dn]["ml_m"][:, r] if "m" in ext else cf_pred("m", dn, sm[r], n, kind)
                V = ds[i] - M
                t0 = dotm(V, y - L) / dotm(V, V)
                h.cache[("target", "g%d%d" % (r, i))] = y - t0 * ds[i]
        m.fit(external_predictions=e if ext else None)
        for i, dn in enumerate(dd.d_cols):
            for r in range(nrep):
                kind = "clf" if clf else "reg"
                L = e[dn]["ml_l"][:, r] if "l" in ext else cf_pred("l", "y", sm[r], n)
                M = e[dn]["ml_m"][:, r] if "m" in ext else cf_pred("m", dn, sm[r], n, kind)
                V = ds[i] - M
                tag = "rep%d %s" % (r, dn)
                if score == "partialling out":
                    linear(h, m, r, i, -V * V, V * (y - L), tag)
                else:
                    G = e[dn]["ml_g"][:, r] if "g" in ext else cf_pred("g" if noclone else "l", "g%d%d" % (r, i), sm[r], n)
                    if score == "IV-type":
                        linear(h, m, r, i, -V * ds[i], V * (y - G), tag)
                    else:
                        linear(h, m, r, i, -V * (ds[i] + L), V * (y - G) - L * M, tag)
    return f


def scenarios(tier):
    out = []

    def add(name, **kw):
        out.append(Scenario(name, body(**kw), bounds="n=%d, folds=%d, repetitions=%d, treatments=%d" % (
            kw.get("n", 4), kw.get("k", 2), kw.get("nrep", 1), kw.get("ntreat", 1))))
    for sc in ("partialling out", "IV-type", "callable"):
        s = sc[:2]
        add(s + "-plain", score=sc)
        add(s + "-clf", score=sc, clf=True)
        add(s + "-2rep", score=sc, nrep=2)
        add(s + "-2treat", score=sc, ntreat=2)
        add(s + "-2rep-2treat-clf", score=sc, nrep=2, ntreat=2, clf=True)
        add(s + "-k3", score=sc, k=3, n=5)
    add("IV-clone", score="IV-type", noclone=False)
    add("PO-ext-lm", ext="lm", nrep=2, ntreat=2)
    add("PO-ext-l", ext="l")
    add("PO-ext-m", ext="m", clf=True)
    add("IV-ext-lmg", score="IV-type", ext="lmg", nrep=2, ntreat=2)
    add("IV-ext-lm", score="IV-type", ext="lm")
    add("IV-ext-g", score="IV-type", ext="g")
    if tier == "thorough":
        for sc in ("partialling out", "IV-type"):
            add(sc[:2] + "-n6k3", score=sc, n=6, k=3, nrep=2, ntreat=2, clf=True)
            add(sc[:2] + "-n6", score=sc, n=6, k=2)
    return out

"""average potential outcomes and causal contrasts"""
from props.c03 import norm_m, trim
from props.common import *

D12 = np.array([1, 0, 2, 1, 0, 1, 0, 2, 1, 0, 1, 0], float)


def spec(h, y, T, G1, M, W0, WB, thr, norm):
    n = len(y)
    M = norm_m(h, trim(h, M, thr), [1.0 * v for v in T], norm)
    w_ = h.arr(W0)
    wb = w_ if WB is None else h.arr(WB)
    t = np.array(T, float)
    return -w_ / mean(w_), w_ * G1 + wb * (t * (y - G1) / M)


def some(h, name, n):
    """weights: two arbitrary values, the others fixed"""
    v = [0.75 + 0.25 * ((3 * i) % 5) for i in range(n)]
    v[0], v[3] = h.real(name + "0", 0.7, 2), h.real(name + "3", 0.7, 2)
    return h.arr(v)


def mkw(h, w, n, nrep):
    if w == "fixed":
        ws = np.array([0.75 + 0.25 * ((3 * i) % 5) for i in range(n)])
        return ws, list(ws), None
    if w == "array":
        ws = some(h, "w", n)
        return ws, list(obj(ws)), None
    if w == "dictfixed":
        ws = {"weights": np.array([0.75 + 0.25 * ((3 * i) % 5) for i in range(n)]), "weights_bar": h.reals("wb", (n, nrep), 0.4, 0.6)}
        return ws, list(ws["weights"]), ws["weights_bar"]
    if w == "dict":
        ws = {"weights": some(h, "w", n), "weights_bar": h.reals("wb", (n, nrep), 0.4, 0.6)}
        return ws, list(obj(ws["weights"])), ws["weights_bar"]
    return None, [1.0] * n, None


def body(level=1.0, k=2, nrep=1, norm=False, thr=None, w=None, ext=(), rng=(0.45, 0.6), binary_y=False, order=None):
    def f(h):
        h.cache[("range", "m")] = rng
        n = 12
        d = D12 if order is None else D12[order]
        y = np.array([1, 0, 0, 1, 1, 0, 1, 1, 0, 1, 0, 0], float) if binary_y else h.reals("y", n)
        dd = data(y, d)
        T = d == level
        h.cache[("target", "T")] = np.array(T, float)
        sm = splits(n, k, nrep)
        ws, W0, WB = mkw(h, w, n, nrep)
        kw = {} if thr is None else {"trimming_threshold": thr}
        m = dml.DoubleMLAPO(dd, StubClf("g") if binary_y else StubReg("g"), StubClf("m"), treatment_level=level, n_folds=k, n_rep=nrep,
                            weights=ws, normalize_ipw=norm, draw_sample_splitting=False, **kw)
        m.set_sample_splitting(sm)
        e = {"ml_" + t: h.reals("ext_" + t, (n, nrep), *(rng if t == "m" else (-3, 3))) for t in ext}
        if thr is not None:  # only some rows have an arbitrary propensity score
            for i in range(n):
                if i not in (0, 1, 5):
                    e["ml_m"][i, :] = 0.25 if i % 4 == 2 else 0.5
        m.fit(external_predictions={"d": e} if ext else None)
        gk = "clf" if binary_y else "reg"
        for r in range(nrep):
            G1 = h.arr(e["ml_g_d_lvl1"][:, r]) if "g_d_lvl1" in ext else cf_pred("g", "y", sm[r], n, gk, sub=T)
            M = h.arr(e["ml_m"][:, r]) if "m" in ext else cf_pred("m", "T", sm[r], n, "clf")
            a, b = spec(h, y, T, G1, M, W0, WB[:, r] if WB is not None else None, 0.01 if thr is None else thr, norm)
            linear(h, m, r, 0, a, b, "rep%d" % r)
            if "g_d_lvl0" not in ext:
                h.eq(m.predictions["ml_g_d_lvl0"][:, r, 0], cf_pred("g", "y", sm[r], n, gk, sub=~T), "other-level outcome model")
    return f


def body_apos(levels=(0.0, 1.0), k=2, nrep=1, norm=False, w=None, ext=False, ref=0.0, free=None, thr=None, rng=(0.45, 0.6)):
    def f(h):
        n = 15 if len(levels) > 2 else 12
        d = D12 if n == 12 else np.array([1, 0, 2, 1, 0, 1, 0, 2, 1, 0, 1, 0, 2, 2, 2], float)
        y = h.reals("y", n)
        dd = data(y, d)
        h.cache[("range", "m")] = rng
        for lv in levels:
            h.cache[("target", "T%g" % lv)] = np.array(d == lv, float)
        sm = splits(n, k, nrep)
        ws, W0, WB = mkw(h, w, n, nrep)
        kw = {} if thr is None else {"trimming_threshold": thr}
        m = dml.DoubleMLAPOS(dd, StubReg("g"), StubClf("m"), treatment_levels=list(levels), n_folds=k, n_rep=nrep, weights=ws,
                             normalize_ipw=norm, draw_sample_splitting=False, **kw)
        m.set_sample_splitting(sm)
        e = {}
        if ext:
            e = {lv: {"ml_g0": h.reals("e0_%g" % lv, (n, nrep)), "ml_g1": h.reals("e1_%g" % lv, (n, nrep)),
                      "ml_m": h.reals("em_%g" % lv, (n, nrep), *rng)} for lv in levels}
            e = {lv: {"ml_g_d_lvl0": v["ml_g0"], "ml_g_d_lvl1": v["ml_g1"], "ml_m": v["ml_m"]} for lv, v in e.items()}
        if free is not None:  # only some rows have an arbitrary propensity score
            for lv in levels:
                e[lv]["ml_m"][free:, :] = 0.5
        m.fit(external_predictions=e or None)
        th = np.empty((len(levels), nrep), dtype=object)
        psi = {}
        for i, lv in enumerate(levels):
            T = d == lv
            for r in range(nrep):
                G1 = h.arr(e[lv]["ml_g_d_lvl1"][:, r]) if ext else cf_pred("g", "y", sm[r], n, sub=T)
                M = h.arr(e[lv]["ml_m"][:, r]) if ext else cf_pred("m", "T%g" % lv, sm[r], n, "clf")
                a, b = spec(h, y, T, G1, M, W0, WB[:, r] if WB is not None else None, 0.01 if thr is None else thr, norm)
                th[i, r] = -mean(b) / mean(a)
                psi[i, r] = h.arr(a) * th[i, r] + b
                h.eq(m.all_coef[i, r], th[i, r], "estimate of level %g rep%d" % (lv, r))
        refs = ref if isinstance(ref, list) else [ref]
        c = m.causal_contrast(ref)
        q = 0
        done = []
        for rf in refs:
            j = levels.index(rf)
            done.append(j)
            for i, lv in enumerate(levels):
                if i in done:
                    continue
                for r in range(nrep):
                    h.eq(c.all_thetas[q, r], th[i, r] - th[j, r], "contrast %g vs %g" % (lv, rf))
                    df = h.arr(psi[j, r]) - h.arr(psi[i, r])
                    h.eq(c.scaled_psi[:, q, r], df, "contrast score %g vs %g" % (lv, rf))
                    h.eq(c.all_ses[q, r] ** 2, mean(df * df) / n, "contrast variance %g vs %g" % (lv, rf))
                q += 1
        h.eq(c.n_thetas, q, "number of contrasts")
    return f


def scenarios(tier):
    out = []

    def add(name, b=body, **kw):
        out.append(Scenario(name, b(**kw), bounds="n=12..15, " + str(kw)))
    add("APO-plain")
    add("APO-level0-2rep", level=0.0, nrep=2)
    add("APO-k3", k=3)
    add("APO-norm", norm=True)
    add("APO-binary-y", binary_y=True)
    add("APO-weights", w="array")
    add("APO-weights-dict-2rep", w="dict", nrep=2)
    add("APO-ext-all-2rep", ext=("g_d_lvl0", "g_d_lvl1", "m"), nrep=2)
    add("APO-ext-g1", ext=("g_d_lvl1",))
    add("APO-ext-m", ext=("m",), norm=True)
    add("APO-trim", thr=0.3, ext=("m",), rng=(0.29, 0.6))
    add("APOS-2", body_apos)
    add("APOS-2rep", body_apos, nrep=2, ref=1.0)
    add("APOS-3", body_apos, levels=(0.0, 1.0, 2.0), ref=[0.0, 1.0])
    add("APOS-3-order-ext", body_apos, levels=(2.0, 0.0, 1.0), ref=[1.0, 2.0], ext=True, nrep=2)
    add("APOS-norm-weights", body_apos, norm=True, w="fixed", k=3, ext=True, free=3)
    add("APOS-weights-dict", body_apos, w="dictfixed", nrep=2)
    return out

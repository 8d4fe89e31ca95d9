"""interactive regression model"""
from props.common import *


def norm_m(h, m, d, on=True):
    """normalised inverse probability weights"""
    if not on:
        return h.arr(m)
    a = mean([d[i] / m[i] for i in range(len(d))])
    b = mean([(1 - d[i]) / (1 - m[i]) for i in range(len(d))])
    return h.arr([m[i] * a if d[i] == 1 else 1 - (1 - m[i]) * b for i in range(len(d))])


def trim(h, m, thr, rule="truncate"):
    if rule != "truncate" or thr is None:
        return h.arr(m)
    hi = 1 - thr
    out = []
    for v in obj(m).ravel():
        out.append(thr if bool(v < thr) else (hi if bool(v > hi) else v))
    return h.arr(out)


def same_rows(h, d, pat=None):
    return np.array(pat, float)


def body(score="ATE", k=2, nrep=1, n=4, pat=None, norm=False, thr=None, w=None, ext=(), binary_y=False, gatet=False,
         rng=(0.4, 0.6)):
    def f(h):
        for t in "m":
            h.cache[("range", t)] = rng
        d = np.array(pat if pat is not None else (BIN[n][0]), float)
        y = np.array((BIN[n][-1]), float) if binary_y else h.reals("y", n)
        if binary_y and (y == d).all():
            y = np.roll(y, 1)
        dd = data(y, d)
        sm = splits(n, k, nrep)
        ws = None
        W0, WB = [1.0] * n, None
        if w == "array" or w == "gatet":
            if w == "gatet":  # a treated and an untreated row are left out
                ws = np.array([1.0] * n)
                ws[[np.where(d == 1)[0][-1], np.where(d == 0)[0][0]]] = 0.0
            else:
                ws = h.reals("w", n, 0.25, 2)
            W0 = list(obj(ws))
        elif w == "dict":
            ws = {"weights": h.reals("w", n, 0.25, 2), "weights_bar": h.reals("wb", (n, nrep), 0.25, 2)}
            W0, WB = list(obj(ws["weights"])), ws["weights_bar"]
        kw = {}
        if thr is not None:
            kw["trimming_threshold"] = thr
        sc = score
        if score == "callable":
            def sc(y, d, g_hat0, g_hat1, m_hat, smpls):
                return -(1 + m_hat * d), g_hat1 - 2 * g_hat0 + m_hat * y
        m = dml.DoubleMLIRM(dd, StubClf("g") if binary_y else StubReg("g"), StubClf("m"), n_folds=k, n_rep=nrep, score=sc,
                            weights=ws, normalize_ipw=norm, draw_sample_splitting=False, **kw)
        m.set_sample_splitting(sm)
        e = {"ml_" + t: h.reals("ext_" + t, (n, nrep), *(rng if t == "m" else (-3, 3))) for t in ext}
        m.fit(external_predictions={"d": e} if ext else None)
        gk = "clf" if binary_y else "reg"
        for r in range(nrep):
            tag = "rep%d" % r
            G0 = h.arr(e["ml_g0"][:, r]) if "g0" in ext else cf_pred("g", "y", sm[r], n, gk, sub=d == 0)
            G1 = h.arr(e["ml_g1"][:, r]) if "g1" in ext else cf_pred("g", "y", sm[r], n, gk, sub=d == 1)
            M = h.arr(e["ml_m"][:, r]) if "m" in ext else cf_pred("m", "d", sm[r], n, "clf")
            M = trim(h, M, 0.01 if thr is None else thr)
            M = norm_m(h, M, d, norm)
            if score == "callable":
                linear(h, m, r, 0, -(1 + M * d), G1 - 2 * G0 + M * y, tag)
                continue
            if score == "ATE":
                w_ = h.arr(W0)
                wb = h.arr(WB[:, r]) if WB is not None else w_
            else:
                p = mean([W0[i] * d[i] for i in range(n)])
                w_ = h.arr([W0[i] * d[i] / p for i in range(n)])
                wb = h.arr([W0[i] * M[i] / p for i in range(n)])
            psib = w_ * (G1 - G0) + wb * (d * (y - G1) / M - (1 - d) * (y - G0) / (1 - M))
            linear(h, m, r, 0, -w_ / mean(w_), psib, tag)
    return f


def scenarios(tier):
    out = []

    def add(name, **kw):
        out.append(Scenario(name, body(**kw), bounds=str(kw)))
    for sc in ("ATE", "ATTE"):
        add(sc + "-plain", score=sc)
        add(sc + "-2rep", score=sc, nrep=2)
        add(sc + "-k3", score=sc, k=3, n=6)
        add(sc + "-norm", score=sc, norm=True)
        add(sc + "-binary-y", score=sc, binary_y=True, n=6, k=2)
        add(sc + "-weights", score=sc, w="array" if sc == "ATE" else "gatet")
        add(sc + "-ext-all", score=sc, ext=("g0", "g1", "m"), nrep=2)
        add(sc + "-ext-g0", score=sc, ext=("g0",))
        add(sc + "-ext-m-norm", score=sc, ext=("m",), norm=True)
        add(sc + "-trim", score=sc, thr=0.25, rng=(0.125, 0.5), pat=[1, 0, 0, 1])
        add(sc + "-trim-up", score=sc, thr=0.25, rng=(0.5, 0.875), norm=sc == "ATE")
        add(sc + "-trim-ext", score=sc, thr=0.25, rng=(0.125, 0.5), ext=("m",))
    add("ATE-weights-dict-2rep", w="dict", nrep=2)
    add("ATE-weights-dict-norm-ext", w="dict", norm=True, ext=("g0", "g1", "m"))
    add("callable", score="callable")
    add("callable-norm-2rep", score="callable", norm=True, nrep=2)
    if tier == "thorough":
        for sc in ("ATE", "ATTE"):
            add(sc + "-n6-k3-norm-2rep", score=sc, n=6, k=3, nrep=2, norm=True)
            add(sc + "-trim2", score=sc, thr=0.3, rng=(0.125, 0.875))
    return out

"""difference-in-differences, two periods of panel data"""
from props.c03 import trim
from props.common import *

D = {4: [1, 0, 1, 0], 5: [1, 0, 0, 1, 0], 6: [0, 1, 1, 0, 1, 0], 8: [0, 1, 1, 0, 0, 1, 0, 0]}


def phat(d, smpls):
    p = np.zeros(len(d))
    for tr, te in smpls:
        p[te] = np.mean(d[tr])
    return p


def blocks2(n, k, nrep):
    return splits(n, k, nrep, style="blocks")


def body(score="observational", k=2, nrep=1, n=4, norm=True, ext=(), thr=None, rng=(0.3, 0.6), binary_y=False):
    def f(h):
        h.cache[("range", "m")] = rng
        d = np.array(D[n], float)
        y = np.array([1, 1, 0, 0, 1, 0, 0, 1][:n], float) if binary_y else h.reals("y", n)
        dd = data(y, d)
        sm = blocks2(n, k, nrep)
        kw = {} if thr is None else {"trimming_threshold": thr}
        obs = score == "observational"
        m = dml.DoubleMLDID(dd, StubClf("g") if binary_y else StubReg("g"), StubClf("m") if obs else None, n_folds=k, n_rep=nrep,
                            score=score, in_sample_normalization=norm, draw_sample_splitting=False, **kw)
        m.set_sample_splitting(sm)
        e = {"ml_" + t: h.reals("ext_" + t, (n, nrep), *(rng if t == "m" else (-3, 3))) for t in ext}
        m.fit(external_predictions={"d": e} if ext else None)
        gk = "clf" if binary_y else "reg"

        def nu(t, r, tag, sig, kind, cond):
            return h.arr(e["ml_" + t][:, r]) if t in ext else cf_pred(tag, sig, sm[r], n, kind, sub=cond)
        for r in range(nrep):
            G0 = nu("g0", r, "g", "y", gk, d == 0)
            p = phat(d, sm[r])
            pd_ = np.mean(d)
            if obs:
                M = trim(h, nu("m", r, "m", "d", "clf", None), 0.01 if thr is None else thr)
                odds = h.arr([(1 - d[i]) * M[i] / (1 - M[i]) for i in range(n)])
                if norm:
                    a = d / pd_
                    w = a - odds / mean(odds)
                else:
                    a = d / p
                    w = h.arr([(d[i] - odds[i]) / p[i] for i in range(n)])
                b = w * (y - G0)
                a = h.arr(-a)
            else:
                G1 = nu("g1", r, "g", "y", gk, d == 1)
                a = h.arr([-1.0] * n)
                pp = np.full(n, pd_) if norm else p
                b = (d / pp - (1 - d) / (1 - pp)) * (y - G0) + (1 - d / pp) * (G1 - G0)
            linear(h, m, r, 0, a, b, "rep%d" % r)
    return f


def scenarios(tier):
    out = []

    def add(name, **kw):
        out.append(Scenario(name, body(**kw), bounds=str(kw)))
    for sc in ("observational", "experimental"):
        for norm in (True, False):
            s = sc[:3] + ("-norm" if norm else "-raw")
            add(s, score=sc, norm=norm)
            add(s + "-2rep-k3", score=sc, norm=norm, nrep=2, k=3, n=6)
            add(s + "-n5", score=sc, norm=norm, n=5)
            add(s + "-ext", score=sc, norm=norm, ext=("g0", "g1") + (("m",) if sc[0] == "o" else ()), nrep=2)
            add(s + "-ext-g0", score=sc, norm=norm, ext=("g0",))
        add(sc[:3] + "-binary-y", score=sc, binary_y=True, n=8)
    for norm in (True, False):
        add("trim-%s" % norm, thr=0.4, rng=(0.25, 0.5), norm=norm)
        add("trim-up-ext-%s" % norm, thr=0.4, rng=(0.5, 0.75), norm=norm, ext=("m",))
    if tier == "thorough":
        for sc in ("observational", "experimental"):
            for norm in (True, False):
                add(sc[:3] + "-n8-2rep-%s" % norm, score=sc, norm=norm, n=8, nrep=2)
    return out

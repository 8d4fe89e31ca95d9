"""difference-in-differences, repeated cross sections"""
from props.c03 import trim
from props.c07 import phat
from props.common import *

D = np.array([0, 0, 1, 1, 0, 0, 1, 1, 1, 0, 0, 1], float)
T = np.array([0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 0, 1], float)


def spl(n, k, nrep):
    return [[(np.array([i for i in range(n) if (i // 4 + r) % k != j]), np.array([i for i in range(n) if (i // 4 + r) % k == j]))
             for j in range(k)] for r in range(nrep)]


CELLS = ("d0_t0", "d0_t1", "d1_t0", "d1_t1")


def body(score="observational", k=2, nrep=1, n=8, norm=True, ext=(), thr=None, rng=(0.3, 0.6), binary_y=False, free=None):
    def f(h):
        h.cache[("range", "m")] = rng
        d, t = D[:n], T[:n]
        y = np.array([1, 1, 0, 0, 1, 0, 0, 1, 1, 0, 1, 0][:n], float) if binary_y else h.reals("y", n)
        dd = data(y, d, t=t)
        sm = spl(n, k, nrep)
        kw = {} if thr is None else {"trimming_threshold": thr}
        obs = score == "observational"
        m = dml.DoubleMLDIDCS(dd, StubClf("g") if binary_y else StubReg("g"), StubClf("m") if obs else None, n_folds=k, n_rep=nrep,
                              score=score, in_sample_normalization=norm, draw_sample_splitting=False, **kw)
        m.set_sample_splitting(sm)
        e = {"ml_" + q: h.reals("ext_" + q, (n, nrep), *(rng if q == "m" else (-3, 3))) for q in ext}
        if free is not None:  # only some rows have an arbitrary propensity score
            for i in range(n):
                if i not in free:
                    e["ml_m"][i, :] = 0.5
        m.fit(external_predictions={"d": e} if ext else None)
        gk = "clf" if binary_y else "reg"

        def nu(q, r, tag, sig, kind, cond):
            return h.arr(e["ml_" + q][:, r]) if q in ext else cf_pred(tag, sig, sm[r], n, kind, sub=cond)
        ind = {c: (d == int(c[1])) & (t == int(c[4])) for c in CELLS}
        for r in range(nrep):
            G = {c: nu("g_" + c, r, "g", "y", gk, ind[c]) for c in CELLS}
            p, lam = phat(d, sm[r]), phat(t, sm[r])
            one = {c: ind[c] * 1.0 for c in CELLS}
            if obs:
                M = trim(h, nu("m", r, "m", "d", "clf", None), 0.01 if thr is None else thr)
                odds = h.arr([M[i] / (1 - M[i]) for i in range(n)])
                num = {c: (one[c] if c[1] == "1" else one[c] * odds) for c in CELLS}
                den = {c: mean(num[c]) if norm else h.arr(p * (lam if c[4] == "1" else 1 - lam)) for c in CELLS}
                a = d / np.mean(d) if norm else d / p
            else:
                num = one
                den = {c: np.mean(one[c]) if norm else (p if c[1] == "1" else 1 - p) * (lam if c[4] == "1" else 1 - lam) for c in CELLS}
                a = np.ones(n)
            sg = {"d1_t1": 1, "d1_t0": -1, "d0_t1": -1, "d0_t0": 1}
            b = 0
            for c in CELLS:
                b = b + sg[c] * (a * G[c] + num[c] / den[c] * (y - G[c]))
            linear(h, m, r, 0, h.arr(-a), b, "rep%d" % r)
    return f


def scenarios(tier):
    out = []

    def add(name, **kw):
        out.append(Scenario(name, body(**kw), bounds=str(kw)))
    allg = tuple("g_" + c for c in CELLS)
    for sc in ("observational", "experimental"):
        for norm in (True, False):
            s = sc[:3] + ("-norm" if norm else "-raw")
            add(s, score=sc, norm=norm)
            add(s + "-2rep-k3", score=sc, norm=norm, nrep=2, k=3, n=12)
            add(s + "-ext", score=sc, norm=norm, ext=allg + (("m",) if sc[0] == "o" else ()), nrep=2)
            add(s + "-ext-some", score=sc, norm=norm, ext=("g_d0_t1", "g_d1_t0"))
        add(sc[:3] + "-binary-y", score=sc, binary_y=True)
    for norm in (True, False):
        add("trim-%s" % norm, thr=0.4, rng=(0.25, 0.6), norm=norm, ext=("m",), free=(0, 2, 4))
    return out

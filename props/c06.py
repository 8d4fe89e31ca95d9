"""sample selection models"""
from props.c03 import trim
from props.common import *

D = np.array([0, 0, 1, 1] * 4, float)
S_ = np.array([0, 1, 0, 1] * 4, float)


def blk(n, k, r=0):
    return [[(np.array([i for i in range(n) if (i // 4 + rr) % k != j]), np.array([i for i in range(n) if (i // 4 + rr) % k == j]))
             for j in range(k)] for rr in range(r)]


def score(h, y, d, s, PI, M, G0, G1, norm):
    n = len(y)
    t, c = (d == 1) * 1.0, (d == 0) * 1.0
    wt = wc = 1
    if norm:
        wt = ssum(t) / ssum([t[i] * s[i] / (PI[i] * M[i]) for i in range(n)])
        wc = ssum(c) / ssum([c[i] * s[i] / (PI[i] * (1 - M[i])) for i in range(n)])
    return (h.arr([wt * (t[i] * s[i] * (y[i] - G1[i]) / (M[i] * PI[i])) + G1[i]
                   - wc * (c[i] * s[i] * (y[i] - G0[i]) / ((1 - M[i]) * PI[i])) - G0[i] for i in range(n)]))


def body(k=2, nrep=1, n=8, norm=False, thr=None, rng=(0.3, 0.7), binary_y=False, strange=False):
    def f(h):
        h.cache[("range", "m")] = rng
        d, s = D[:n], S_[:n]
        y = np.array([1, 0, 0, 1, 0, 1, 1, 0] * 2, float)[:n] if binary_y else h.reals("y", n)
        dd = data(y, d, s=s)
        sm = blk(n, k, nrep)
        kw = {} if thr is None else {"trimming_threshold": thr}
        m = dml.DoubleMLSSM(dd, StubClf("g") if binary_y else StubReg("g"), StubClf("pi"), StubClf("m"), n_folds=k, n_rep=nrep,
                            normalize_ipw=norm, draw_sample_splitting=False, **kw)
        m.set_sample_splitting(sm)
        m.fit()
        h.true(all(f["ncol"] == (2 if f["tag"] == "pi" else 1) for f in h.fits), "the selection model also sees the treatment")
        gk = "clf" if binary_y else "reg"
        for r in range(nrep):
            PI, M = cf_pred("pi", "s", sm[r], n, "clf"), cf_pred("m", "d", sm[r], n, "clf")
            M = trim(h, M, 0.01 if thr is None else thr)
            G0 = cf_pred("g", "y", sm[r], n, gk, sub=(d == 0) & (s == 1))
            G1 = cf_pred("g", "y", sm[r], n, gk, sub=(d == 1) & (s == 1))
            linear(h, m, r, 0, h.arr([-1.0] * n), score(h, y, d, s, PI, M, G0, G1, norm), "rep%d" % r)
    return f


def body_ni(k=2, nrep=1, norm=False, thr=None, rng=(0.3, 0.7)):
    def f(h):
        h.cache[("range", "m")] = rng
        n = 16 if k == 2 else 24
        d, s = np.tile(D[:4], n // 4), np.tile(S_[:4], n // 4)
        y, z = h.reals("y", n), h.reals("z", n)
        dd = data(y, d, z=z, s=s)
        per = n // k
        sm = [[(np.array([i for i in range(n) if (i + 4 * rr) % n // per != j]), np.array([i for i in range(n) if (i + 4 * rr) % n // per == j]))
               for j in range(k)] for rr in range(nrep)]
        kw = {} if thr is None else {"trimming_threshold": thr}
        m = dml.DoubleMLSSM(dd, StubReg("g"), StubClf("pi"), StubClf("m"), n_folds=k, n_rep=nrep, score="nonignorable",
                            normalize_ipw=norm, draw_sample_splitting=False, **kw)
        m.set_sample_splitting(sm)
        m.fit()
        q = {t: [f for f in h.fits if f["tag"] == t] for t in ("pi", "m", "g")}
        h.true(len(q["pi"]) == len(q["m"]) == k * nrep and len(q["g"]) == 2 * k * nrep, "one nested fit per fold")
        for r in range(nrep):
            v = {t: np.full(n, np.nan, dtype=object if h.sym else float) for t in ("pi", "m", "g0", "g1")}
            for j, (tr, te) in enumerate(sm[r]):
                def of(t, par=None):  # the fits whose rows lie in this training fold, with the same complement
                    return [f for f in q[t] if set(f["rows"]) <= set(map(int, tr))]
                fp = [f for f in of("pi") if f is q["pi"][r * k + j]]
                P1 = fp[0]["rows"] if fp else ()
                h.true(len(P1) > 0, "selection model fitted on the training fold")
                P2 = tuple(sorted(set(map(int, tr)) - set(P1)))
                h.true(0 < len(P2) and abs(len(P1) - len(P2)) <= 1, "training fold split in two halves")
                fm = q["m"][r * k + j]
                h.true(tuple(sorted(fm["rows"])) == P2, "propensity fitted on the other half")
                h.true(q["pi"][r * k + j]["ncol"] == 3 and fm["ncol"] == 2, "features of selection and propensity model")
                # the propensity and outcome models see the estimated selection probability
                for f_ in [fm] + q["g"][2 * (r * k + j):2 * (r * k + j) + 2]:
                    h.eq(f_["X"][:, -1], pred("pi", "s", P1, list(f_["rows"]), "clf"), "selection probability as a feature")
                te_ = [int(i) for i in te]
                v["pi"][te] = plain(pred("pi", "s", P1, te_, "clf"))
                v["m"][te] = plain(pred("m", "d", P2, te_, "clf"))
                for lv in (0, 1):
                    rows = [i for i in P2 if d[i] == lv and s[i] == 1]
                    v["g%d" % lv][te] = plain(pred("g", "y", rows, te_))
            v = {t: h.arr(x) for t, x in v.items()}
            M = trim(h, v["m"], 0.01 if thr is None else thr)
            linear(h, m, r, 0, h.arr([-1.0] * n), score(h, y, d, s, v["pi"], M, v["g0"], v["g1"], norm), "rep%d" % r)
    return f


def scenarios(tier):
    out = []

    def add(name, b=body, **kw):
        out.append(Scenario(name, b(**kw), bounds=str(kw)))
    add("mar-plain")
    add("mar-2rep", nrep=2)
    add("mar-k3", k=3, n=12)
    add("mar-norm", norm=True)
    add("mar-norm-2rep-n16", norm=True, nrep=2, n=16)
    add("mar-binary-y", binary_y=True)
    add("mar-trim", thr=0.25, rng=(0.24, 0.5), n=8)
    add("nonignorable", b=body_ni)
    add("nonignorable-2rep-norm", b=body_ni, nrep=2, norm=True)
    add("nonignorable-k3", b=body_ni, k=3)
    return out

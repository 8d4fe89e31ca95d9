"""potential quantiles, local quantiles, conditional value at risk and quantile treatment effects"""
from props.c03 import norm_m, trim
from props.common import *
from props.models import num

EPS = 2.0 ** -20


class Res:
    def __init__(self, x):
        self.x = self.root = x
        self.success = self.converged = True
        self.flag, self.fun = "converged", 0.0


def solvers(h):
    """stand-ins for the numerical solvers, by what they promise: the root search returns a point of its bracket at which
    the sign of the function it was given changes; the minimiser returns some point (scripted) and is watched"""
    def root(real):
        def root_scalar(f, *a, bracket=None, **k):
            lo, hi = bracket
            if "roots" in h.cache:  # any value between two neighbouring outcomes
                i = h.cache["nroot"] = h.cache.get("nroot", 0) + 1
                return Res(h.real("root%d" % i, *h.cache["roots"][i % len(h.cache["roots"])]))
            s = bool(f(lo) > 0)
            if not s and bool(f(lo) >= 0):
                return Res(lo)
            for c in [q for q in sorted(set(map(float, h.cache["jumps"]))) if lo < q <= hi]:
                if bool(f(c) > 0) != s:
                    return Res(c)
            return Res(hi)
        return root_scalar

    def mini(real):
        def minimize_scalar(f, *a, **k):
            i = len(h.cache.setdefault("objectives", []))
            h.cache["objectives"].append([f(t) for t in h.cache["probes"]])
            return Res(h.cache["minima"](i))
        return minimize_scalar
    return {"root_scalar": root, "minimize_scalar": mini}


class Kde:
    """a kernel estimator of the user: remembers what it is asked for"""

    def __init__(self):
        self.log = []

    def __call__(self, u, weights):
        self.log.append((obj(u).copy(), obj(weights).copy()))
        return self.value(u, weights)

    @staticmethod
    def value(u, w):
        u, w = obj(u).ravel(), obj(w).ravel()
        return sum(b * (2.0 - a / 8) for a, b in zip(u, w)) / len(w)


Y = {"a": [0.5, -1.25, 2.0, 1.0, -0.25, 3.5, 0.75, -2.0, 1.5, 2.75, -0.75, 0.125],
     "b": [-3.0, 2.25, 0.0, -1.5, 4.0, 1.75, -0.5, 3.25, 0.375, -2.5, 2.625, -1.0]}
D12 = np.array([1, 0, 1, 0, 1, 0, 1, 0, 0, 1, 1, 0], float)
Z12 = np.array([1, 1, 0, 0, 0, 1, 1, 0, 1, 0, 1, 0], float)


def column(h, nm, n, nrep, lo, hi, free, seed):
    v = num(seed, (n, nrep), lo, hi).astype(object)
    for i in free:
        for r in range(nrep):
            v[i, r] = h.real("%s[%d,%d]" % (nm, i, r), lo, hi)
    a = np.empty((n, nrep), dtype=object)
    a[:] = v
    return h.arr(a)


def estimated(h, m, r, score, kde, u, w, q, label):
    """the reported value is where the mean score changes its sign, and the reported score and derivative belong to it"""
    th = m.all_coef[0, r]
    lo, hi = mean(score(th - EPS)), mean(score(th + EPS))
    if bool(lo <= 0):
        h.le(-1e-9, hi, label + "the mean score changes sign at the estimate")
    else:
        h.le(hi, 1e-9, label + "the mean score changes sign at the estimate")
    h.eq(m.psi[:, r, 0], score(th), label + "score at the estimate")
    h.eq(m.psi_deriv[:, r, 0], h.arr([Kde.value(u, w)] * len(obj(w))), label + "density estimate as derivative")


def pq(treat, q=0.5, norm=True, thr=None, ycol="a", free=(0, 1, 4), nrep=1, rng=(0.3, 0.7), models=False):
    def f(h):
        y, d, n = np.array(Y[ycol]), D12, 12
        h.cache["jumps"] = y
        k = Kde()
        kw = {} if thr is None else {"trimming_threshold": thr}
        m = dml.DoubleMLPQ(data(y, d), StubClf("g"), StubClf("m"), treatment=treat, quantile=q, n_folds=2, n_rep=nrep, kde=k, normalize_ipw=norm,
                           draw_sample_splitting=False, **kw)
        m.set_sample_splitting(splits(n, 2, nrep))
        G, M = column(h, "G", n, nrep, 0.1, 0.9, free, 3), column(h, "M", n, nrep, *rng, free, 5)
        m.fit(external_predictions={"d": {"ml_g": G, "ml_m": M}}, store_models=models)
        h.true(not h.fits, "nothing is fitted")
        ind = (d == treat) * 1.0
        for r in range(nrep):
            w = norm_m(h, trim(h, M[:, r], 0.01 if thr is None else thr), d, norm)
            w = w if treat == 1 else 1 - w
            g = h.arr(G[:, r])
            estimated(h, m, r, lambda t: ind * ((y <= t) * 1.0 - g) / w + g - q, k, y - m.all_coef[0, r], ind / w, q, "rep%d " % r)
    return f


LP = ("ml_m_z", "ml_m_d_z0", "ml_m_d_z1", "ml_g_du_z0", "ml_g_du_z1")


def lpq_spec(treat, y, d, z, mz, d0, d1, g0, g1, q):
    comp = mean(d1 - d0 + z / mz * (d - d1) - (1 - z) / (1 - mz) * (d - d0))
    sg, ind = 2 * treat - 1, (d == treat) * 1.0
    w = sg * (z / mz - (1 - z) / (1 - mz)) * ind / comp

    def score(t):
        u = ind * ((y <= t) * 1.0)
        return sg * (g1 - g0 + z / mz * (u - g1) - (1 - z) / (1 - mz) * (u - g0)) / comp - q
    return score, w


def lpq(treat, q=0.5, norm=True, thr=None, ycol="a", free=(3,), rng=(0.3, 0.7), models=False):
    def f(h):
        y, d, z, n = np.array(Y[ycol]), (Z12 + np.array([0, 0, 0, 0, 1, -1, 0, 0, 0, 0, 0, 0])), Z12, 12
        h.cache["jumps"] = y
        k = Kde()
        kw = {} if thr is None else {"trimming_threshold": thr}
        m = dml.DoubleMLLPQ(data(y, d, z=z), StubClf("g"), StubClf("m"), treatment=treat, quantile=q, n_folds=2, kde=k, normalize_ipw=norm,
                            draw_sample_splitting=False, **kw)
        m.set_sample_splitting(splits(n, 2, 1))
        P = {nm: column(h, nm, n, 1, *b, free, 3 + i) for i, (nm, b) in enumerate(zip(LP, (rng, (0.1, 0.3), (0.7, 0.9), (0.2, 0.4), (0.4, 0.6))))}
        m.fit(external_predictions={"d": P}, store_models=models)
        h.true(not h.fits, "nothing is fitted")
        c = {nm: h.arr(P[nm][:, 0]) for nm in LP}
        mz = norm_m(h, trim(h, c["ml_m_z"], 0.01 if thr is None else thr), z, norm)
        score, w = lpq_spec(treat, y, d, z, mz, c["ml_m_d_z0"], c["ml_m_d_z1"], c["ml_g_du_z0"], c["ml_g_du_z1"], q)
        estimated(h, m, 0, score, k, y - m.all_coef[0, 0], w, q, "")
    return f


def partial(h):
    y, z, n = np.array(Y["a"]), Z12, 12
    m = dml.DoubleMLLPQ(data(y, D12, z=z), StubClf("g"), StubClf("m"), n_folds=2, draw_sample_splitting=False)
    m.set_sample_splitting(splits(n, 2, 1))
    j = h.choose(30, "which") + 1
    h.raises(lambda: m.fit(external_predictions={"d": {nm: np.full((n, 1), 0.5) for i, nm in enumerate(LP) if j >> i & 1}}), ValueError,
             "a proper part of the five predictions is refused")
    h.observe("x", h.real("x"))


# ---- estimated nuisance parts -----------------------------------------------------------------------------------------
def sample(n, with_z=False):
    """n rows in which every pattern of treatment (and instrument) is frequent enough for the nested splits"""
    d = np.array([(i // 2 + i // 8) % 2 for i in range(n)], float)
    z = np.array([1 - d[i] if i % 3 == 1 else d[i] for i in range(n)], float)
    y = np.array([((i * 11 + 3) % 32) / 4.0 - 4 for i in range(n)]) + np.arange(n) / 128.0
    return (y, d, z) if with_z else (y, d)


def folds(n, k, nrep, key):
    """every fold holds the same share of every pattern"""
    out = []
    for r in range(nrep):
        cnt, f = {}, []
        for i in range(n):
            c = cnt.get(key[i], r)
            f.append(c % k)
            cnt[key[i]] = c + 1
        out.append([(np.array([i for i in range(n) if f[i] != j]), np.array([i for i in range(n) if f[i] == j])) for j in range(k)])
    return out


def within(h, lo, hi, k):
    """scripted minima: any value between two neighbouring outcomes"""
    h.cache["minima"] = lambda i: h.real("ipw%d" % i, lo[i % k], hi[i % k])


GAPS = ((-0.40, -0.30), (0.90, 0.95), (-1.30, -1.26))


def gaps(y, q, k, dy):
    v = sorted(set(y))
    lo, hi = [], []
    for j in range(k):
        c = int(len(v) * q) + 2 * j - 2
        lo.append(v[c] + (v[c + 1] - v[c]) / 4)
        hi.append(v[c] + 3 * (v[c + 1] - v[c]) / 4)
    return lo, hi


def nested(h, fits, train, k, label):
    """the preliminary fits of one fold: k training sets over a half A of the training rows; A and the prediction of every row"""
    A = sorted(set(i for f in fits for i in f["rows"]))
    h.true(len(fits) == k and set(A) < set(train), label + "preliminary fits use a part of the training rows")
    out = {}
    for i in A:
        own = [f for f in fits if i not in f["rows"]]
        h.true(len(own) == 1, label + "every preliminary prediction comes from the one fit that left the row out")
        if len(own) == 1:
            out[i] = own[0]
    return A, out


def quant(kind, treat, q=0.5, norm=True, k=2, nrep=1, n=16, ext=(), models=False):
    """DoubleMLPQ and DoubleMLCVAR with estimated nuisance parts"""
    def f(h):
        y, d = sample(n)
        h.cache["jumps"], h.cache["probes"] = y, [-3.3, 0.11, 2.2]
        h.cache["free_rows"] = (1, 6) if nrep == 1 else (6,)
        h.cache[("range", "m")] = (0.3, 0.7)
        lo, hi = gaps(y, q, k, 0)
        within(h, lo, hi, k)
        sm = folds(n, k, nrep, d)
        kd = Kde()
        kw = dict(treatment=treat, quantile=q, n_folds=k, n_rep=nrep, normalize_ipw=norm, draw_sample_splitting=False)
        if kind == "PQ":
            m = dml.DoubleMLPQ(data(y, d), StubClf("g"), StubClf("m"), kde=kd, **kw)
        else:
            m = dml.DoubleMLCVAR(data(y, d), StubReg("g"), StubClf("m"), **kw)
        m.set_sample_splitting(sm)
        E = {}
        if "m" in ext:
            E["ml_m"] = column(h, "M", n, nrep, 0.3, 0.7, (1, 6), 5)
        if "g" in ext:
            E["ml_g"] = column(h, "G", n, nrep, 0.1, 0.9, (1, 6), 3)
        m.fit(external_predictions={"d": E} if E else None, store_models=models)
        ind = (d == treat) * 1.0
        gf, mf = [t for t in h.fits if t["tag"] == "g"], [t for t in h.fits if t["tag"] == "m"]
        h.true(len(gf) == (0 if "g" in ext else nrep * k) and len(mf) == (0 if "m" in ext else nrep * k * (k + 1)), "number of fits")
        if len(mf) != (0 if "m" in ext else nrep * k * (k + 1)):
            return
        for r in range(nrep):
            pqs = []
            for j, (tr, te) in enumerate(sm[r]):
                label = "rep%d fold%d " % (r, j)
                c = r * k + j
                ipw = h.cache["minima"](c)
                pqs.append(ipw)
                A = None
                if "g" not in ext:
                    B = set(gf[c]["rows"])
                    h.true(B <= set(int(i) for i in tr) and all(d[i] == treat for i in B) and len(B) > 0, label + "outcome part: treated training rows")
                    if kind == "PQ":
                        h.eq(gf[c]["y"], h.arr([float(y[i] <= (lo[j] + hi[j]) / 2) for i in gf[c]["rows"]]), label + "outcome part: indicator target")
                    else:
                        h.eq(gf[c]["y"], h.arr([maxi(ipw, (y[i] - q * ipw) / (1 - q)) for i in gf[c]["rows"]]), label + "outcome part: tail target")
                if "m" not in ext:
                    fl = mf[c * (k + 1):(c + 1) * (k + 1)]
                    whole = [t for t in fl if set(t["rows"]) == set(int(i) for i in tr)]
                    h.true(len(whole) == 1, label + "one propensity fit on the whole training fold")
                    if len(whole) != 1:
                        return
                    A, own = nested(h, [t for t in fl if t is not whole[0]], [int(i) for i in tr], k, label)
                    h.true(len(A) == len(tr) // 2, label + "half of the training fold")
                    if "g" not in ext:
                        h.true(not B & set(A), label + "outcome part is fitted on rows the threshold did not use")
                        h.true(B | set(A) == set(A) | {int(i) for i in tr if d[i] == treat}, label + "outcome part uses all remaining treated rows")
                    M0 = {i: plain(pred("m", "d", own[i]["rows"], [i], "clf"))[0] for i in A if i in own}
                elif "g" not in ext:
                    A = sorted({int(i) for i in tr if d[i] == treat} - B)  # only the treated rows of A are known, so compare by their sum
                    M0 = None
                if A is not None and M0 is not None and len(M0) == len(A):
                    mm = norm_m(h, h.arr([M0[i] for i in A]), d[A], norm)
                    mm = mm if treat == 1 else 1 - mm
                    for t, v in zip(h.cache["probes"], h.cache["objectives"][c]):
                        s = mean(ind[A] / mm * ((y[A] <= t) * 1.0)) - q
                        h.eq(v * v, s * s, label + "objective of the preliminary estimate")
                elif A is not None and not norm:
                    na = len(tr) // 2
                    for t, v in zip(h.cache["probes"], h.cache["objectives"][c]):
                        mm = h.arr([E["ml_m"][i, r] if treat == 1 else 1 - E["ml_m"][i, r] for i in A])
                        s = ssum(1.0 / mm * ((y[A] <= t) * 1.0)) / na - q
                        h.eq(v * v, s * s, label + "objective of the preliminary estimate from supplied scores")
            M = h.arr(E["ml_m"][:, r]) if "m" in ext else cf_pred("m", "d", sm[r], n, "clf")
            h.eq(m.predictions["ml_m"][:, r, 0], M, "rep%d propensity predictions" % r)
            G = h.arr(m.predictions["ml_g"][:, r, 0])
            if "g" not in ext:
                for j, (tr, te) in enumerate(sm[r]):
                    c = r * k + j
                    h.eq(G[te], pred("g", gf[c]["sig"], gf[c]["rows"], [int(i) for i in te], "clf" if kind == "PQ" else "reg"), "rep%d fold%d outcome predictions" % (r, j))
            w = norm_m(h, M, d, norm)
            w = w if treat == 1 else 1 - w
            if kind == "PQ":
                estimated(h, m, r, lambda t: ind * ((y <= t) * 1.0 - G) / w + G - q, kd, y - m.all_coef[0, r], ind / w, q, "rep%d " % r)
            else:
                P = mean(h.arr(pqs))
                tgt = h.arr([maxi(P, (v - q * P) / (1 - q)) for v in y])
                linear(h, m, r, 0, h.arr([-1.0] * n), ind * (tgt - G) / w + G, "rep%d" % r)
            if models:
                for nm, fl in (("ml_g", gf), ("ml_m", [t for t in mf if len(t["rows"]) == len(sm[0][0][0])])):
                    if nm in E:
                        h.true(m.models[nm]["d"][r] is None, "no model for supplied predictions")
                    else:
                        h.true([o.fit_ for o in m.models[nm]["d"][r]] == fl[r * k:(r + 1) * k] if False else len(m.models[nm]["d"][r]) == k, "one model per fold")
    return f


def maxi(a, b):
    return a if bool(a >= b) else b


def lfit(treat, q=0.5, norm=True, k=2, n=48, free=(9,), halves=False):
    """DoubleMLLPQ with estimated nuisance parts"""
    def f(h):
        y, d, z = sample(n, True)
        h.cache["jumps"], h.cache["probes"] = y, [-3.3, 0.11, 2.2]
        h.cache["free_rows"] = free
        if halves:  # all other propensities one half: sums and reciprocals without rounding
            h.cache[("const", "m")] = 0.5
        lo, hi = gaps(y, q, k, 0)
        within(h, lo, hi, k)
        sm = folds(n, k, 1, list(zip(d, z)))
        kd = Kde()
        m = dml.DoubleMLLPQ(data(y, d, z=z), StubClf("g"), StubClf("m"), treatment=treat, quantile=q, n_folds=k, kde=kd, normalize_ipw=norm,
                            draw_sample_splitting=False)
        m.set_sample_splitting(sm)
        h.cache[("range", "m")] = (0.4, 0.6)
        m.fit()
        P = {nm: h.arr(m.predictions[nm][:, 0, 0]) for nm in LP}
        h.eq(P["ml_m_z"], cf_pred("m", "z", sm[0], n, "clf"), "instrument propensity")
        h.eq(P["ml_m_d_z0"], cf_pred("m", "d", sm[0], n, "clf", sub=(z == 0)), "treatment propensity without the instrument")
        h.eq(P["ml_m_d_z1"], cf_pred("m", "d", sm[0], n, "clf", sub=(z == 1)), "treatment propensity with the instrument")
        gf = [t for t in h.fits if t["tag"] == "g"]
        mf = [t for t in h.fits if t["tag"] == "m"]
        h.true(len(gf) == 2 * k and len(mf) == k * (k + 5), "number of fits")
        for j, (tr, te) in enumerate(sm[0]):
            T = set(map(int, tr))
            for zz in (0, 1):
                own = [t for t in gf if set(t["rows"]) <= T and all(z[i] == zz for i in t["rows"])]
                h.true(len(own) == 1, "fold%d outcome part given z=%d: one fit inside the training fold" % (j, zz))
                if len(own) != 1:
                    continue
                h.eq(own[0]["y"], h.arr([float(d[i] == treat and y[i] <= (lo[j] + hi[j]) / 2) for i in own[0]["rows"]]), "fold%d z=%d indicator target" % (j, zz))
                h.eq(P["ml_g_du_z%d" % zz][te], pred("g", own[0]["sig"], own[0]["rows"], [int(i) for i in te], "clf"), "fold%d z=%d outcome predictions" % (j, zz))
            fl = [t for t in mf if set(t["rows"]) <= T]
            half = set(i for t in gf if set(t["rows"]) <= T for i in t["rows"])
            A = sorted(T - half)
            h.true(len(A) == len(T) // 2, "fold%d the outcome parts use the other half" % j)
            pre = [t for t in fl if set(t["rows"]) < set(A)]
            h.true(len(pre) == k + 2 and not any(set(t["rows"]) & half and len(t["rows"]) < len(T) / 2 - 1 for t in fl), "fold%d preliminary fits stay in their half" % j)
            zf = [t for t in pre if len({z[i] for i in t["rows"]}) == 2]
            df = {zz: [t for t in pre if {z[i] for i in t["rows"]} == {zz}] for zz in (0.0, 1.0)}
            h.true(len(zf) == k and all(len(v) == 1 for v in df.values()), "fold%d preliminary propensities" % j)
            if len(zf) != k or not all(len(v) == 1 for v in df.values()):
                continue
            mz = h.arr([plain(pred("m", "z", [t for t in zf if i not in t["rows"]][0]["rows"], [i], "clf"))[0] for i in A])
            mz = norm_m(h, mz, z[A], norm)
            d0, d1 = (pred("m", "d", df[zz][0]["rows"], A, "clf") for zz in (0.0, 1.0))
            h.true(all(set(df[zz][0]["rows"]) == {i for i in A if z[i] == zz} for zz in (0.0, 1.0)), "fold%d preliminary treatment propensities: all rows of the half" % j)
            for t, v in zip(h.cache["probes"], h.cache["objectives"][j]):
                comp = mean(d1 - d0 + z[A] / mz * (d[A] - d1) - (1 - z[A]) / (1 - mz) * (d[A] - d0))
                s = mean((2 * treat - 1) * (z[A] / mz - (1 - z[A]) / (1 - mz)) / comp * ((d[A] == treat) * (y[A] <= t) * 1.0)) - q
                h.eq(v * v, s * s, "fold%d objective of the preliminary estimate" % j)
        mz = norm_m(h, P["ml_m_z"], z, norm)
        score, w = lpq_spec(treat, y, d, z, mz, P["ml_m_d_z0"], P["ml_m_d_z1"], P["ml_g_du_z0"], P["ml_g_du_z1"], q)
        estimated(h, m, 0, score, kd, y - m.all_coef[0, 0], w, q, "")
    return f


def qte(score, quants=(0.25, 0.5), nrep=1, k=2, n=16, then=None):
    """effects are the difference of the two potential parameters, computed from the same splits"""
    def f(h):
        if score == "LPQ":
            y, d, z = sample(48, True)
            N = 48
        else:
            y, d = sample(n)
            z, N = None, n
        h.cache["jumps"], h.cache["probes"] = y, []
        h.cache["free_rows"] = ()
        h.cache[("range", "m")] = (0.4, 0.6)
        lo, hi = gaps(y, 0.4, k, 0)
        h.cache["minima"] = lambda i: (lo[i % k] + hi[i % k]) / 2
        h.cache["roots"] = list(zip(*gaps(y, 0.6, 3, 0)))
        sm = folds(N, k, nrep, list(zip(d, z)) if z is not None else d)
        kd = Kde()
        m = dml.DoubleMLQTE(data(y, d, z=z), StubReg("g") if score == "CVaR" else StubClf("g"), StubClf("m"), quantiles=list(quants), score=score,
                            n_folds=k, n_rep=nrep, kde=kd, draw_sample_splitting=False)
        m.set_sample_splitting(sm)
        if then is not None:
            return then(h, m)
        m.fit()
        cls = {"PQ": dml.DoubleMLPQ, "LPQ": dml.DoubleMLLPQ, "CVaR": dml.DoubleMLCVAR}[score]
        calls = len(h.cache["objectives"]) // 2
        minima = h.cache["minima"]
        for i, q in enumerate(quants):
            pair = []
            for tr, lst in ((0, m.modellist_0), (1, m.modellist_1)):
                o = lst[i]
                h.true(type(o) is cls and o.treatment == tr and o.quantile == q, "model of treatment %d at %g" % (tr, q))
                for r in range(nrep):
                    h.true(all((np.sort(a[0]) == np.sort(b[0])).all() and (np.sort(a[1]) == np.sort(b[1])).all() for a, b in zip(o.smpls[r], sm[r])), "same splits")
                pair.append(o)
            for r in range(nrep):
                h.eq(m.all_coef[i, r], pair[1].all_coef[0, r] - pair[0].all_coef[0, r], "effect %g, repetition %d" % (q, r))
                s1, s0 = (h.arr(o.psi[:, r, 0]) / mean(o.psi_deriv[:, r, 0]) for o in (pair[1], pair[0]))
                h.eq(m.framework.scaled_psi[:, i, r], s1 - s0, "score of effect %g, repetition %d" % (q, r))
                se = m.all_se[i, r]
                h.eq(se * se, mean((s1 - s0) * (s1 - s0)) / N, "squared error of effect %g, repetition %d" % (q, r))
                h.le(0.0, se, "error is not negative")
    return f


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, bounds=str(kw), patches=solvers, **kw))
    for t in (0, 1):
        add("pq-%d" % t, pq(t))
        add("pq-%d-raw" % t, pq(t, 0.5, norm=False, ycol="b"))
        add("pq-%d-trim" % t, pq(t, 0.75, thr=0.4, free=(2, 3)))
        add("lpq-%d" % t, lpq(t))
        add("lpq-%d-raw" % t, lpq(t, 0.5, norm=False, free=(0, 3)))
        add("lpq-%d-trim" % t, lpq(t, 0.625, thr=0.4, free=(2,)))
        add("pq-fit-%d" % t, quant("PQ", t))
        add("cvar-%d" % t, quant("CVaR", t))
        add("cvar-%d-q75-raw" % t, quant("CVaR", t, 0.75, norm=False, k=3, n=36))
        add("pq-fit-%d-raw-2rep" % t, quant("PQ", t, 0.375, norm=False, nrep=2))
        add("lpq-fit-%d" % t, lfit(t))
        add("pq-fit-ext-m-%d" % t, quant("PQ", t, norm=False, ext=("m",), models=True))
    add("pq-fit-ext-g", quant("PQ", 1, ext=("g",), models=True))
    add("pq-2rep", pq(1, nrep=2, free=(0, 1), models=True))
    add("lpq-models", lpq(1, norm=False, free=(0,), models=True))
    add("lpq-partial", partial)
    add("lpq-fit-raw", lfit(1, 0.375, norm=False))
    add("lpq-fit-half-0", lfit(0, 0.5, norm=False, halves=True, free=(1,)))
    add("lpq-fit-half-1", lfit(1, 0.625, norm=False, halves=True, free=(1,)))
    for s in ("PQ", "CVaR", "LPQ"):
        add("qte-%s" % s, qte(s))
    add("qte-PQ-2rep", qte("PQ", nrep=2, quants=(0.5,)))
    return out

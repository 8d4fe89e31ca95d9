"""the sensitivity elements: residual variance of the outcome, second moment of the Riesz representer, and their scores"""
from props.c03 import norm_m, trim
from props.models import *


def propensity(h, n, nrep, lo=0.42, hi=0.58, rows=(0, 1)):
    M = num(2, (n, nrep), 0.45, 0.55)
    M = M.astype(object)
    for r in range(nrep):
        for i in rows:
            M[i, r] = h.real("m%d_%d" % (i, r), lo, hi)
    return h.arr(M)


def elements(h, m, s2, n2, rr, r, i, tag):
    """s2, n2: arrays of the score elements whose means are the elements; rr the representer (None: not looked at)"""
    e = m.sensitivity_elements
    h.eq(e["sigma2"][0, r, i], mean(s2), tag + " residual variance")
    h.eq(e["psi_sigma2"][:, r, i], s2 - mean(s2), tag + " score of the residual variance")
    if rr is not None:
        h.eq(e["riesz_rep"][:, r, i], rr, tag + " representer")
    if n2 is not None:
        h.eq(e["nu2"][0, r, i], mean(n2), tag + " second moment of the representer")
        h.eq(e["psi_nu2"][:, r, i], n2 - mean(n2), tag + " score of the second moment")
    f = m.framework.sensitivity_elements
    h.eq(f["sigma2"][0, i, r], e["sigma2"][0, r, i], tag + " handed to the framework: residual variance")
    h.eq(f["nu2"][0, i, r], e["nu2"][0, r, i], tag + " handed to the framework: second moment")


def plr(score, nrep=1, nt=1, n=4):
    def f(h):
        y = h.reals("y", n)
        ds = [num(3 + 4 * i, n, -1.0, 2.0) for i in range(nt)]
        if nt == 1:
            ds = [h.reals("d", n)]
        dd = data(y, ds)
        kw = {}
        if score == "IV-type":
            kw = dict(score=score, ml_g=StubReg("g"))
        m = dml.DoubleMLPLR(dd, StubReg("l"), StubReg("m"), n_folds=2, n_rep=nrep, draw_sample_splitting=False, **kw)
        m.set_sample_splitting(splits(n, 2, nrep))
        e = {}
        for j, c in enumerate(dd.d_cols):
            e[c] = {"ml_l": h.reals("l" + c, (n, nrep)), "ml_m": num(9 + j, (n, nrep), -1, 1.5)}
            if score == "IV-type":
                e[c]["ml_g"] = h.reals("g" + c, (n, nrep))
        m.fit(external_predictions=e)
        for i, c in enumerate(dd.d_cols):
            for r in range(nrep):
                V = ds[i] - h.arr(e[c]["ml_m"][:, r])
                th = m.all_coef[i, r]
                U = y - e[c]["ml_g"][:, r] - th * ds[i] if score == "IV-type" else y - e[c]["ml_l"][:, r] - th * V
                nu2 = 1 / mean(V * V)
                tag = "%s rep%d" % (c, r)
                elements(h, m, U * U, None, V * nu2, r, i, tag)
                h.eq(m.sensitivity_elements["nu2"][0, r, i], nu2, tag + " second moment of the representer")
                h.eq(m.sensitivity_elements["psi_nu2"][:, r, i], nu2 - V * V * nu2 * nu2, tag + " score of the second moment")
    return f


BINW = [1.0, 0.0, 1.0, 1.0, 1.0, 0.0, 1.0, 1.0]
W_ = [0.5, 1.0, 1.5, 1.0, 0.75, 1.25, 1.0, 2.0, 0.5, 1.0, 1.5, 1.0]


def irm(score="ATE", nrep=1, norm=False, w=None, thr=None, n=8, apo=False):
    def f(h):
        d = D8[:n]
        y = h.reals("y", n)
        dd = data(y, d)
        W = BINW if score == "ATTE" else W_
        ws = {None: None, "array": np.array(W[:n]), "dict": {"weights": np.array(W[:n]), "weights_bar": num(4, (n, nrep), 0.5, 1.5)}}[w]
        kw = dict(n_folds=2, n_rep=nrep, weights=ws, normalize_ipw=norm, draw_sample_splitting=False)
        if thr is not None:
            kw["trimming_threshold"] = thr
        G0, G1 = h.reals("g0", (n, nrep)), h.reals("g1", (n, nrep))
        M = propensity(h, n, nrep, *((0.3, 0.6) if thr else (0.42, 0.58)))
        if apo:
            m = dml.DoubleMLAPO(dd, StubReg("g"), StubClf("m"), treatment_level=1, **kw)
            e = {"ml_g_d_lvl0": G0, "ml_g_d_lvl1": G1, "ml_m": M}
        else:
            m = dml.DoubleMLIRM(dd, StubReg("g"), StubClf("m"), score=score, **kw)
            e = {"ml_g0": G0, "ml_g1": G1, "ml_m": M}
        m.set_sample_splitting(splits(n, 2, nrep))
        m.fit(external_predictions={"d": e})
        for r in range(nrep):
            P_ = norm_m(h, trim(h, M[:, r], thr), d, norm)
            wt = np.array(W[:n]) if w else np.ones(n)
            wb = ws["weights_bar"][:, r] if w == "dict" else wt
            if score == "ATTE":
                p = float(np.mean(wt * d))
                wt, wb = wt * d / p, P_ * wt / p
            R = y - d * G1[:, r] - (1 - d) * G0[:, r]
            if apo:
                ma, rr = wt * wb / P_, wb * d / P_
            else:
                ma, rr = wt * wb * (1 / P_ + 1 / (1 - P_)), wb * (d / P_ - (1 - d) / (1 - P_))
            elements(h, m, R * R, 2 * ma - rr * rr, rr, r, 0, "rep%d" % r)
    return f


def did(score="observational", isn=True, nrep=1, n=8):
    def f(h):
        d = D8[:n]
        y = h.reals("y", n)
        m = dml.DoubleMLDID(data(y, d), StubReg("g"), StubClf("m"), score=score, in_sample_normalization=isn, n_folds=2, n_rep=nrep,
                            draw_sample_splitting=False)
        m.set_sample_splitting(splits(n, 2, nrep))
        G0, G1 = h.reals("g0", (n, nrep)), h.reals("g1", (n, nrep))
        e = {"ml_g0": G0, "ml_g1": G1}
        M = propensity(h, n, nrep, rows=(0, 1) if nrep == 1 else (0,))
        if score == "observational":
            e["ml_m"] = M
        m.fit(external_predictions={"d": e})
        p = float(np.mean(d))
        for r in range(nrep):
            R = y - d * G1[:, r] - (1 - d) * G0[:, r]
            P_ = h.arr(M[:, r])
            if score == "experimental":
                ma, rr = np.full(n, 1 / p + 1 / (1 - p)), d / p - (1 - d) / (1 - p)
            else:
                o = P_ / (1 - P_)
                den = mean((1 - d) * o) if isn else p
                ma = d / p * (1 / p + o / den)
                rr = d / p - (1 - d) * o / den
            elements(h, m, R * R, 2 * ma - rr * rr, rr, r, 0, "rep%d" % r)
    return f


def didcs(score="observational", isn=True, nrep=1, n=8):
    def f(h):
        d, t = D8[:n], T8[:n]
        y = h.reals("y", n)
        m = dml.DoubleMLDIDCS(data(y, d, t=t), StubReg("g"), StubClf("m"), score=score, in_sample_normalization=isn, n_folds=2, n_rep=nrep,
                              draw_sample_splitting=False)
        m.set_sample_splitting(splits(n, 2, nrep))
        e = {"ml_g_d%d_t%d" % (a, b): h.reals("g%d%d" % (a, b), (n, nrep)) for a in (0, 1) for b in (0, 1)}
        M = propensity(h, n, nrep, rows=(0, 1) if nrep == 1 else (0,))
        if score == "observational":
            e["ml_m"] = M
        m.fit(external_predictions={"d": e})
        p, lam = float(np.mean(d)), float(np.mean(t))
        I = {(a, b): (d == a) * (t == b) * 1.0 for a in (0, 1) for b in (0, 1)}
        for r in range(nrep):
            R = y - ssum([I[a, b] * e["ml_g_d%d_t%d" % (a, b)][:, r] for a in (0, 1) for b in (0, 1)])
            P_ = h.arr(M[:, r])
            q = {(a, b): ((p if a else 1 - p) * (lam if b else 1 - lam)) if not isn else float(np.mean(I[a, b])) for a in (0, 1) for b in (0, 1)}
            if score == "experimental":
                ma = np.full(n, sum(1 / v for v in q.values()))
                rr = I[1, 1] / q[1, 1] - I[1, 0] / q[1, 0] - I[0, 1] / q[0, 1] + I[0, 0] / q[0, 0]
            else:
                o = P_ / (1 - P_)
                c1 = mean(I[0, 1] * o) if isn else p * lam
                c0 = mean(I[0, 0] * o) if isn else p * (1 - lam)
                ma = d / p * (1 / q[1, 1] + 1 / q[1, 0] + o / c1 + o / c0)
                rr = I[1, 1] / q[1, 1] - I[1, 0] / q[1, 0] - I[0, 1] * o / c1 + I[0, 0] * o / c0
            elements(h, m, R * R, 2 * ma - rr * rr, rr, r, 0, "rep%d" % r)
    return f


def fallback(name, nrep=1):
    """when the estimated second moment is not positive it is replaced by the mean squared representer, with a centred score"""
    def f(h):
        n = 10
        d = D8[:n]
        y = h.reals("y", n)
        dd = data(y, d)
        M = num(2, (n, nrep), 0.45, 0.55)
        M[1, 0], M[2, 0] = 0.0625, 0.0625
        G0, G1 = num(5, (n, nrep), -1, 1), num(7, (n, nrep), -1, 1)
        kw = dict(n_folds=2, n_rep=nrep, draw_sample_splitting=False)
        if name == "APO":
            m = dml.DoubleMLAPO(dd, StubReg("g"), StubClf("m"), treatment_level=1, **kw)
            e = {"ml_g_d_lvl0": G0, "ml_g_d_lvl1": G1, "ml_m": M}
        else:
            m = dml.DoubleMLIRM(dd, StubReg("g"), StubClf("m"), **kw)
            e = {"ml_g0": G0, "ml_g1": G1, "ml_m": M}
        m.set_sample_splitting(splits(n, 2, nrep))
        m.fit(external_predictions={"d": e})
        for r in range(nrep):
            R = y - d * G1[:, r] - (1 - d) * G0[:, r]
            rr = d / M[:, r] - (0 if name == "APO" else (1 - d) / (1 - M[:, r]))
            elements(h, m, R * R, rr * rr, rr, r, 0, "rep%d" % r)
    return f


def contrast(nrep=1, ref=0, levels=(0, 1, 2), n=15, refs=None):
    """contrast of two levels: averaged residual variance, summed second moments"""
    def f(h):
        d = np.array([1, 0, 2, 1, 0, 1, 0, 2, 1, 0, 2, 2, 1, 0, 2], float)[:n]
        y = h.arr([float(v) for v in num(3, n, -1, 2)])
        y[0], y[2] = h.real("y0"), h.real("y2")
        m = dml.DoubleMLAPOS(data(y, d), StubReg("g"), StubClf("m"), treatment_levels=[float(v) for v in levels], n_folds=2, n_rep=nrep,
                             draw_sample_splitting=False)
        m.set_sample_splitting(splits(n, 2, nrep))
        e = {}
        for k, l in enumerate(levels):
            M = num(2 + k, (n, nrep), 0.4, 0.55)
            e[float(l)] = {"ml_g_d_lvl0": num(5 + k, (n, nrep), -1, 1), "ml_g_d_lvl1": num(8 + k, (n, nrep), -1, 1), "ml_m": M}
        m.fit(external_predictions=e)
        rs = [ref] if refs is None else refs
        c = m.causal_contrast([float(v) for v in rs] if refs is not None else float(ref))
        s = c.sensitivity_elements
        pairs, done = [], set()
        for b in rs:
            done.add(b)
            pairs += [(a, b) for a in levels if a not in done]
        h.true(c.n_thetas == len(pairs), "number of contrasts")
        h.true(list(c.treatment_names) == ["%s vs %s" % (float(a), float(b)) for a, b in pairs], "names of the contrasts")

        def el(l, r):
            q = e[float(l)]
            t = 1.0 * (d == l)
            R = y - t * q["ml_g_d_lvl1"][:, r] - (1 - t) * q["ml_g_d_lvl0"][:, r]
            R = R * R
            v = 2 / q["ml_m"][:, r] - t / q["ml_m"][:, r] ** 2
            return mean(R), R - mean(R), mean(v), v - mean(v)
        for j, (a, b) in enumerate(pairs):
            for r in range(nrep):
                A, B = el(a, r), el(b, r)
                s2, n2 = (A[0] + B[0]) / 2, A[2] + B[2]
                tag = "%s vs %s rep%d" % (a, b, r)
                h.eq(s["sigma2"][0, j, r], s2, tag + " residual variance")
                h.eq(s["nu2"][0, j, r], n2, tag + " second moment")
                mb = s["max_bias"][0, j, r]
                h.le(0.0, mb, tag + " sign")
                h.eq(mb * mb, s2 * n2, tag + " squared bias bound")
                h.eq(2 * mb * s["psi_max_bias"][:, j, r], s2 * (A[3] + B[3]) + n2 * (A[1] + B[1]) / 2, tag + " score of the bias bound")
                h.eq(c.all_thetas[j, r], m.all_coef[levels.index(a), r] - m.all_coef[levels.index(b), r], tag + " estimate")
    return f


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, bounds=str(kw)))
    for sc in ("partialling out", "IV-type"):
        add("PLR-" + sc[:2], plr(sc))
        add("PLR-2rep-2treat-" + sc[:2], plr(sc, 2, 2))
    for sc in ("ATE", "ATTE"):
        add(sc, irm(sc))
        add(sc + "-2rep", irm(sc, 2))
        add(sc + "-norm", irm(sc, norm=True))
        add(sc + "-trim", irm(sc, thr=0.4))
    add("ATE-weights", irm(w="array"))
    add("ATE-weights-bar", irm(w="dict", nrep=2))
    add("ATE-weights-norm", irm(w="array", norm=True))
    add("ATTE-weights", irm("ATTE", w="array"))
    add("APO", irm(apo=True, n=10, nrep=2))
    add("APO-norm", irm(apo=True, n=10, norm=True))
    add("APO-weights", irm(apo=True, n=10, w="array"))
    add("APO-weights-bar", irm(apo=True, n=10, w="dict", nrep=2))
    for sc in ("observational", "experimental"):
        for isn in (True, False):
            add("DID-%s-%s" % (sc[:3], isn), did(sc, isn))
            add("DID-2rep-%s-%s" % (sc[:3], isn), did(sc, isn, 2))
            add("DIDCS-%s-%s" % (sc[:3], isn), didcs(sc, isn))
            add("DIDCS-2rep-%s-%s" % (sc[:3], isn), didcs(sc, isn, 2))
    add("fallback-IRM", fallback("IRM"))
    add("fallback-IRM-2rep", fallback("IRM", 2))
    add("fallback-APO", fallback("APO"))
    add("contrast", contrast())
    add("contrast-2rep", contrast(2, 1))
    add("contrast-2refs", contrast(1, refs=[2, 0]))
    return out

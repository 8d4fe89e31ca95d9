"""interactive IV regression model"""
from props.c03 import norm_m, trim
from props.common import *

Z = {4: [1, 0, 0, 1], 5: [0, 1, 1, 0, 1], 6: [0, 1, 1, 0, 0, 1], 8: [0, 1, 1, 0, 0, 1, 1, 0]}
D = {4: [1, 0, 1, 0], 5: [1, 1, 0, 0, 1], 6: [0, 1, 0, 0, 1, 1], 8: [0, 1, 0, 1, 0, 1, 1, 0]}


def body(k=2, nrep=1, n=4, sub=None, norm=False, ext=(), thr=None, rng=(0.4, 0.6), callable_=False, binary_y=False, known=False):
    def f(h):
        h.cache[("range", "m")] = rng
        z, d = np.array(Z[n], float), np.array(D[n], float)
        y = np.array([1, 1, 0, 0, 1, 0, 0, 1][:n], float) if binary_y else h.reals("y", n)
        dd = data(y, d, z=z)
        sm = splits(n, k, nrep)
        kw = {} if thr is None else {"trimming_threshold": thr}
        if sub is not None:
            kw["subgroups"] = {"always_takers": sub[0], "never_takers": sub[1]}
        if callable_:
            def sc(y, z, d, g_hat0, g_hat1, m_hat, r_hat0, r_hat1, smpls):
                return -(1 + r_hat1 - 2 * r_hat0 + m_hat * z), g_hat1 * m_hat - 3 * g_hat0 + y * d
            kw["score"] = sc
        m = dml.DoubleMLIIVM(dd, StubClf("g") if binary_y else StubReg("g"), StubClf("m"), StubClf("r"), n_folds=k, n_rep=nrep,
                             normalize_ipw=norm, draw_sample_splitting=False, **kw)
        m.set_sample_splitting(sm)
        e = {"ml_" + t: h.reals("ext_" + t, (n, nrep), *(rng if t == "m" else ((0.1, 0.9) if t[0] == "r" else (-3, 3)))) for t in ext}
        m.fit(external_predictions={"d": e} if ext else None)
        gk = "clf" if binary_y else "reg"

        def nu(t, r, tag, sig, kind, cond):
            return h.arr(e["ml_" + t][:, r]) if t in ext else cf_pred(tag, sig, sm[r], n, kind, sub=cond)
        for r in range(nrep):
            G0, G1 = nu("g0", r, "g", "y", gk, z == 0), nu("g1", r, "g", "y", gk, z == 1)
            M = trim(h, nu("m", r, "m", "z", "clf", None), 0.01 if thr is None else thr)
            s = sub or (True, True)
            R0 = nu("r0", r, "r", "d", "clf", z == 0) if s[0] else h.arr([0.0] * n)
            R1 = nu("r1", r, "r", "d", "clf", z == 1) if s[1] else h.arr([1.0] * n)

            def score(M):
                if callable_:
                    return -(1 + R1 - 2 * R0 + M * z), G1 * M - 3 * G0 + y * d
                b = G1 - G0 + z * (y - G1) / M - (1 - z) * (y - G0) / (1 - M)
                a = -(R1 - R0 + z * (d - R1) / M - (1 - z) * (d - R0) / (1 - M))
                return a, b
            A, B = score(norm_m(h, M, z, norm))
            if known:
                h.eq(m.psi_elements["psi_b"][:, r, 0], B, "normalised by the instrument: psi_b")
                continue
            if not norm:
                linear(h, m, r, 0, A, B, "rep%d" % r)
                continue
            # known deviation: the weights are normalised with the treatment in place of the instrument
            A2, B2 = score(norm_m(h, M, d, norm))
            h.either(m.psi_elements["psi_b"][:, r, 0], [B, B2], "rep%d psi_b" % r)
            h.either(m.psi_elements["psi_a"][:, r, 0], [A, A2], "rep%d psi_a" % r)
            pa, pb = m.psi_elements["psi_a"][:, r, 0], m.psi_elements["psi_b"][:, r, 0]
            h.eq(m.all_coef[0, r], -mean(pb) / mean(pa), "rep%d estimate" % r)
    return f


def scenarios(tier):
    out = []

    def add(name, known=None, **kw):
        out.append(Scenario(name, body(known=known is not None, **kw), bounds=str(kw), known=known))
    add("plain")
    add("2rep", nrep=2)
    add("k3", k=3, n=8)
    add("no-always-takers", sub=(False, True), nrep=2)
    add("no-never-takers", sub=(True, False))
    add("full-compliance", sub=(False, False))
    add("binary-y", binary_y=True, n=8)
    add("ext-all-2rep", ext=("g0", "g1", "m", "r0", "r1"), nrep=2)
    add("ext-g0-r1", ext=("g0", "r1"))
    add("ext-g1-r0", ext=("g1", "r0"))
    add("ext-m", ext=("m",))
    add("ext-r-no-always", ext=("r0", "r1"), sub=(False, True))
    add("trim", thr=0.25, rng=(0.125, 0.5))
    add("trim-ext-up", thr=0.25, rng=(0.5, 0.875), ext=("m",))
    add("callable-2rep", callable_=True, nrep=2)
    add("norm", norm=True)
    add("norm-callable", norm=True, callable_=True)
    add("norm-by-instrument", norm=True, known="iivm-normalize-ipw")
    if tier == "thorough":
        add("n8-k2-2rep", n=8, nrep=2)
        add("trim-wide", thr=0.3, rng=(0.125, 0.875))
    return out

"""i.i.d. standard errors and the normalised scores handed to inference"""
from props.models import *


def check(h, m, n, nt, nrep):
    for i in range(nt):
        for r in range(nrep):
            tag = "treat%d rep%d" % (i, r)
            psi, J = m.psi[:, r, i], mean(m.psi_deriv[:, r, i])
            h.eq(mean(psi), 0.0, tag + " empirical moment at the estimate")
            se = m.all_se[i, r]
            h.le(0.0, se, tag + " standard error sign")
            h.eq(se * se, mean(psi * psi) / (n * J * J), tag + " squared standard error")
            f = m.framework
            h.eq(f.all_ses[i, r], se, tag + " framework standard error")
            h.eq(f.all_thetas[i, r], m.all_coef[i, r], tag + " framework estimate")
            h.eq(f.scaled_psi[:, i, r] * J, psi, tag + " normalised score")
            h.eq(f.all_t_stats[i, r] * se, m.all_coef[i, r], tag + " t statistic")
            h.eq(m.all_t_stat[i, r] if hasattr(m, "all_t_stat") else f.all_t_stats[i, r], f.all_t_stats[i, r], tag + " t")
        h.eq(f.var_scaling_factors[i], n, "number of observations")
        h.eq(m.coef[i], f.thetas[i], "coef")
        h.eq(m.se[i], f.ses[i], "se")
        h.eq(m.t_stat[i] * m.se[i], m.coef[i], "aggregate t statistic")
    h.true(f.treatment_names == m._dml_data.d_cols, "names")


def body(name, nrep=1, nt=1, k=2, symd=False, n=8):
    def f(h):
        kw = {}
        if symd:
            kw = dict(n=n, dval=[h.reals("d%d" % i, n) for i in range(nt)])
        m, e, dd = build(h, name, nrep=nrep, k=k, ntreat=nt, **kw)
        m.fit(external_predictions=e)
        check(h, m, dd.n_obs, nt, nrep)
    return f


def fitted(h, n=4, k=2):
    """nothing supplied from outside: every nuisance prediction symbolic"""
    y, d = h.reals("y", n), h.reals("d", n)
    m = dml.DoubleMLPLR(data(y, d), StubReg("l"), StubReg("m"), n_folds=k, draw_sample_splitting=False)
    m.set_sample_splitting(splits(n, k))
    m.fit()
    psi = m.psi[:, 0, 0]
    J = mean(m.psi_deriv[:, 0, 0])
    h.eq(mean(m.psi_elements["psi_a"][:, 0, 0]), J, "derivative of the linear score")
    h.eq(m.all_se[0, 0] * m.all_se[0, 0], mean(psi * psi) / (n * J * J), "squared standard error")
    h.eq(m.framework.scaled_psi[:, 0, 0] * J, psi, "normalised score")


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, bounds=str(kw)))
    for nm in NAMES:
        add(nm, body(nm))
        add(nm + "-2rep", body(nm, nrep=2))
    for nm in ("PLR", "PLR-IV", "PLIV"):
        add(nm + "-2treat", body(nm, nt=2))
        add(nm + "-2treat-2rep", body(nm, nt=2, nrep=2))
        add(nm + "-k4", body(nm, k=4))
    add("PLR-sym-d", body("PLR", symd=True, n=4))
    add("PLR-fitted", fitted)
    if tier == "thorough":
        for nm in NAMES:
            add(nm + "-3rep-k4", body(nm, nrep=3, k=4 if nm[:3] == "PLR" else 2))
    return out

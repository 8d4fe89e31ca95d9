"""confidence intervals, t statistics and p-values"""
from props.fw import *


def ppf(h, q):
    from scipy.stats import norm
    return float(norm.ppf(q))


LEVELS = (0.95, 0.9, 0.5, 0.999)


def check(h, df, T, s, crit, level, names, tag):
    nt, nrep = obj(T).shape
    h.true(list(df.columns) == ["{:.1f} %".format(100 * (1 - level) / 2), "{:.1f} %".format(100 * (1 + level) / 2)],
           tag + " column names")
    h.true(list(df.index) == list(names), tag + " row names")
    for i in range(nt):
        h.eq(df.iloc[i, 0], median([T[i, r] - s[i, r] * crit[r] for r in range(nrep)]), tag + " lower bound")
        h.eq(df.iloc[i, 1], median([T[i, r] + s[i, r] * crit[r] for r in range(nrep)]), tag + " upper bound")
        h.le(df.iloc[i, 0], df.iloc[i, 1], tag + " ordered")


def fw(nt, nrep, level, names=False):
    def f(h):
        d = raw(h, nt=nt, nrep=nrep, n=2, psi=False, free=nrep > 2)
        if names:
            d["treatment_names"] = ["a", "b"][:nt]
        o = DoubleMLFramework(copyd(d))
        df = o.confint(level=level) if level != 0.95 else o.confint()
        c = ppf(h, 1 - (1 - level) / 2)
        check(h, df, d["all_thetas"], d["all_ses"], [c] * nrep, level, d.get("treatment_names", range(nt)), "level %s" % level)
        for i in range(nt):
            h.eq(o.t_stats[i] * o.ses[i], o.thetas[i], "t statistic")
            for r in range(nrep):
                h.eq(o.all_t_stats[i, r] * o.all_ses[i, r], o.all_thetas[i, r], "t statistic of a repetition")
    return f


def mdl(name, level, nt=1, nrep=1):
    def f(h):
        m, e, dd = build(h, name, nrep=nrep, ntreat=nt)
        m.fit(external_predictions=e)
        check(h, m.confint(level=level), m.all_coef, m.all_se, [ppf(h, 1 - (1 - level) / 2)] * nrep, level, dd.d_cols, name)
        for i in range(nt):
            h.eq(m.t_stat[i] * m.se[i], m.coef[i], "t statistic of the model")
            h.eq(m.pval[i], two(h, m.t_stat[i]), "p-value of the model")
    return f


def pv(nt, nrep):
    """two-sided normal p-values, median over repetitions"""
    def f(h):
        d = raw(h, nt=nt, nrep=nrep, n=2, psi=False, free=nrep > 2, ses=None if nrep > 2 else (0.25, 2))
        o = DoubleMLFramework(copyd(d))
        P_ = [[two(h, d["all_thetas"][i, r] / d["all_ses"][i, r]) for r in range(nrep)] for i in range(nt)]
        for i in range(nt):
            for r in range(nrep):
                h.eq(o.all_pvals[i, r], P_[i][r], "p-value of a repetition")
                if nrep > 2:
                    continue
                h.le(0.0, o.all_pvals[i, r], "p-value >= 0")
                h.le(o.all_pvals[i, r], 1.0, "p-value <= 1")
            h.eq(o.pvals[i], median(P_[i]), "aggregate p-value")
    return f


def two(h, t):
    if isinstance(t, S.SymReal):
        return 2 * (1 - S.Phi(abs(t)))
    from scipy.stats import norm
    return 2 * (1 - norm.cdf(abs(float(t))))


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, bounds=str(kw)))
    for lv in LEVELS:
        add("framework-1rep-%s" % lv, fw(2, 1, lv))
        add("framework-2rep-%s" % lv, fw(2, 2, lv))
        add("framework-3rep-%s" % lv, fw(1, 3, lv))
    add("framework-names", fw(2, 2, 0.9, names=True))
    for nm in NAMES:
        add(nm, mdl(nm, 0.95))
        add(nm + "-2rep", mdl(nm, 0.8, nrep=2))
    add("PLR-2treat", mdl("PLR", 0.9, nt=2, nrep=2))
    add("pvals-1rep", pv(2, 1))
    add("pvals-2rep", pv(2, 2))
    add("pvals-3rep", pv(1, 3))
    return out

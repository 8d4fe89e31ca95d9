"""models of several levels or quantiles agree with the single models they consist of"""
import copy

from props.c04 import mkw
from props.c20 import IDLE
from props.c32 import Go, drawn, mark
from props.c36 import cp, fsnap
from props.c36 import same as alike
from props.draws import drawing
from props.fw import *

KEYS = ("ml_g_d_lvl0", "ml_g_d_lvl1", "ml_m")
DRAW = lambda kind, k, ix: (ix[0] * 3 + ix[1] + k) % 4 - 1.5 + (ix[1] % 3) * 0.25


def pair(h, lv, nrep=1, n=15, k=2, w=None, norm=False, thr=None, ext=KEYS, some=None, free=2, cl=False):
    """the model of several levels and the models of the single levels, on the same data, splits and options"""
    d = (np.array([1, 0, 2, 1, 0, 1, 0, 2, 1, 0, 1, 0, 2, 2, 2]) if n == 15 else np.array([1, 0, 1, 1, 0, 1, 0, 0, 1, 0, 1, 0])).astype(float)
    y = num(11, n, -1, 2).astype(object)
    y[[0, 4][:free]] = [h.real("y%d" % i, -1, 2) for i in range(min(free, 2))]
    dd = lambda: data(h.arr(list(y)), d, x=num(4, n, -1, 1))
    h.cache["free_rows"] = ()
    ws, _, _ = mkw(h, w, n, nrep)
    kw = dict(n_folds=k, n_rep=nrep, weights=ws, normalize_ipw=norm, draw_sample_splitting=False)
    if thr is not None:
        kw["trimming_threshold"] = thr
    m = dml.DoubleMLAPOS(dd(), StubReg("g"), StubClf("m"), treatment_levels=list(lv), **kw)
    ones = [dml.DoubleMLAPO(dd(), StubReg("g"), StubClf("m"), treatment_level=l, **kw) for l in lv]
    sm = splits(n, k, nrep, "blocks")
    for o in [m] + ones:
        o.set_sample_splitting(sm)
    given = lv if some is None else some
    e = {l: {key: num(int(3 * l) + q, (n, nrep), -1, 1.5) if key != "ml_m" else num(int(l), (n, nrep), 0.3, 0.7) for q, key in enumerate(KEYS) if key in ext} for l in given}
    dn = m._dml_data.d_cols[0]

    def fit():
        m.fit(external_predictions=e or None)
        for l, o in zip(lv, ones):
            o.fit(external_predictions={dn: e[l]} if l in e else None)
    return m, ones, fit


def levels(lv, **kw):
    """estimates, errors, scores, statistics"""
    def f(h):
        m, ones, fit = pair(h, lv, **kw)
        fit()
        nrep = m.n_rep
        h.true(list(m.treatment_levels) == list(lv) and m.n_treatment_levels == len(lv), "levels")
        h.true(obj(m.all_coef).shape == (len(lv), nrep) and obj(m.coef).shape == (len(lv),), "shapes")
        for i, o in enumerate(ones):
            t = " of level %g" % lv[i]
            for key in ("coef", "se"):
                h.eq(getattr(m, key)[i], getattr(o, key)[0], key + t)
            for key in ("all_coef", "all_se"):
                h.eq(getattr(m, key)[i], getattr(o, key)[0], key + t)
            h.eq(m.t_stat[i] * m.se[i], m.coef[i], "t statistic" + t)
            h.eq(m.t_stat[i], o.t_stat[0], "t statistic" + t)
            h.eq(m.pval[i], o.framework.pvals[0], "p-value" + t)
            h.eq(m.framework.scaled_psi[:, i], o.framework.scaled_psi[:, 0], "score" + t)
            h.eq(m.framework.var_scaling_factors[i], o.framework.var_scaling_factors[0], "scaling" + t)
            h.true(m.modellist[i].treatment_level == lv[i], "model" + t)
            for key in ("sigma2", "nu2", "max_bias", "psi_max_bias"):
                h.eq(m.sensitivity_elements[key][:, i], o.framework.sensitivity_elements[key][:, 0], key + t)
            for level in (0.95, 0.5):
                h.eq(m.confint(level=level).iloc[i].values, o.confint(level=level).iloc[0].values, "%g interval%s" % (level, t))
            h.true(list(m.confint().index) == list(lv), "interval labels")
    return f


def queries(lv, nrep=1, **kw):
    """bootstrap, sensitivity analysis, benchmark, plot"""
    def f(h):
        m, ones, fit = pair(h, lv, nrep=nrep, **kw)
        V = ValueError
        h.true(m.coef is None and m.all_coef is None and m.se is None and m.all_se is None and m.framework is None, "nothing before the fit")
        h.true(m.boot_t_stat is None and m.sensitivity_params is None and m.sensitivity_elements is None, "nothing before the fit")
        for q in (m.confint, m.bootstrap, m.sensitivity_analysis, m.sensitivity_plot, lambda: m.sensitivity_summary, lambda: m.causal_contrast(lv[0])):
            h.raises(q, V, "before the fit")
        h.true(len(m.summary) == 0, "empty summary before the fit")
        fit()
        f0 = fsnap(m.framework)
        h.raises(lambda: m.confint(joint=True), V, "joint intervals before the bootstrap")
        for meth in ("normal", "wild", "Bayes"):
            with drawing(h, fixed=DRAW):
                h.true(m.bootstrap(method=meth, n_rep_boot=3) is m, "the model itself")
            h.true(m.boot_method == meth and m.n_rep_boot == 3, "stored settings")
            bt = obj(m.boot_t_stat)
            h.true(bt.shape == (3, len(lv), nrep), "shape of the bootstrap")
            for i, o in enumerate(ones):
                with drawing(h, fixed=DRAW):
                    o.bootstrap(method=meth, n_rep_boot=3)
                h.eq(bt[:, i], obj(o.boot_t_stat)[:, 0], "%s bootstrap of level %g" % (meth, lv[i]))
        fr = concat([o.framework for o in ones])
        with drawing(h, fixed=DRAW):
            fr.bootstrap(method="Bayes", n_rep_boot=3)
        if nrep == 1:
            j = m.confint(joint=True, level=0.8)
            h.true(list(j.index) == list(lv), "labels of the joint intervals")
            h.eq(j.values, fr.confint(joint=True, level=0.8).values, "joint intervals")
        a = dict(cf_y=0.25, cf_d=0.125, rho=-0.5, level=0.75)
        null = np.array([-9.0, 9.0, -9.0][:len(lv)])
        h.true(m.sensitivity_analysis(null_hypothesis=null, **a) is m, "the model itself")
        for i, o in enumerate(ones):
            o.sensitivity_analysis(null_hypothesis=float(null[i]), **a)
            p, q, t = m.sensitivity_params, o.sensitivity_params, " of level %g" % lv[i]
            for s in ("lower", "upper"):
                for key in ("theta", "se", "ci"):
                    h.eq(p[key][s][i], q[key][s][0], "%s %s%s" % (s, key, t))
            if not h.sym:  # found by numeric search
                for key in ("rv", "rva"):
                    h.true(abs(float(p[key][i]) - float(q[key][0])) < 1e-3, key + t)
            h.eq(p["input"]["null_hypothesis"][i], null[i], "null hypothesis" + t)
        h.true("Sensitivity" in m.sensitivity_summary, "summary of the analysis")
        alike(h, fsnap(m.framework), f0, "afterwards:")
    return f


def plot(lv, idx, value):
    def f(h):
        m, ones, fit = pair(h, lv, free=1)
        fit()
        o = ones[idx]
        a = dict(cf_y=0.25, cf_d=0.125, rho=-0.5, level=0.75)
        B = {"cf_y": [0.125], "cf_d": [0.5], "name": ["first"]}
        null = h.real("null", -4, 4)
        m.sensitivity_analysis(**a)
        o.sensitivity_analysis(**a)
        for kw in (dict(value="theta", rho=0.5, level=0.9, include_scenario=True, benchmarks=B, fill=True), dict(value="ci", rho=1.0, level=0.6, include_scenario=False, benchmarks=None, fill=False)):
            if kw["value"] != value:
                continue
            kw.update(grid_bounds=(0.3, 0.6), grid_size=10, null_hypothesis=null)
            x, y = (q.sensitivity_plot(idx_treatment=k, **copy.deepcopy(kw)) for q, k in ((m, idx), (o, 0)))
            c, b = drawn(x, "Contour"), drawn(y, "Contour")
            h.true(c is not None and b is not None, "contour")
            for key in ("x", "y"):
                h.eq(np.asarray(getattr(c, key), float), np.asarray(getattr(b, key), float), key)
            cz, bz = (np.array(plain(obj(t.z)), dtype=object) for t in (c, b))
            for j, i in ((0, 0), (0, 9), (9, 0), (2, 7), (7, 2), (9, 9)):
                h.eq(cz[j, i], bz[j, i], "value at [%d, %d]" % (j, i))
            h.true(sorted(str(t.name) for t in x.data) == sorted(str(t.name) for t in y.data), "same marks")
            h.true(getattr(c.contours, "coloring", None) == getattr(b.contours, "coloring", None) if hasattr(c, "contours") else True, "same style")
    return f


def contrast(lv, refs, nrep=1, **kw):
    """average causal contrasts: differences of the models; confounding measured by both models"""
    def f(h):
        m, ones, fit = pair(h, lv, nrep=nrep, **kw)
        fit()
        c = m.causal_contrast(refs)
        done, names, q = [], [], 0
        for rf in refs if isinstance(refs, (list, tuple)) else [refs]:
            j = list(lv).index(rf)
            done.append(j)
            for i, l in enumerate(lv):
                if i in done:
                    continue
                t = " of %g vs %g" % (l, rf)
                names.append("%s vs %s" % (l, rf))
                h.eq(c.all_thetas[q], obj(ones[i].all_coef)[0] - obj(ones[j].all_coef)[0], "estimates" + t)
                df = obj(ones[i].framework.scaled_psi)[:, 0] - obj(ones[j].framework.scaled_psi)[:, 0]
                h.eq(c.scaled_psi[:, q], df, "score" + t)
                n = df.shape[0]
                for r in range(nrep):
                    p = h.arr(list(df[:, r]))
                    h.eq(c.all_ses[q, r] ** 2, mean(p * p) / n, "variance" + t)
                    A, B = (o.sensitivity_elements for o in (ones[i], ones[j]))
                    s2 = (A["sigma2"][0, r, 0] + B["sigma2"][0, r, 0]) / 2
                    n2 = A["nu2"][0, r, 0] + B["nu2"][0, r, 0]
                    el = c.sensitivity_elements
                    h.eq(el["sigma2"][0, q, r], s2, "residual variance" + t)
                    h.eq(el["nu2"][0, q, r], n2, "squared representer" + t)
                    mb = el["max_bias"][0, q, r]
                    h.le(0.0, mb, "bias bound sign" + t)
                    h.eq(mb * mb, s2 * n2, "squared bias bound" + t)
                    ps, pn = ((A["psi_sigma2"][:, r, 0] + B["psi_sigma2"][:, r, 0]) / 2, A["psi_nu2"][:, r, 0] + B["psi_nu2"][:, r, 0])
                    h.eq(2 * mb * h.arr(list(el["psi_max_bias"][:, q, r])), s2 * h.arr(list(pn)) + n2 * h.arr(list(ps)), "bias score" + t)
                q += 1
        h.true(c.n_thetas == q, "number of contrasts")
        h.true(list(c.treatment_names) == names, "labels")
        for bad in (7.0, [lv[0], 7.0], "2"):
            h.raises(lambda: m.causal_contrast(bad), (ValueError, TypeError), "unknown reference level")
    return f


def alone(h):
    m, _, fit = pair(h, (1.0,))
    fit()
    h.raises(lambda: m.causal_contrast(1.0), ValueError, "only one level")


def bench(lv, nrep=1):
    """benchmarks of the levels are those of the single models"""
    def f(h):
        m, ones, fit = pair(h, lv, nrep=nrep, ext=(), free=1)
        fit()
        for o in [m] + ones:
            for bad, E in (([], ValueError), ("X1", TypeError), (["Z"], ValueError)):
                h.raises(lambda: o.sensitivity_benchmark(bad), E, "refused: %s" % (bad,))
            h.raises(lambda: o.sensitivity_benchmark(["X2"], fit_args=[1]), TypeError, "refused arguments")
        df = m.sensitivity_benchmark(["X2"])
        h.true(list(df.index) == list(lv), "labels")
        for i, o in enumerate(ones):
            one = o.sensitivity_benchmark(["X2"])
            h.true(list(one.columns) == list(df.columns), "columns")
            for k in df.columns:
                h.eq(df[k].iloc[i], one[k].iloc[0], "%s of level %g" % (k, lv[i]))
    return f


def resplit(h):
    """new splits withdraw the results"""
    m, ones, fit = pair(h, (0.0, 2.0), ext=())
    fit()
    f1 = m.framework
    s1 = fsnap(f1)
    for how in ("set", "draw"):
        if how == "set":
            m.set_sample_splitting(splits(15, 3, 2, "mod"))
            h.true(m.n_rep == 2 and m.n_folds == 3, "new numbers")
        else:
            m.draw_sample_splitting()
        h.true(m.framework is None and m.coef is None and m.all_se is None and len(m.summary) == 0, "estimates withdrawn")
        for q in (m.confint, m.bootstrap, m.sensitivity_analysis, lambda: m.causal_contrast(0.0)):
            h.raises(q, ValueError, "no results")
        alike(h, fsnap(f1), s1, "results kept elsewhere:")
        sm = splits(15, 3, 2, "mod")
        m.set_sample_splitting(sm)
        for o in ones:
            o.set_sample_splitting(sm)
        fit()
        for i, o in enumerate(ones):
            h.eq(m.all_coef[i], o.all_coef[0], "estimates on the new splits")
            h.eq(m.all_se[i], o.all_se[0], "errors on the new splits")


def quantiles(h, m):
    V = ValueError
    qs = list(m.quantiles)
    h.true(m.coef is None and m.all_coef is None and m.se is None and m.all_se is None and m.framework is None and m.boot_t_stat is None, "nothing before the fit")
    for q in (m.confint, m.bootstrap, m.p_adjust):
        h.raises(q, V, "before the fit")
    m.fit()
    fr = concat([a.framework - b.framework for a, b in zip(m.modellist_1, m.modellist_0)])
    for key, k2 in (("coef", "thetas"), ("se", "ses"), ("all_coef", "all_thetas"), ("all_se", "all_ses"), ("pval", "pvals")):
        h.eq(getattr(m, key), getattr(fr, k2), key)
    h.eq(m.t_stat * m.se, m.coef, "t statistics")
    for meth in ("wild", "Bayes", "normal"):
        for o in (m, fr):
            with drawing(h, fixed=DRAW):
                o.bootstrap(method=meth, n_rep_boot=3)
        h.true(m.boot_method == meth and m.n_rep_boot == 3, "stored settings")
        h.eq(m.boot_t_stat, fr.boot_t_stat, meth + " bootstrap")
    for kw in (dict(), dict(level=0.5)) + ((dict(joint=True, level=0.8),) if m.n_rep == 1 else ()):
        a = m.confint(**kw)
        h.eq(a.values, fr.confint(**kw).values, "intervals %s" % kw)
        h.true(list(a.index) == qs, "labels %s" % kw)
    for meth in ("romano-wolf", "bonferroni", "holm"):
        a, (b, _) = m.p_adjust(method=meth), fr.p_adjust(method=meth)
        h.eq(a.values, b.values, meth + " p-values")
        h.true(list(a.index) == qs, meth + " labels")
    f1, s1 = m.framework, fsnap(m.framework)
    m.set_sample_splitting(m.smpls)
    h.true(m.framework is None and m.coef is None and len(m.summary) == 0, "new splits withdraw the results")
    h.raises(m.confint, V, "no results")
    alike(h, fsnap(f1), s1, "results kept elsewhere:")


def scenarios(tier):
    from props.c09 import qte, solvers
    out = []
    patches = lambda h: dict({"go": lambda real: Go()}, **(dict(IDLE, round=mark) if h.sym else {}))

    def add(name, fn, p=patches, **kw):
        out.append(Scenario(name, fn, patches=p, bounds=name, **kw))
    A, B = (0.0, 1.0, 2.0), (2.0, 0.0)
    add("levels", levels(A))
    add("levels-order-2rep", levels((1.0, 2.0, 0.0), nrep=2))
    add("levels-learned", levels(A, ext=(), k=3, free=1))
    add("levels-partly", levels(A, ext=("ml_m",), some=(1.0,)))
    add("levels-some", levels(A, some=(2.0, 0.0), nrep=2))
    add("levels-norm", levels(B, norm=True, thr=0.1))
    add("levels-weights", levels((0.0, 1.0), n=12, w="fixed", norm=True))
    add("levels-weights-dict", levels((1.0, 0.0), n=12, w="dictfixed", nrep=2))
    add("queries", queries(A, free=1))
    add("queries-2rep", queries(B, nrep=2, free=1))
    add("plot-first", plot((0.0, 2.0), 0, "theta"))
    add("plot-last", plot(B, 1, "ci"))
    add("contrast", contrast(A, 1.0))
    add("contrast-all", contrast(A, [2.0, 0.0]))
    add("contrast-2rep", contrast((1.0, 0.0, 2.0), [0.0], nrep=2))
    add("contrast-learned", contrast(B, 0.0, ext=(), k=3, free=1))
    add("alone", alone)
    add("benchmark", bench(A))
    add("benchmark-2rep", bench(B, 2))
    add("resplit", resplit)
    for s in ("CVaR", "PQ"):
        add("quantiles-" + s, qte(s, quants=(0.5, 0.25), then=quantiles), solvers, budget=30 if tier == "quick" else 240)
    add("quantiles-2rep", qte("CVaR", quants=(0.5, 0.25), nrep=2, then=quantiles), solvers)
    return out

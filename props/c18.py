"""sums, differences and multiples of estimated parameters"""
from props.c13 import C1, C2, FOLD1, FOLD2, csplit, spec_var
from props.fw import *


def comp(h, o, d, tag):
    """the operands are left alone"""
    for k in ("all_thetas", "all_ses", "scaled_psi", "thetas", "ses"):
        h.eq(getattr(o, k), d[k], tag + " untouched " + k)
    if "sensitivity_elements" in d:
        for k, v in d["sensitivity_elements"].items():
            h.eq(o.sensitivity_elements[k], v, tag + " untouched " + k)


def addsub(op, nt=2, nrep=2, n=2, sens=True, bench=False, small=False):
    def f(h):
        kw = dict(nt=nt, nrep=nrep, n=n, free=True)
        s1, s2 = sens if isinstance(sens, tuple) else (sens, sens)
        a, da = framework(h, tag="a", sens=s1, bench=bench, **kw)
        b, db = framework(h, tag="b", sens=s2, bench=bench, psi=nrep < 3, **kw)
        c = a + b if op == "+" else a - b
        sg = 1 if op == "+" else -1
        h.true((c.n_thetas, c.n_rep, c.n_obs) == (nt, nrep, n), "sizes")
        h.eq(c.all_thetas, da["all_thetas"] + sg * db["all_thetas"], "estimates of each repetition")
        h.eq(c.scaled_psi, da["scaled_psi"] + sg * db["scaled_psi"], "normalised scores")
        h.eq(c.var_scaling_factors, np.array([float(n)] * nt), "scaling")
        for i in range(nt):
            for r in range(nrep):
                p = da["scaled_psi"][:, i, r] + sg * db["scaled_psi"][:, i, r]
                h.eq(c.all_ses[i, r] * c.all_ses[i, r], mean(p * p) / n, "squared standard error")
                h.le(0.0, c.all_ses[i, r], "sign")
            if nrep < 3:
                t, s = agg(h, c.all_thetas[i], c.all_ses[i], n)
                h.eq(c.thetas[i], t, "aggregate estimate")
                h.eq(c.ses[i] * c.ses[i], s * s, "aggregate squared standard error")
        if s1 and s2:
            for k in ("max_bias", "psi_max_bias"):
                h.eq(c.sensitivity_elements[k], da["sensitivity_elements"][k] + db["sensitivity_elements"][k], k)
        else:
            h.true(c.sensitivity_elements is None, "no sensitivity analysis without both parts")
        comp(h, a, da, "left")
        comp(h, b, db, "right")
    return f


def mul(bench, left=False, nt=2, nrep=2, c=None, sens=True):
    def f(h):
        a, da = framework(h, tag="a", nt=nt, nrep=nrep, n=2, free=True, sens=sens, bench=bench)
        k = h.real("c", -3, 3) if c is None else c
        b = k * a if left else a * k
        ab = abs(k)
        h.eq(b.thetas, da["thetas"] * k, "estimates")
        h.eq(b.all_thetas, da["all_thetas"] * k, "estimates of each repetition")
        h.eq(b.ses, da["ses"] * ab, "standard errors")
        h.eq(b.all_ses, da["all_ses"] * ab, "standard errors of each repetition")
        h.eq(b.scaled_psi, da["scaled_psi"] * k, "normalised scores")
        h.eq(b.var_scaling_factors, da["var_scaling_factors"], "scaling")
        if sens:
            se, sa = b.sensitivity_elements, da["sensitivity_elements"]
            h.eq(se["max_bias"], sa["max_bias"] * ab, "maximal bias")
            h.eq(se["psi_max_bias"], sa["psi_max_bias"] * ab, "score of the maximal bias")
            if bench:
                h.eq(se["sigma2"], sa["sigma2"], "outcome residual variance")
                h.eq(se["nu2"], sa["nu2"] * k * k, "second moment of the representer")
        comp(h, a, da, "operand")
    return f


def models(op, na="IRM", nb="ATTE", nrep=1):
    def f(h):
        a, e, _ = build(h, na, nrep=nrep)
        a.fit(external_predictions=e)
        b, e, _ = build(h, nb, nrep=nrep)
        b.fit(external_predictions=e)
        c = a.framework + b.framework if op == "+" else a.framework - b.framework
        sg = 1 if op == "+" else -1
        for r in range(nrep):
            h.eq(c.all_thetas[0, r], a.all_coef[0, r] + sg * b.all_coef[0, r], "estimate")
            p = a.psi[:, r, 0] / mean(a.psi_deriv[:, r, 0]) + sg * b.psi[:, r, 0] / mean(b.psi_deriv[:, r, 0])
            h.eq(c.all_ses[0, r] * c.all_ses[0, r], mean(p * p) / len(p), "squared standard error")
    return f


def clusters(op, ways=1, n=14):
    def f(h):
        cs = [C1[:n]] + ([C2[:n]] if ways == 2 else [])
        sm, sc = csplit(cs, [FOLD1[0], FOLD2[0]][:ways], [2, 2])
        kw = dict(n=n, cluster=[np.array(c) for c in cs], sm=[sm], smc=[sc])
        a, e, _ = build(h, "IRM", **kw)
        a.fit(external_predictions=e)
        b, e, _ = build(h, "IRM", seed=3, **kw)
        b.fit(external_predictions=e)
        c = a.framework + b.framework if op == "+" else a.framework - b.framework
        sg = 1 if op == "+" else -1
        p = h.arr(a.framework.scaled_psi[:, 0, 0] + sg * b.framework.scaled_psi[:, 0, 0])
        v, nc = spec_var(p, np.ones(n), cs, sm, sc)
        h.eq(c.all_ses[0, 0] * c.all_ses[0, 0], v, "squared standard error respects the clusters")
        h.eq(c.ses[0], c.all_ses[0, 0], "aggregate")
        h.eq(c.thetas[0], a.coef[0] + sg * b.coef[0], "estimate")
    return f


def bad(h):
    kw = dict(free=True, psi=False, th=False, ses=None)
    a, _ = framework(h, n=4, **kw)
    for tag, q in (("observations", dict(n=3)), ("repetitions", dict(n=4, nrep=2)), ("parameters", dict(n=4, nt=3))):
        b, _ = framework(h, tag=tag, **{**kw, **q})
        h.raises(lambda: a + b, ValueError, "sum with other number of " + tag)
        h.raises(lambda: a - b, ValueError, "difference with other number of " + tag)
    d = raw(h, n=4, tag="cl", **kw)
    d["is_cluster_data"] = True
    d["cluster_dict"] = {"smpls": [], "smpls_cluster": [], "cluster_vars": np.zeros((4, 1)), "n_folds_per_cluster": 2}
    b = DoubleMLFramework(d)
    h.raises(lambda: a + b, ValueError, "clustered and unclustered")
    h.raises(lambda: a - b, ValueError, "clustered and unclustered")
    for x in (1, 2.0, None, "a"):
        h.raises(lambda: a + x, TypeError, "sum with %r" % (x,))
        h.raises(lambda: a - x, TypeError, "difference with %r" % (x,))
        h.raises(lambda: x + a, TypeError, "sum with %r" % (x,))
        h.raises(lambda: x - a, TypeError, "difference with %r" % (x,))
    for x in (a, None, "a", [1]):
        h.raises(lambda: a * x, TypeError, "product with %s" % type(x).__name__)
    h.observe("th", h.real("dummy"))


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, bounds=str(kw)))
    for op in "+-":
        add("op" + op, addsub(op))
        add("op" + op + "nosens", addsub(op, sens=False, nrep=1, nt=3, n=3))
        add("op" + op + "halfsens", addsub(op, sens=(True, False), nrep=1))
        add("op" + op + "bench", addsub(op, bench=True, nrep=1))
        add("op" + op + "3rep", addsub(op, nrep=3, nt=1, n=2))
        add("models" + op, models(op))
        add("models" + op + "PLR", models(op, "PLR", "PLIV", nrep=2))
        add("models" + op + "DID", models(op, "DID", "DIDCS", nrep=2))
        for w in (1, 2):
            add("cluster%d%s" % (w, op), clusters(op, w))
    for bench in (True, False):
        for left in (True, False):
            add("scale-%s-%s" % (bench, left), mul(bench, left))
    add("scale-nosens", mul(False, sens=False))
    add("scale-int", mul(True, c=-2))
    add("scale-zero", mul(True, c=0))
    add("reject", bad)
    return out

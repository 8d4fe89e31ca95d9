"""joining estimated parameters into one object"""
from props.fw import *


def join(parts, nrep=1, n=3, sens=None, bench=None, free=False):
    """parts: number of parameters of each operand; sens/bench: which operands carry sensitivity elements"""
    def f(h):
        os_, ds = [], []
        for k, nt in enumerate(parts):
            o, d = framework(h, nt=nt, nrep=nrep, n=n, tag="abc"[k], sens=bool(sens and sens[k]), bench=bool(bench and bench[k]), free=True)
            os_.append(o)
            ds.append(d)
        c = concat(os_)
        N = sum(parts)
        h.true((c.n_thetas, c.n_rep, c.n_obs) == (N, nrep, n), "sizes")
        i = 0
        alls = sens and all(sens)
        for d, nt, o in zip(ds, parts, os_):
            for key in ("thetas", "ses", "all_thetas", "all_ses", "var_scaling_factors"):
                h.eq(getattr(c, key)[i:i + nt], d[key], "%s of the operand at %d" % (key, i))
                h.eq(getattr(o, key), d[key], "operand at %d untouched: %s" % (i, key))
            h.eq(c.scaled_psi[:, i:i + nt], d["scaled_psi"], "scores of the operand at %d" % i)
            if alls:
                for key in ("max_bias", "psi_max_bias") + (("sigma2", "nu2") if bench and all(bench) else ()):
                    h.eq(c.sensitivity_elements[key][:, i:i + nt], d["sensitivity_elements"][key], "%s of the operand at %d" % (key, i))
            i += nt
        if not alls:
            h.true(c.sensitivity_elements is None, "no sensitivity elements unless every operand has them")
        elif not (bench and all(bench)):
            h.true("sigma2" not in c.sensitivity_elements, "no benchmarks unless every operand has them")
        for a in range(N):
            h.eq(c.t_stats[a] * c.ses[a], c.thetas[a], "t statistic")
    return f


def models(na, nb, nrep=1):
    def f(h):
        a, e, _ = build(h, na, nrep=nrep)
        a.fit(external_predictions=e)
        b, e, _ = build(h, nb, nrep=nrep, seed=3)
        b.fit(external_predictions=e)
        c = concat([a.framework, b.framework])
        for i, m in enumerate((a, b)):
            h.eq(c.thetas[i], m.coef[0], "estimate")
            h.eq(c.ses[i], m.se[0], "standard error")
            h.eq(c.all_ses[i], m.all_se[0], "standard error of each repetition")
            h.eq(c.scaled_psi[:, i], m.framework.scaled_psi[:, 0], "scores")
        d = concat([b.framework, a.framework])
        h.eq(d.thetas, h.arr([b.coef[0], a.coef[0]]), "order")
    return f


def assoc(h):
    """joining joined objects; sums of parts"""
    a, b, c = (framework(h, nt=1, n=2, tag=t, free=True, sens=True)[0] for t in "abc")
    x, y = concat([concat([a, b]), c]), concat([a, concat([b, c])])
    for k in ("thetas", "ses", "all_thetas", "all_ses", "scaled_psi"):
        h.eq(getattr(x, k), getattr(y, k), "joining is associative: " + k)
    z = concat([a, b]) + concat([b, c])
    w = concat([a + b, b + c])
    for k in ("all_thetas", "scaled_psi", "thetas"):
        h.eq(getattr(z, k), getattr(w, k), "sum of joined parts: " + k)
    h.eq(z.all_ses * z.all_ses, w.all_ses * w.all_ses, "sum of joined parts: squared errors")
    h.eq(z.sensitivity_elements["max_bias"], w.sensitivity_elements["max_bias"], "sum of joined parts: bias bound")


def reject(h):
    kw = dict(free=True, psi=False, th=False, ses=None)
    a, _ = framework(h, n=4, **kw)
    h.raises(lambda: concat([]), TypeError, "nothing to join")
    for x in (1, None, "a"):
        h.raises(lambda: concat([a, x]), TypeError, "no framework")
    for tag, q in (("observations", dict(n=3)), ("repetitions", dict(n=4, nrep=2))):
        b, _ = framework(h, tag=tag, **{**kw, **q})
        h.raises(lambda: concat([a, b]), ValueError, "other number of " + tag)
        h.raises(lambda: concat([a, a, b]), ValueError, "other number of %s (third)" % tag)
    d = raw(h, n=4, tag="cl", **kw)
    d["is_cluster_data"] = True
    d["cluster_dict"] = {"smpls": [], "smpls_cluster": [], "cluster_vars": np.zeros((4, 1)), "n_folds_per_cluster": 2}
    b = DoubleMLFramework(d)
    h.raises(lambda: concat([a, b]), (ValueError, NotImplementedError), "clustered and unclustered")
    h.raises(lambda: concat([b, b]), NotImplementedError, "clustered")
    h.observe("x", h.real("x"))


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, bounds=str(kw)))
    add("two", join((1, 2)))
    add("two-reps", join((2, 1), nrep=2))
    add("three-reps", join((1, 2, 1), nrep=3, n=2))
    add("one", join((2,), nrep=2, sens=[1], bench=[1]))
    add("sens", join((1, 2), nrep=2, sens=[1, 1]))
    add("bench", join((1, 2, 1), nrep=2, sens=[1, 1, 1], bench=[1, 1, 1]))
    add("half-bench", join((1, 2), sens=[1, 1], bench=[1, 0]))
    add("half-sens", join((1, 2), sens=[0, 1], bench=[0, 1]))
    add("half-sens-2", join((2, 1, 1), sens=[1, 1, 0], bench=[1, 1, 0]))
    add("IRM-PLR", models("IRM", "PLR"))
    add("IRM-ATTE-2rep", models("IRM", "ATTE", 2))
    add("DID-IIVM-2rep", models("DID", "IIVM", 2))
    add("associative", assoc)
    add("reject", reject)
    return out

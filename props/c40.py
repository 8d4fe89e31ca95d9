"""what a result framework is built from"""
from props.fw import *

E_ = (TypeError, ValueError)
KEYS = ("thetas", "ses", "all_thetas", "all_ses", "var_scaling_factors", "scaled_psi")
SENS = ("max_bias", "psi_max_bias", "sigma2", "nu2")


def kept(h, o, d, nt, nrep, n):
    h.true((o.n_thetas, o.n_rep, o.n_obs) == (nt, nrep, n), "sizes")
    for k in ("thetas", "ses", "all_thetas", "all_ses", "scaled_psi"):
        h.eq(getattr(o, k), d[k], k)
    se = d.get("sensitivity_elements")
    if se is None:
        h.true(o.sensitivity_elements is None, "no sensitivity elements")
        h.raises(lambda: o.sensitivity_analysis(), NotImplementedError, "sensitivity analysis without its elements")
    else:
        for k in SENS if "sigma2" in se and "nu2" in se else SENS[:2]:
            h.eq(o.sensitivity_elements[k], se[k], k)
    h.true(o.boot_t_stat is None and o.sensitivity_params is None, "nothing computed yet")
    names = d.get("treatment_names")
    h.true(o.treatment_names == names, "names")
    if names is not None:
        h.true(list(o.summary.index) == list(names) and list(o.confint().index) == list(names), "names label the rows")


def valid(nt, nrep, n, sens, bench, names):
    def f(h):
        d = raw(h, nt=nt, nrep=nrep, n=n, sens=sens, bench=bench, free=True)
        if names:
            d["treatment_names"] = ["a%d" % i for i in range(nt)]
        kept(h, DoubleMLFramework(copyd(d)), d, nt, nrep, n)
    return f


def other(shape, how):
    """another shape of the same or another number of dimensions"""
    s = list(shape)
    k = how % (len(s) + 2)
    if k < len(s):
        s[k] += 1
    elif k == len(s):
        s = s + [1]
    else:
        s = s[:-1] if len(s) > 1 else []
    return tuple(s)


def shapes(nt, nrep, n, sens, bench):
    """one component of another shape"""
    def f(h):
        d = raw(h, nt=nt, nrep=nrep, n=n, sens=sens, bench=bench, free=True, psi=False, th=False, ses=None)
        keys = [k for k in KEYS if k != "scaled_psi"] + (list(SENS[:4 if bench else 2]) if sens else [])
        k = h.pick(keys, "component")
        at = d["sensitivity_elements"] if k in SENS else d
        how = h.choose(5, "shape")
        sh = other(np.shape(plain(obj(at[k]))), how)
        at[k] = np.full(sh, 0.5)
        h.raises(lambda: DoubleMLFramework(copyd(d)), E_, "%s of shape %s" % (k, sh))
    return f


def scores(nt, nrep, n):
    """scores that fit the estimates in no way"""
    def f(h):
        d = raw(h, nt=nt, nrep=nrep, n=n, free=True, psi=False, th=False, ses=None)
        sh = h.pick([(n, nt + 1, nrep), (n, nt, nrep + 1)], "shape")
        d["scaled_psi"] = np.full(sh, 0.5)
        h.raises(lambda: DoubleMLFramework(copyd(d)), E_, "scores of shape %s" % (sh,))
    return f


def missing(h):
    d = raw(h, nt=2, nrep=1, n=2, sens=True, bench=True, free=True, psi=False, th=False, ses=None)
    k = h.pick(list(KEYS) + list(SENS[:2]), "component")
    del (d["sensitivity_elements"] if k in SENS else d)[k]
    h.raises(lambda: DoubleMLFramework(copyd(d)), E_, "without %s" % k)
    for bad in (None, [1], "text", 3):
        h.raises(lambda: DoubleMLFramework(bad), TypeError, "no dictionary")


def kinds(h):
    """components of another type"""
    k = h.pick(list(SENS), "component")
    d = raw(h, nt=2, nrep=1, n=2, sens=True, bench=True, free=True, psi=False, th=False, ses=None)
    d["sensitivity_elements"][k] = 0.5
    h.raises(lambda: DoubleMLFramework(d), TypeError, "%s is no array" % k)
    d = raw(h, nt=2, nrep=1, n=2, sens=True, free=True, psi=False, th=False, ses=None)
    d["sensitivity_elements"] = h.pick([None, [1], "text"], "elements")
    h.raises(lambda: DoubleMLFramework(d), TypeError, "elements are no dictionary")


def signs(nt, nrep):
    """outcome and representer moments cannot be negative"""
    def f(h):
        d = raw(h, nt=nt, nrep=nrep, n=2, sens=True, bench=True, free=True, psi=False, th=False, ses=None)
        se = d["sensitivity_elements"]
        ok = True
        for k in ("sigma2", "nu2"):
            v = np.full((1, nt, nrep), 0.5, dtype=object)
            v[0, nt - 1, nrep - 1] = h.real(k, -1, 1)
            ok = bool(v[0, nt - 1, nrep - 1] >= 0) and ok
            se[k] = h.arr(v.tolist())
        if ok:
            kept(h, DoubleMLFramework(copyd(d)), d, nt, nrep, 2)
        else:
            h.raises(lambda: DoubleMLFramework(copyd(d)), ValueError, "negative moment")
    return f


def partial(h):
    """with one of the two moments only there is no benchmark, but an analysis"""
    k = h.pick(["sigma2", "nu2"], "missing")
    d = raw(h, nt=2, nrep=1, n=2, sens=True, bench=True, free=True, psi=False, th=False, ses=None)
    del d["sensitivity_elements"][k]
    kept(h, DoubleMLFramework(copyd(d)), d, 2, 1, 2)


def named(h):
    d = raw(h, nt=2, nrep=1, n=2, free=True, psi=False, th=False, ses=None)
    d["treatment_names"] = h.pick([("a", "b"), "ab", ["a"], ["a", "b", "c"], ["a", 2], [1, "b"], None], "names")
    h.raises(lambda: DoubleMLFramework(d), E_, "names %r" % (d["treatment_names"],))


def cluster(h):
    d = raw(h, nt=1, nrep=1, n=4, free=True, psi=False, th=False, ses=None)
    i = h.choose(8, "flaw")
    good = {"smpls": [[(np.array([0, 1]), np.array([2, 3])), (np.array([2, 3]), np.array([0, 1]))]], "smpls_cluster": [[([np.array([0])], [np.array([1])]), ([np.array([1])], [np.array([0])])]],
            "cluster_vars": np.array([[0], [0], [1], [1]]), "n_folds_per_cluster": 2}
    d["is_cluster_data"], d["cluster_dict"] = True, dict(good)
    if i == 0:
        DoubleMLFramework(copyd({k: v for k, v in d.items() if k != "cluster_dict"}) | {"cluster_dict": good})
        h.true(True, "complete")
        return
    if i == 1:
        d["is_cluster_data"] = 1
    elif i == 2:
        del d["cluster_dict"]
    elif i == 3:
        d["cluster_dict"] = [good]
    else:
        del d["cluster_dict"][["smpls", "smpls_cluster", "cluster_vars", "n_folds_per_cluster"][i - 4]]
    h.raises(lambda: DoubleMLFramework(d), E_, "flaw %d of the cluster information" % i)


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, bounds=name, **kw))
    sizes = [(1, 1, 2), (2, 1, 3), (1, 2, 3), (3, 2, 2), (2, 3, 4)]
    for s in sizes:
        t = "-%d-%d-%d" % s
        for sens, bench in ((False, False), (True, False), (True, True)):
            add("valid%s-%d%d" % (t, sens, bench), valid(*s, sens, bench, names=s[1] < 3 and (s[0] + sens) % 2 == 0))
        add("shapes" + t, shapes(*s, True, True))
        add("scores" + t, scores(*s))
    add("shapes-plain", shapes(2, 2, 3, False, False))
    add("shapes-unbenched", shapes(2, 1, 3, True, False))
    for fn in (missing, kinds, partial, named, cluster):
        add(fn.__name__, fn)
    for s in ((1, 1), (2, 1), (2, 2)):
        add("signs-%d-%d" % s, signs(*s))
    return out

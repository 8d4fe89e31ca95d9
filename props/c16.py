"""multiplier bootstrap and joint confidence intervals"""
from props.draws import drawing
from props.fw import *


def weights(h, d, method, r):
    """the multipliers of repetition r, one alternative per admissible reading of the drawn numbers"""
    g = [a for _, a in d.log]
    if method == "normal":
        return [g[r]]
    if method == "Bayes":
        return [g[r] - 1.0]
    x, y = g[2 * r], g[2 * r + 1]
    s2 = float(np.sqrt(2.0))
    return [x / s2 + (y * y - 1) / 2, y / s2 + (x * x - 1) / 2]


def spec_t(W, psi, se, n):
    """psi: (n, theta) normalised scores of one repetition; (boot, theta)"""
    B, nt = W.shape[0], psi.shape[1]
    return [[dotm(W[b], psi[:, i]) / (n * se[i]) for i in range(nt)] for b in range(B)]


def fw(method, nt=2, nrep=1, B=2, n=3):
    def f(h):
        d = raw(h, nt=nt, nrep=nrep, n=n, free=True)
        o = DoubleMLFramework(copyd(d))
        with drawing(h) as dr:
            o.bootstrap(method=method, n_rep_boot=B)
        h.true(o.boot_t_stat.shape == (B, nt, nrep), "shape")
        h.true(o.boot_method == method and o.n_rep_boot == B, "description")
        kinds = {"normal": ["normal"], "Bayes": ["exponential"], "wild": ["normal", "normal"]}[method] * nrep
        h.true([k for k, _ in dr.log] == kinds and all(a.shape == (B, n) for _, a in dr.log),
               "one multiplier per observation and bootstrap draw, shared by all parameters, drawn anew per repetition")
        if [k for k, _ in dr.log] != kinds:
            return
        for r in range(nrep):
            alts = [spec_t(W, d["scaled_psi"][:, :, r], d["all_ses"][:, r], n) for W in weights(h, dr, method, r)]
            h.either(o.boot_t_stat[:, :, r], [h.arr(obj(a)) for a in alts], "rep%d bootstrapped t statistics" % r)
    return f


def mdl(name, method, nrep=1, nt=1):
    def f(h):
        m, e, dd = build(h, name, nrep=nrep, ntreat=nt)
        m.fit(external_predictions=e)
        with drawing(h, fixed=lambda kind, k, ix: None if ix[1] < 2 else (ix[0] * 3 + ix[1] + k) % 4 - 1.5) as dr:
            m.bootstrap(method=method, n_rep_boot=2)
        for r in range(nrep):
            psi = m.psi[:, r, :]
            sc = h.arr(obj([[psi[i, t] / mean(m.psi_deriv[:, r, t]) for t in range(nt)] for i in range(dd.n_obs)]))
            alts = [spec_t(W, sc, m.all_se[:, r], dd.n_obs) for W in weights(h, dr, method, r)]
            h.either(m.boot_t_stat[:, :, r], [h.arr(obj(a)) for a in alts], "rep%d bootstrapped t statistics" % r)
    return f


def maxi(v):
    r = v[0]
    for e in v[1:]:
        r = e if bool(e > r) else r
    return r


def quantile(v, q):
    v = list(v)
    for i in range(len(v)):  # insertion sort
        j = i
        while j and bool(v[j] < v[j - 1]):
            v[j], v[j - 1] = v[j - 1], v[j]
            j -= 1
    p = q * (len(v) - 1)
    k = int(np.floor(p))
    return v[k] if k + 1 >= len(v) else v[k] + (v[k + 1] - v[k]) * (p - k)


def joint(level, nt=2, nrep=1, B=3, n=2, model=False):
    def f(h):
        if model:
            y = num(3, 8, -1.0, 2.0)
            m, e, dd = build(h, "PLR", nrep=nrep, ntreat=nt, ycol=h.arr([h.real("y0")] + list(y[1:])))
            m.fit(external_predictions=e)
            T, s, o = m.all_coef, m.all_se, m
            names = dd.d_cols
        else:
            d = raw(h, nt=nt, nrep=nrep, n=n, psi=False, ses=None, free=True)
            o = DoubleMLFramework(copyd(d))
            T, s, names = d["all_thetas"], d["all_ses"], list(range(nt))
        # arbitrary multipliers for one observation in two of the draws
        sy = {(0, 0), (B - 1, 0)}
        with drawing(h, fixed=lambda kind, k, ix: None if (ix in sy and not model) else ((ix[0] * 5 + ix[1] * 3 + k) % 7) / 2 - 1.5):
            o.bootstrap(n_rep_boot=B)
        df = o.confint(joint=True, level=level)
        crit = [quantile([maxi([abs(o.boot_t_stat[b, i, r]) for i in range(nt)]) for b in range(B)], level) for r in range(nrep)]
        h.true(list(df.index) == list(names), "row names")
        h.true(list(df.columns) == ["{:.1f} %".format(100 * (1 - level) / 2), "{:.1f} %".format(100 * (1 + level) / 2)], "columns")
        for i in range(nt):
            h.eq(df.iloc[i, 0], median([T[i, r] - s[i, r] * crit[r] for r in range(nrep)]), "joint lower bound")
            h.eq(df.iloc[i, 1], median([T[i, r] + s[i, r] * crit[r] for r in range(nrep)]), "joint upper bound")
    return f


def early(h):
    d = raw(h, n=2, free=True)
    o = DoubleMLFramework(copyd(d))
    h.raises(lambda: o.confint(joint=True), ValueError, "joint interval before the bootstrap")
    h.raises(lambda: o.p_adjust(), ValueError, "stepdown p-values before the bootstrap")
    h.raises(lambda: o.bootstrap(method="x"), ValueError, "unknown method")
    h.raises(lambda: o.bootstrap(n_rep_boot=0), ValueError, "no draws")


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, bounds=str(kw)))
    for me in ("normal", "Bayes", "wild"):
        add("framework-" + me, fw(me))
        add("framework-2rep-" + me, fw(me, nrep=2))
        add("framework-3theta-" + me, fw(me, nt=3, B=3, n=2))
    for nm in NAMES:
        add(nm, mdl(nm, {"P": "wild", "I": "normal"}.get(nm[0], "Bayes"), nrep=2))
    for me in ("normal", "Bayes", "wild"):
        add("PLR-2treat-" + me, mdl("PLR", me, nrep=2, nt=2))
    for lv in (0.95, 0.5, 0.8):
        add("joint-%s" % lv, joint(lv))
        if lv == 0.8 or tier == "thorough":
            add("joint-2rep-%s" % lv, joint(lv, nrep=2))
    add("joint-B4", joint(0.9, B=4))
    add("joint-model", joint(0.9, model=True))
    add("joint-model-2rep", joint(0.7, model=True, nrep=2))
    add("early", early)
    return out

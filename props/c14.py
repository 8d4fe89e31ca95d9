"""aggregation over repeated sample splits"""
from props.fw import *


def model(name, nrep=3, nt=1, cluster=False):
    def f(h):
        n = 8
        # one outcome entry arbitrary: three repetitions already give three different estimates
        y = num(3, n if name != "APO" else 10, -1.0, 2.0)
        y0 = h.real("y0")
        y = h.arr([y0] + list(y[1:]))
        kw = {}
        if cluster:
            from props.c13 import C1, FOLD1, csplit
            c = [1, 2, 3, 4, 1, 2, 3, 4]
            mps = [{1: 0, 2: 0, 3: 1, 4: 1}, {1: 0, 2: 1, 3: 0, 4: 1}, {1: 0, 2: 1, 3: 1, 4: 0}]
            s = [csplit([c], [mp], [2]) for mp in mps[:nrep]]
            kw = dict(cluster=[np.array(c)], sm=[a for a, _ in s], smc=[b for _, b in s])
        m, e, dd = build(h, name, nrep=nrep, ntreat=nt, ycol=y, **kw)
        m.fit(external_predictions=e)
        nn = 4 if cluster else dd.n_obs
        for i in range(nt):
            t, s = agg(h, m.all_coef[i], m.all_se[i], nn)
            h.eq(m.coef[i], t, "aggregate estimate")
            h.eq(m.se[i] * m.se[i], s * s, "aggregate squared standard error")
            h.le(0.0, m.se[i], "sign")
            h.eq(m.framework.thetas[i], t, "framework estimate")
            h.eq(m.framework.ses[i], m.se[i], "framework standard error")
    return f


def function(nrep, nt, scal):
    """the aggregation itself, on arbitrary estimates and standard errors"""
    def f(h):
        from doubleml.utils import _estimation as E
        T = h.reals("th", (nt, nrep))
        s = h.reals("se", (nt, nrep), 0, 2)
        v = np.array([5.0, 8.0, 3.0][:nt]) if scal == 1 else np.array([[4.0 + i + 2 * r for r in range(nrep)] for i in range(nt)])
        fn = getattr(E, "_aggregate_coefs_and_ses", None)
        if fn is None:  # internal helper, checked through the public classes anyway
            return h.true(True, "no such helper")
        c, se = fn(T, s, v)
        for i in range(nt):
            th, ss = list(obj(T[i])), list(obj(s[i]))
            t = median(th)
            h.eq(c[i], t, "estimate")
            h.eq(se[i] * se[i], median([b * b + (a - t) * (a - t) / float(v[i] if scal == 1 else v[i, r])
                                        for r, (a, b) in enumerate(zip(th, ss))]), "squared standard error")
            h.le(0.0, se[i], "sign")
    return f


def arithmetic(h, op):
    """sums of frameworks aggregate again"""
    a, da = framework(h, nt=1, nrep=3, n=2, tag="a", ses=None, psi=False)
    b, db = framework(h, nt=1, nrep=3, n=2, tag="b", ses=None, psi=False, th=False)
    c = a + b if op == "+" else a - b
    t, s = agg(h, c.all_thetas[0], c.all_ses[0], 2)
    h.eq(c.thetas[0], t, "aggregate estimate")
    h.eq(c.ses[0] * c.ses[0], s * s, "aggregate squared standard error")


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, bounds=str(kw)))
    for nm in NAMES:
        add(nm + "-3rep", model(nm))
    add("PLR-3rep-2treat", model("PLR", nt=2))
    add("PLIV-2rep-2treat", model("PLIV", nt=2, nrep=2))
    add("PLR-cluster-3rep", model("PLR", cluster=True))
    for nrep in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for scal in (1, 2):
            add("aggregate-%d-%d" % (nrep, scal), function(nrep, 1 if nrep > 2 else 3, scal))
    add("aggregate-3-1-2t", function(3, 2, 1)) if tier == "thorough" else None
    for op in "+-":
        add("framework" + op, lambda h, op=op: arithmetic(h, op))
    return out

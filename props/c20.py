"""bounds under unobserved confounding: estimates, errors and confidence limits"""
from props.c13 import C1, C2, FOLD1, FOLD2, csplit, spec_var
from props.c15 import ppf
from props.fw import *


def bounds(h, par, T, psi, mb, pmb, s2, s, level, var, tag, names=("lower", "upper"), nc=None):
    """s: strength of the confounding (or None and s2 its square); var(p, i, r): squared error implied by the scores p"""
    nt, nrep = obj(T).shape
    n = obj(psi).shape[0] if nc is None else nc
    q = ppf(h, level)
    for i in range(nt):
        for key, sg in (("lower", -1), ("upper", 1)):
            if s is None:  # one repetition, strength known by its square only
                dev = sg * (par["theta"][key][i] - T[i, 0])
                h.le(0.0, dev, tag + " %s bound on its side" % key)
                h.eq(dev * dev, s2 * mb[0, i, 0] * mb[0, i, 0], tag + " squared distance of the %s bound" % key)
                h.eq(par["ci"][key][i], par["theta"][key][i] + sg * q * par["se"][key][i], tag + " %s confidence limit" % key)
                continue
            th = [T[i, r] + sg * s * mb[0, i, r] for r in range(nrep)]
            v = [var(h.arr(psi[:, i, r] + sg * s * pmb[:, i, r]), i, r) for r in range(nrep)]
            t = median(th)
            h.eq(par["theta"][key][i], t, tag + " %s bound" % key)
            se = par["se"][key][i]
            h.eq(se * se, median([x + (y - t) * (y - t) / n for x, y in zip(v, th)]), tag + " %s squared error" % key)
            h.eq(par["ci"][key][i], median([y + sg * q * sqrt_(x) for x, y in zip(v, th)]), tag + " %s confidence limit" % key)


def iid(p, i, r):
    return mean(p * p) / len(p)


def params(h, o, cf_y, cf_d, rho, level, null, tag):
    inp = o.sensitivity_params["input"]
    h.eq(inp["cf_y"], cf_y, tag + " stored cf_y")
    h.eq(inp["cf_d"], cf_d, tag + " stored cf_d")
    h.eq(inp["rho"], rho, tag + " stored rho")
    h.eq(inp["level"], level, tag + " stored level")
    h.eq(inp["null_hypothesis"], null, tag + " stored null hypothesis")


def sym(h):
    """strength symbolic"""
    o, d = framework(h, nt=2, nrep=1, n=2, sens=True, psi=False)
    cy, cd, rho = h.real("cf_y", 0, 0.9), h.real("cf_d", 0, 0.9), h.real("rho", -1, 1)
    o.sensitivity_analysis(cf_y=cy, cf_d=cd, rho=rho, level=0.9, null_hypothesis=-9.0)
    se = d["sensitivity_elements"]
    bounds(h, o.sensitivity_params, d["all_thetas"], d["scaled_psi"], se["max_bias"], se["psi_max_bias"],
           rho * rho * cy * cd / (1 - cd), None, 0.9, None, "symbolic strength")
    params(h, o, cy, cd, rho, 0.9, np.array([-9.0, -9.0]), "symbolic strength")


def fixed(nt, nrep, cf_y, cf_d, rho, s, level=0.95, n=2, free=False):
    def f(h):
        o, d = framework(h, nt=nt, nrep=nrep, n=n, sens=True, free=free, psi=nrep < 3, ses=None)
        if nrep > 2:  # the spread of the repetitions is fixed, their level and the bias of one of them free
            d["all_thetas"] = h.arr([[h.real("level%d" % i) + [0.25, -0.5, 0.125][r] for r in range(nrep)] for i in range(nt)])
            b = num(5, (1, nt, nrep), 0.25, 1)
            d["sensitivity_elements"]["max_bias"] = h.arr(b)
            d["sensitivity_elements"]["max_bias"][0, 0, 1] = h.real("bias", 0.25, 2)
            d["sensitivity_elements"]["psi_max_bias"] = num(3, (n, nt, nrep), -0.5, 0.5)
            o = DoubleMLFramework(copyd(d))
        null = np.array([-9.0, 9.0][:nt])
        o.sensitivity_analysis(cf_y=cf_y, cf_d=cf_d, rho=rho, level=level, null_hypothesis=null)
        se = d["sensitivity_elements"]
        bounds(h, o.sensitivity_params, d["all_thetas"], d["scaled_psi"], se["max_bias"], se["psi_max_bias"], None, s, level,
               iid, "strength %s" % s)
        params(h, o, cf_y, cf_d, rho, level, null, "strength %s" % s)
        h.eq(o.all_thetas, d["all_thetas"], "estimates stay")
        h.eq(o.thetas, d["thetas"], "estimates stay")
    return f


# the solvers the package could use: the value of the objective decides, not the algorithm
PROBES = (0.75, 0.0, 0.25, 0.5, 0.9)


class Res:
    def __init__(self, x):
        self.x = self.root = x
        self.success = self.converged = True
        self.fun = 0.0


def scripted(real):
    def solver(fun, *a, args=(), **k):
        best, bx = None, None
        for x in PROBES:
            v = fun(x, *args)
            v = v * v
            if best is None or bool(v < best):
                best, bx = v, x
        return Res(bx)
    return solver


SOLV = {"minimize_scalar": scripted, "root_scalar": scripted}
IDLE = {k: (lambda real: lambda *a, **k: Res(0.5)) for k in SOLV}  # where robustness values are not looked at


def rv(side, which, rho=0.5, level=0.95, nrep=1, dict_null=False):
    """the null hypothesis is what the bound (or its confidence limit) reaches at strength 0.75: that is the robustness value"""
    def f(h):
        o, d = framework(h, nt=2, nrep=nrep, n=2, sens=True, psi=False)
        se = d["sensitivity_elements"]
        se["max_bias"] = h.reals("bias", (1, 2, nrep), 1.0, 2.0)  # the limit lies beyond the estimate
        se["psi_max_bias"] = num(3, se["psi_max_bias"].shape, -0.25, 0.25)
        o = DoubleMLFramework(copyd(d))
        s, sg = abs(rho) * 1.5, 1 if side == "upper" else -1
        null = []
        for i in range(2):
            x = []
            for r in range(nrep):
                v = d["all_thetas"][i, r] + sg * s * se["max_bias"][0, i, r]
                if which == "ci":
                    v = v + sg * ppf(h, level) * sqrt_(iid(h.arr(d["scaled_psi"][:, i, r] + sg * s * se["psi_max_bias"][:, i, r]), i, r))
                x.append(v)
            null.append(median(x))
        null = h.arr(null)
        o.sensitivity_analysis(rho=rho, level=level, null_hypothesis=null)
        got = o.sensitivity_params["rv" if which == "theta" else "rva"]
        for i in range(2):
            h.eq(round(float(got[i]), 2), 0.75, "robustness value of parameter %d" % i)
    return f


def mdl(name, nrep=1, nt=1, **kw):
    def f(h):
        n = kw.get("n", 8)
        y = h.arr([float(v) for v in num(11, 10 if name == "APO" else n, -1, 2)])
        y[0] = h.real("y0")
        m, e, dd = build(h, name, nrep=nrep, ntreat=nt, ycol=y, **kw)
        m.fit(external_predictions=e)
        m.sensitivity_analysis(cf_y=0.25, cf_d=0.2, rho=0.5, level=0.9)
        se = m.framework.sensitivity_elements
        bounds(h, m.sensitivity_params, m.all_coef, m.framework.scaled_psi, se["max_bias"], se["psi_max_bias"], None, 0.125, 0.9,
               iid, name)
        params(h, m, 0.25, 0.2, 0.5, 0.9, np.zeros(nt), name)
        for i in range(nt):
            for r in range(nrep):
                a, b = se["max_bias"][0, i, r], m.sensitivity_elements
                v, w = b["sigma2"][0, r, i], b["nu2"][0, r, i]
                h.le(0.0, a, "bias bound sign")
                h.eq(a * a, v * w, "squared bias bound")
                h.eq(2 * a * se["psi_max_bias"][:, i, r], v * b["psi_nu2"][:, r, i] + w * b["psi_sigma2"][:, r, i], "bias score")
    return f


def clusters(ways=1, n=14, nrep=1):
    def f(h):
        cs = [C1[:n]] + ([C2[:n]] if ways == 2 else [])
        sp = [csplit(cs, [FOLD1[r], FOLD2[r]][:ways], [2, 2]) for r in range(nrep)]
        sm, sc = [a for a, _ in sp], [b for _, b in sp]
        y = h.arr([float(v) for v in num(11, n, -1, 2)])
        y[0] = h.real("y0")
        m, e, _ = build(h, "IRM", n=n, nrep=nrep, ycol=y, cluster=[np.array(c) for c in cs], sm=sm, smc=sc)
        m.fit(external_predictions=e)
        m.sensitivity_analysis(cf_y=0.25, cf_d=0.2, rho=0.5, level=0.9)
        se = m.framework.sensitivity_elements
        bounds(h, m.sensitivity_params, m.all_coef, m.framework.scaled_psi, se["max_bias"], se["psi_max_bias"], None, 0.125, 0.9,
               lambda p, i, r: spec_var(p, np.ones(n), cs, sm[r], sc[r])[0], "%d-way" % ways, nc=min(len(set(c)) for c in cs))
    return f


def orientation(h):
    """the error of a bound is that of its own influence function (the estimate's is minus the normalised score)"""
    y = h.arr([float(v) for v in num(11, 8, -1, 2)])
    y[0] = h.real("y0")
    m, e, dd = build(h, "IRM", ycol=y)
    m.fit(external_predictions=e)
    m.sensitivity_analysis(cf_y=0.25, cf_d=0.2, rho=0.5)
    se = m.framework.sensitivity_elements
    for key, sg in (("lower", -1), ("upper", 1)):
        p = -m.framework.scaled_psi[:, 0, 0] + sg * 0.125 * se["psi_max_bias"][:, 0, 0]
        x = m.sensitivity_params["se"][key][0]
        h.eq(x * x, mean(p * p) / 8, "influence function of the %s bound" % key)


def reject(h):
    o, d = framework(h, nt=2, nrep=1, n=2, sens=True)
    for tag, kw, ex in (("cf_y=1", dict(cf_y=1.0), ValueError), ("cf_d=1", dict(cf_d=1.0), ValueError), ("cf_y<0", dict(cf_y=-0.1), ValueError),
                        ("cf_d<0", dict(cf_d=-0.1), ValueError), ("rho>1", dict(rho=1.1), ValueError), ("rho<-1", dict(rho=-1.1), ValueError),
                        ("level=1", dict(level=1.0), ValueError), ("level=0", dict(level=0.0), ValueError), ("cf_y int", dict(cf_y=1), TypeError),
                        ("rho int", dict(rho=1), TypeError), ("null int", dict(null_hypothesis=1), TypeError),
                        ("null shape", dict(null_hypothesis=np.zeros(3)), ValueError)):
        h.raises(lambda: o.sensitivity_analysis(**kw), ex, tag)
    h.true(o.sensitivity_params is None, "a refused call stores nothing")
    p, _ = framework(h, nt=2, nrep=1, n=2, tag="x")
    h.raises(lambda: p.sensitivity_analysis(), NotImplementedError, "no sensitivity elements")
    for nm in ("PLIV", "IIVM"):
        m, e, _ = build(h, nm, ycol=num(3, 8, -1, 1))
        m.fit(external_predictions=e)
        h.raises(lambda: m.sensitivity_analysis(), NotImplementedError, nm + " has none")
    m, e, _ = build(h, "PLR", ycol=num(3, 8, -1, 1))
    h.raises(lambda: m.sensitivity_analysis(), ValueError, "before fit")


def scenarios(tier):
    out = []

    def add(name, fn, patches=IDLE, **kw):
        out.append(Scenario(name, fn, patches=(lambda h: patches if h.sym else {}), bounds=str(kw), known=kw.get("known")))
    add("symbolic-strength", sym)
    add("fixed-1rep", fixed(2, 1, 0.25, 0.2, -0.5, 0.125))
    add("fixed-2rep", fixed(2, 2, 0.25, 0.2, 0.5, 0.125, 0.8))
    add("fixed-3rep", fixed(1, 3, 0.25, 0.2, 1.0, 0.25, free=True))
    add("no-confounding", fixed(2, 1, 0.0, 0.2, 1.0, 0.0))
    add("no-confounding-d", fixed(2, 2, 0.5, 0.0, 1.0, 0.0))
    add("no-correlation", fixed(2, 1, 0.25, 0.2, 0.0, 0.0))
    add("full", fixed(1, 1, 0.5, 0.5, 1.0, 0.5 ** 0.5, n=3))
    for side in ("lower", "upper"):
        add("rv-" + side, rv(side, "theta"), SOLV)
        add("rv-2rep-" + side, rv(side, "theta", nrep=2, rho=-1.0), SOLV)
        add("rva-" + side, rv(side, "ci"), SOLV)
        add("rva-2rep-" + side, rv(side, "ci", nrep=2, rho=1.0, level=0.8), SOLV)
    for nm in ("PLR", "PLR-IV", "IRM", "ATTE", "APO", "DID", "DIDCS"):
        add("model-" + nm, mdl(nm))
    add("model-PLR-2", mdl("PLR", 2, 2))
    add("model-IRM-2", mdl("IRM", 2))
    add("cluster1", clusters(1))
    add("cluster2", clusters(2))
    add("cluster1-2rep", clusters(1, nrep=2))
    add("cluster2-2rep", clusters(2, nrep=2))
    add("reject", reject)
    add("orientation", orientation, known="sensitivity-se-orientation")
    return out

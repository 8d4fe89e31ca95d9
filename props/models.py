"""Every model class as an unfitted object over given outcomes with given external predictions, for the properties that
are about what happens after the nuisance part."""
from props.common import *

# eight rows, treatment / instrument / selection / time patterns that keep every cell of a 2-fold split inhabited
D8 = np.array([0, 1, 1, 0, 1, 0, 1, 0, 1, 0, 0, 1, 1, 0], float)
Z8 = np.array([0, 0, 1, 1, 1, 0, 1, 0, 0, 1, 1, 0, 1, 0], float)
S8 = np.array([1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 0, 1, 1, 1], float)
T8 = np.array([0, 0, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 1, 0], float)


def num(seed, shape, lo, hi):
    """fixed dyadic numbers in [lo, hi]"""
    shape = (shape,) if isinstance(shape, int) else shape
    k = int(np.prod(shape))
    v = [((i * 7 + seed * 5 + (i * i + seed) % 5) % 16) / 16.0 for i in range(k)]
    a = np.array([lo + (hi - lo) * x for x in v]).reshape(shape)
    return np.round(a * 64) / 64


NAMES = ("PLR", "PLR-IV", "PLIV", "IRM", "ATTE", "APO", "IIVM", "SSM", "DID", "DIDCS")


def build(h, name, n=8, nrep=1, k=2, ntreat=1, cluster=None, ycol=None, sm=None, style="mod", smc=None, trim=0.01, dval=None,
          seed=0, nf=None):
    """(model, external predictions, data)"""
    if name == "APO":
        n = 10
    y = h.reals("y", n) if ycol is None else ycol
    bin_d, Z, Ssel, T = D8[:n], Z8[:n], S8[:n], T8[:n]
    kw = dict(n_folds=k if nf is None else nf, n_rep=nrep, draw_sample_splitting=False)
    E = lambda s, lo=-1.0, hi=1.5: num(seed + s, (n, nrep), lo, hi)
    P_ = lambda s: num(seed + s, (n, nrep), 0.3, 0.7)
    cl = dict(cluster=cluster)
    if name in ("PLR", "PLR-IV"):
        ds = [num(seed + 3 + 4 * i, n, -1.0, 2.0) for i in range(ntreat)] if dval is None else dval
        dd = data(y, ds, **cl)
        kw.update(score="IV-type", ml_g=StubReg("g")) if name == "PLR-IV" else None
        m = dml.DoubleMLPLR(dd, StubReg("l"), StubReg("m"), **kw)
        e = {dn: {"ml_l": E(5 + i), "ml_m": E(9 + i)} for i, dn in enumerate(dd.d_cols)}
        if name == "PLR-IV":
            for i, dn in enumerate(dd.d_cols):
                e[dn]["ml_g"] = E(2 + i)
    elif name == "PLIV":
        ds = [num(seed + 3 + 4 * i, n, -1.0, 2.0) for i in range(ntreat)]
        dd = data(y, ds, z=num(seed + 6, n, -1.0, 1.0), **cl)
        m = dml.DoubleMLPLIV(dd, StubReg("l"), StubReg("m"), StubReg("r"), **kw)
        e = {dn: {"ml_l": E(5 + i), "ml_m": E(9 + i), "ml_r": E(2 + i)} for i, dn in enumerate(dd.d_cols)}
    elif name in ("IRM", "ATTE"):
        dd = data(y, bin_d, **cl)
        m = dml.DoubleMLIRM(dd, StubReg("g"), StubClf("m"), score="ATE" if name == "IRM" else "ATTE", **kw)
        e = {"d": {"ml_g0": E(5), "ml_g1": E(9), "ml_m": P_(2)}}
    elif name == "APO":
        dd = data(y, bin_d, **cl)
        m = dml.DoubleMLAPO(dd, StubReg("g"), StubClf("m"), treatment_level=1, **kw)
        e = {"d": {"ml_g_d_lvl0": E(5), "ml_g_d_lvl1": E(9), "ml_m": P_(2)}}
    elif name == "IIVM":
        dd = data(y, bin_d, z=Z, **cl)
        m = dml.DoubleMLIIVM(dd, StubReg("g"), StubClf("m"), StubClf("r"), **kw)
        e = {"d": {"ml_g0": E(5), "ml_g1": E(9), "ml_m": P_(2), "ml_r0": P_(3) / 4, "ml_r1": P_(7)}}
    elif name == "SSM":
        dd = data(y, bin_d, s=Ssel, **cl)
        m = dml.DoubleMLSSM(dd, StubReg("g"), StubClf("pi"), StubClf("m"), **kw)
        e = None  # not supported by this model: the stub learners predict
        h.cache[("range", "m")] = h.cache[("range", "pi")] = (0.3, 0.7)
    elif name == "DID":
        dd = data(y, bin_d, **cl)
        m = dml.DoubleMLDID(dd, StubReg("g"), StubClf("m"), **kw)
        e = {"d": {"ml_g0": E(5), "ml_g1": E(9), "ml_m": P_(2)}}
    elif name == "DIDCS":
        dd = data(y, bin_d, t=T, **cl)
        m = dml.DoubleMLDIDCS(dd, StubReg("g"), StubClf("m"), **kw)
        e = {"d": {"ml_m": P_(2), **{"ml_g_d%d_t%d" % (a, b): E(5 + 3 * a + b) for a in (0, 1) for b in (0, 1)}}}
    else:
        raise KeyError(name)
    if sm is None:
        sm = splits(n, k, nrep, style)
    if cluster is None:
        m.set_sample_splitting(sm)
    else:
        m.set_sample_splitting(sm, smc)
    return m, e, dd

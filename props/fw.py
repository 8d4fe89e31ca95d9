"""Framework objects over arbitrary numbers."""
from props.models import *
from doubleml.double_ml_framework import DoubleMLFramework, concat  # noqa: F401


def raw(h, nt=2, nrep=1, n=4, tag="", ses=(0.25, 2), sens=False, bench=False, scal=None, psi=True, th=True, free=False):
    """the dictionary a model hands over: estimates, standard errors and normalised scores all arbitrary"""
    T = h.reals("th" + tag, (nt, nrep)) if th else num(len(tag) + 1, (nt, nrep), -1, 2)
    s = h.reals("se" + tag, (nt, nrep), *ses) if ses is not None else num(4, (nt, nrep), 0.25, 1)
    p = h.reals("psi" + tag, (n, nt, nrep)) if psi else num(7, (n, nt, nrep), -1, 1)
    v = np.array([float(n)] * nt) if scal is None else np.array(scal, float)
    out = {"all_thetas": T, "all_ses": s, "scaled_psi": p, "var_scaling_factors": v, "is_cluster_data": False}
    if free:  # aggregates independent of the repetitions (nothing may depend on their being consistent)
        out["thetas"], out["ses"] = h.reals("agg_th" + tag, nt), h.reals("agg_se" + tag, nt, 0.25, 2)
        return extra(h, out, n, nt, nrep, tag, sens, bench)
    ag = [agg(h, T[i], s[i], v[i]) for i in range(nt)]
    out["thetas"] = h.arr([a for a, _ in ag])
    out["ses"] = h.arr([b for _, b in ag])
    return extra(h, out, n, nt, nrep, tag, sens, bench)


def extra(h, out, n, nt, nrep, tag, sens, bench):
    if sens:
        out["sensitivity_elements"] = {"max_bias": h.reals("mb" + tag, (1, nt, nrep), 0.125, 2),
                                       "psi_max_bias": h.reals("pmb" + tag, (n, nt, nrep))}
        if bench:
            out["sensitivity_elements"]["sigma2"] = h.reals("s2" + tag, (1, nt, nrep), 0.25, 2)
            out["sensitivity_elements"]["nu2"] = h.reals("n2" + tag, (1, nt, nrep), 0.25, 2)
    return out


def sqrt_(x):
    return x.sqrt() if isinstance(x, S.SymReal) else float(np.sqrt(x))


def agg(h, th, se, n):
    """median over repetitions; variance = median of squared error plus squared deviation over n"""
    th, se = list(obj(th)), list(obj(se))
    t = median(th)
    v = median([s * s + (x - t) * (x - t) / float(n) for s, x in zip(se, th)])
    return t, sqrt_(v)


def copyd(d):
    return {k: ({a: b.copy() for a, b in v.items()} if isinstance(v, dict) else (v.copy() if hasattr(v, "copy") else v))
            for k, v in d.items()}


def framework(h, **kw):
    d = raw(h, **kw)
    return DoubleMLFramework(copyd(d)), d

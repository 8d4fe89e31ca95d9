"""results depend on data, learners, splits and arguments, not on what was called before"""
import warnings

import pandas as pd

from props.c10 import make
from props.c20 import IDLE
from props.c29 import basis, regression
from props.draws import drawing
from props.fw import *

SYMMETRIC = ("coef", "se", "all_coef", "all_se", "psi", "psi_deriv")


def cp(v):
    if v is None:
        return None
    if isinstance(v, dict):
        return {k: cp(x) for k, x in v.items()}
    return np.array(obj(v), dtype=object) if np.ndim(v) else v


def snap(m, pred=True):
    """everything a fit leaves behind"""
    s = {k: cp(getattr(m, k)) for k in SYMMETRIC}
    s["elements"], s["sens"], s["loss"] = cp(m.psi_elements), cp(m.sensitivity_elements), cp(m.nuisance_loss)
    if pred:
        s["pred"], s["target"] = cp(m.predictions), cp(m.nuisance_targets)
    s["framework"] = fsnap(m.framework)
    s["pval"] = cp(m.pval)
    s["ci"] = cp(m.confint().values)
    return s


def fsnap(f):
    s = {k: cp(getattr(f, k)) for k in ("thetas", "ses", "all_thetas", "all_ses", "var_scaling_factors", "scaled_psi")}
    try:
        s["sens"] = cp(f.sensitivity_elements)
    except AttributeError:
        s["sens"] = None
    return s


def same(h, a, b, tag, keys=None):
    if isinstance(a, dict) or isinstance(b, dict):
        h.true(isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b), tag + ": parts")
        for k in a:
            if isinstance(b, dict) and k in b:
                same(h, a[k], b[k], "%s %s" % (tag, k))
        return
    if a is None or b is None:
        return h.true(a is None and b is None, tag)
    h.eq(a, b, tag)


def inputs(h, name, nrep=1, nt=1, n=8, **kw):
    n = 10 if name == "APO" else n
    y = num(11, n, -1, 2).astype(object)
    y[1], y[0] = h.real("y1"), h.real("y0")
    return build(h, name, n=n, nrep=nrep, ntreat=nt, ycol=h.arr(list(y)), **kw)


def other(e, shift):
    """another set of external predictions"""
    return None if e is None else {d: {k: np.clip(v + shift, 0.2, 0.8) if k.split("_")[1] in ("m", "r0", "r1") and v.min() > 0 else v + shift for k, v in x.items()}
                                   for d, x in e.items()}


def refit(name, nrep=1, nt=1):
    """same call, same results; another call, the results of a new object; the frameworks of earlier fits stay"""
    def f(h):
        m, e, _ = inputs(h, name, nrep, nt)
        e2 = other(e, 0.0625)
        kw = {} if e is None else {"external_predictions": e}
        kw2 = {} if e is None else {"external_predictions": e2}
        h.true(m.framework is None, "nothing before the fit")
        m.fit(**kw)
        s1, f1 = snap(m), m.framework
        m.fit(**kw)
        same(h, snap(m), s1, "fitted again:")
        same(h, fsnap(f1), s1["framework"], "framework of the first fit:")
        m.fit(**kw2)
        p, _, _ = inputs(h, name, nrep, nt)
        p.fit(**kw2)
        s2 = snap(p)
        same(h, snap(m), s2, "fitted anew:")
        same(h, fsnap(f1), s1["framework"], "framework of the first fit after another one:")
        m.fit(**kw)
        same(h, snap(m), s1, "fitted as at first:")
        same(h, snap(p), s2, "the other object:")
    return f


def learners(name, nrep=1, nt=1, n=8):
    """the same with estimated parts, some of them external in between"""
    def f(h):
        m = make(h, name, n, nrep, 2, nt, None, "reg")[0]
        m.set_sample_splitting(splits(n, 2, nrep, "blocks"))
        m.fit()
        s1, f1 = snap(m), m.framework
        if m._external_predictions_implemented:
            part = m.params_names[-1]
            m.fit(external_predictions={d: {part: num(3, (n, nrep), 0.3, 0.7)} for d in m._dml_data.d_cols})
            same(h, fsnap(f1), s1["framework"], "framework of the first fit:")
        m.fit(store_models=True, store_predictions=False)
        same(h, snap(m, False), {k: v for k, v in s1.items() if k not in ("pred", "target")}, "fitted again:")
        m.fit()
        same(h, snap(m), s1, "fitted a third time:")
    return f


def queries(name, nrep=1, nt=1):
    """questions do not change the answers"""
    def f(h):
        m, e, dd = inputs(h, name, nrep, nt)
        n = dd.n_obs
        kw = {} if e is None else {"external_predictions": e}
        m.fit(**kw)
        s = snap(m)
        roles = lambda: (list(dd.d_cols), list(dd.x_cols), dd.y_col, cp(dd.y), cp(dd.d), cp(dd.x))
        r0 = roles()
        with drawing(h, fixed=lambda kind, k, ix: (ix[0] * 3 + ix[1] + k) % 4 - 1.5):
            m.bootstrap(n_rep_boot=2)
        bt = cp(m.boot_t_stat)
        if nt > 1 or nrep == 1:
            m.confint(joint=nrep == 1, level=0.8)
        m.confint(level=0.5)
        m.summary
        m.evaluate_learners(metric=lambda y_true, y_pred: 1.0)
        if m._sensitivity_implemented:
            m.sensitivity_analysis(cf_y=0.25, cf_d=0.2, rho=0.5)
            m.sensitivity_summary
        if nt == 1 and nrep == 1:
            if name in ("IRM", "PLR"):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    m.gate(pd.DataFrame({"g": [i % 2 == 0 for i in range(n)], "k": [i % 2 == 1 for i in range(n)]}))
                    m.cate(basis(n, 2)[0])
        m.construct_framework()
        str(m)
        same(h, snap(m), s, "afterwards:")
        same(h, cp(m.boot_t_stat), bt, "bootstrap afterwards:")
        r1 = roles()
        h.true(r0[:3] == r1[:3], "roles of the data afterwards")
        for a, b in zip(r0[3:], r1[3:]):
            same(h, b, a, "data afterwards:")
        # another fit withdraws what was derived from the last one
        m.fit(**kw)
        same(h, snap(m), s, "fitted again:")
        h.true(m.boot_t_stat is None and m.n_rep_boot is None and m.boot_method is None, "no bootstrap after another fit")
        h.raises(lambda: m.confint(joint=True), ValueError, "no joint intervals after another fit")
        if m._sensitivity_implemented:
            h.true(m.sensitivity_params is None, "no sensitivity analysis after another fit")
    return f


def resplit(name, nt=1):
    """another sample split withdraws the results"""
    def f(h):
        n = 16 if name in ("SSM", "IIVM", "DIDCS") else 12
        m = make(h, name, n, 1, 2, nt, None, "reg")[0]
        m.set_sample_splitting(splits(n, 2, 1, "blocks"))
        m.fit()
        m.set_sample_splitting(splits(n, 2, 2, "mod") if name in ("PLR", "IRM", "PLIV") else splits(n, 2, 2, "blocks"))
        h.true(m.n_rep == 2 and all(v != v for v in obj(m.coef).ravel()) and all(v != v for v in obj(m.all_se).ravel()) and obj(m.all_coef).shape == (nt, 2), "estimates withdrawn")
        h.true(len(m.summary) == 0, "no summary")
        h.raises(lambda: m.confint(), ValueError, "no intervals")
        h.raises(lambda: m.bootstrap(), ValueError, "no bootstrap")
        m.fit()
        p = make(h, name, n, 2, 2, nt, None, "reg")[0]
        p.set_sample_splitting(splits(n, 2, 2, "mod") if name in ("PLR", "IRM", "PLIV") else splits(n, 2, 2, "blocks"))
        p.fit()
        same(h, snap(m), snap(p), "fitted on the new split:")
    return f


def shared(h):
    """two models on one data object"""
    n = 8
    y = num(11, n, -1, 2).astype(object)
    y[0] = h.real("y0")
    ds = [num(3 + 4 * i, n, -1.0, 2.0) for i in range(2)]
    h.cache["free_rows"] = (1,)
    mk = lambda dd: dml.DoubleMLPLR(dd, StubReg("l"), StubReg("m"), n_folds=2, draw_sample_splitting=False)
    dd = data(h.arr(list(y)), ds)
    a, b = mk(dd), mk(dd)
    a.set_sample_splitting(splits(n, 2, 1, "mod"))
    b.set_sample_splitting(splits(n, 2, 1, "blocks"))
    a.fit()
    s = snap(a)
    b.fit()
    sb = snap(b)
    same(h, snap(a), s, "first model after the second:")
    a.fit()
    same(h, snap(a), s, "first model again:")
    same(h, snap(b), sb, "second model after the first:")
    dd.set_x_d("d2")
    b.fit()
    same(h, snap(b), sb, "whatever treatment is active:")


def levels(h):
    n = 15
    d = np.array([0, 1, 2] * 5, float)
    y = num(11, n, -1, 2).astype(object)
    y[1], y[0] = h.real("y1"), h.real("y0")
    m = dml.DoubleMLAPOS(data(h.arr(list(y)), d), StubReg("g"), StubClf("m"), treatment_levels=[0.0, 1.0, 2.0], n_folds=2, draw_sample_splitting=False)
    m.set_sample_splitting(splits(n, 2, 1, "mod"))
    e = lambda s: {l: {k: num(int(3 * l) + q + s, (n, 1), -1, 1.5) if k != "ml_m" else num(int(l) + s, (n, 1), 0.3, 0.7)
                       for q, k in enumerate(("ml_g_d_lvl0", "ml_g_d_lvl1", "ml_m"))} for l in (0.0, 1.0, 2.0)}
    m.fit(external_predictions=e(0))
    s, f1, c = fsnap(m.framework), m.framework, m.causal_contrast(reference_levels=[0.0])
    sc = fsnap(c)
    m.causal_contrast(reference_levels=[2.0])
    m.summary
    same(h, fsnap(m.framework), s, "after contrasts:")
    m.fit(external_predictions=e(1))
    same(h, fsnap(f1), s, "framework of the first fit:")
    same(h, fsnap(c), sc, "contrast of the first fit:")
    m.fit(external_predictions=e(0))
    same(h, fsnap(m.framework), s, "fitted as at first:")


def algebra(h):
    """frameworks as operands and results"""
    a, da = framework(h, nt=2, nrep=2, n=2, sens=True, free=True, tag="a")
    b, db = framework(h, nt=2, nrep=2, n=2, sens=True, free=True, tag="b")
    sa, sb = fsnap(a), fsnap(b)
    with drawing(h, fixed=lambda kind, k, ix: (ix[0] * 3 + ix[1] + k) % 4 - 1.5):
        a.bootstrap(n_rep_boot=2)
    bt = cp(a.boot_t_stat)
    c = concat([a, b])
    t = 2.0 * a
    s = fsnap(c)
    st = fsnap(t)
    c.sensitivity_analysis(cf_y=0.25, cf_d=0.2, rho=0.5)
    t.confint(level=0.9)
    h.true(c.boot_t_stat is None and t.boot_t_stat is None, "results carry no bootstrap of their operands")
    h.true(a.sensitivity_params is None and t.sensitivity_params is None, "an analysis belongs to its object")
    same(h, fsnap(a), sa, "operand")
    same(h, fsnap(b), sb, "other operand")
    same(h, fsnap(c), s, "joined")
    same(h, fsnap(t), st, "multiplied")
    same(h, cp(a.boot_t_stat), bt, "bootstrap of the operand")


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, patches=(lambda h: dict(IDLE, **regression(h)) if h.sym else {}), bounds=str(kw)))
    for nm in NAMES:
        add("refit-" + nm, refit(nm))
        add("queries-" + nm, queries(nm))
    for nm in ("PLR", "PLIV"):
        add("refit-%s-2treat-2rep" % nm, refit(nm, 2, 2))
    add("refit-IRM-2rep", refit("IRM", 2))
    add("queries-PLR-2treat-2rep", queries("PLR", 2, 2))
    for nm in ("PLR", "PLR-IV", "PLIV", "IRM", "APO", "IIVM", "SSM", "DID", "DIDCS"):
        big = nm in ("SSM", "IIVM", "DIDCS")
        add("learners-" + nm, learners(nm, n=16 if big else 12))
        add("resplit-" + nm, resplit(nm))
    add("learners-PLR-2treat-2rep", learners("PLR", 2, 2))
    add("resplit-PLR-2treat", resplit("PLR", 2))
    add("shared-data", shared)
    add("levels", levels)
    add("algebra", algebra)
    return out

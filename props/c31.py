"""learner evaluation: nuisance losses, stored targets and evaluate_learners"""
from props.c10 import TABLE, make
from props.models import *


def sq(x):
    return x * x


def nan_rows(v):
    return [i for i, e in enumerate(obj(v)) if S.is_nan(e)]


def rmse2(y, p):
    return mean([sq(a - b) for a, b in zip(y, p)])


def logloss(h, y, p):
    lg = h.np.log
    return -1.0 * mean([t * lg(q) + (1 - t) * lg(1 - q) if 0.0 < t < 1.0 else (lg(q) if t else lg(1 - q)) for t, q in zip(y, p)])


def column(h, v):
    return obj(v)


def body(name, n=12, nrep=1, k=2, ntreat=1, kind="reg", models=False, evaluate=True):
    def f(h):
        m, y, d, z, s, t = make(h, name, n, nrep, k, ntreat, None, kind)
        h.raises(lambda: m.evaluate_learners(), ValueError, "before the fit")
        sm = splits(n, k, nrep, "mod" if name in ("PLR", "IRM") else "blocks")
        m.set_sample_splitting(sm)
        m.fit(store_models=models)
        h.true(set(m.nuisance_loss) == set(m.params_names) == set(m.nuisance_targets), "one loss per learner")
        cols = {"y": y, "z": h.cache.get(("col", "z")), "s": s, "t": t}
        seen = []

        def metric(y_true, y_pred):
            seen.append((np.shape(y_true), np.shape(y_pred), obj(y_true)[0], obj(y_pred)[0]))
            return float(len(seen))
        known = {q[0]: q for q in TABLE[name]}
        want = {}
        for i in range(ntreat):
            dc = m._dml_data.d_cols[i]
            for pn in m.params_names:
                if pn not in known:  # the target is no column of the data: whatever was stored is what is evaluated
                    for r in range(nrep):
                        T, Pd = obj(m.nuisance_targets[pn][:, r, i]), obj(m.predictions[pn][:, r, i])
                        want[(pn, r, i)] = (T, Pd, list(range(n)), False)
                    continue
                _, tag, sig, pk, cond = known[pn]
                sub = cond(d, z, s, t) if d.dtype != object else np.ones(n, bool)
                clf = (pk == "clf") or (tag == "g" and kind == "clf")
                col = h.cache[("col", dc if sig == "d" else sig)]
                if name == "APO" and pn == "ml_m":
                    col = (d == 1) * 1.0
                for r in range(nrep):
                    T = obj(m.nuisance_targets[pn][:, r, i])
                    h.true(nan_rows(T) == [q for q in range(n) if not sub[q]], "%s: targets are kept for the rows of its subsample only" % pn)
                    for q in range(n):
                        if sub[q]:
                            h.eq(T[q], obj(col)[q], "%s: target of row %d" % (pn, q))
                    want[(pn, r, i)] = (T, obj(m.predictions[pn][:, r, i]), [q for q in range(n) if sub[q]], clf)
        for (pn, r, i), (T, Pd, rows, clf) in want.items():
            L = obj(m.nuisance_loss[pn])
            h.true(L.shape == (nrep, ntreat), pn + ": shape of the losses")
            a, b = [T[q] for q in rows], [Pd[q] for q in rows]
            if clf:
                h.eq(L[r, i], logloss(h, a, b), "%s: log loss, repetition %d, treatment %d" % (pn, r, i))
            else:
                h.eq(sq(L[r, i]), rmse2(a, b), "%s: squared loss, repetition %d, treatment %d" % (pn, r, i))
                h.le(0.0, L[r, i], "%s: loss" % pn)
        if not evaluate:
            return
        ev = m.evaluate_learners()
        h.true(list(ev) == list(m.params_names), "evaluated learners")
        for (pn, r, i), (T, Pd, rows, clf) in want.items():
            h.true(np.shape(ev[pn]) == (nrep, ntreat), pn + ": shape of the evaluation")
            h.eq(sq(obj(ev[pn])[r, i]), rmse2([T[q] for q in rows], [Pd[q] for q in rows]), "%s: squared RMSE, repetition %d, treatment %d" % (pn, r, i))
        # a metric of the user's own: called once per learner, repetition and treatment with what was stored
        sel = list(m.params_names)[::-1][:2]
        ev = m.evaluate_learners(learners=sel, metric=metric)
        h.true(list(ev) == sel, "chosen learners")
        h.true(len(seen) == len(sel) * nrep * ntreat, "number of evaluations")
        for pn in sel:
            for r in range(nrep):
                for i in range(ntreat):
                    c = int(float(obj(ev[pn])[r, i])) - 1
                    T, Pd, rows, clf = want[(pn, r, i)]
                    h.true(seen[c][0] == (1, n) and seen[c][1] == (1, n), "shape of what the metric is given")
                    h.true(nan_rows(seen[c][2]) == nan_rows(T), "missing targets the metric is given")
                    for q in range(n):
                        if not S.is_nan(T[q]):
                            h.eq(seen[c][2][q], T[q], "%s: y_true[%d]" % (pn, q))
                        h.eq(seen[c][3][q], Pd[q], "%s: y_pred[%d]" % (pn, q))
        h.raises(lambda: m.evaluate_learners(metric=lambda y_true, y_pred: float("nan")), ValueError, "value that is not finite")
        h.raises(lambda: m.evaluate_learners(metric=lambda y_true, y_pred: float("inf")), ValueError, "infinite value")
        h.raises(lambda: m.evaluate_learners(metric="mse"), TypeError, "metric that cannot be called")
        h.raises(lambda: m.evaluate_learners(learners=["ml_unknown"]), ValueError, "unknown learner")
        h.raises(lambda: m.evaluate_learners(learners=[sel[0], "ml_unknown"]), ValueError, "one unknown learner")
    return f


def external(name):
    """no target is known for an external prediction: its loss is missing, and it cannot be evaluated"""
    def f(h):
        m, e, dd = build(h, name, ycol=fewy(h, 10 if name == "APO" else 8))
        m.fit(external_predictions=e)
        dn = dd.d_cols[0]
        for pn in e[dn]:
            if name == "APO":
                continue
            v = obj(m.nuisance_loss[pn])
            h.true(v.shape == (1, 1) and S.is_nan(v[0, 0]), pn + ": no loss")
            h.raises(lambda: m.evaluate_learners(learners=[pn]), ValueError, pn + ": cannot be evaluated")
        if name == "APO":  # the outcomes and levels of the rows concerned are known here
            for pn, want in (("ml_g_d_lvl0", 0.0), ("ml_g_d_lvl1", 1.0)):
                rows = [q for q in range(10) if D8[q] == want]
                y = h.cache[("col", "y")]
                h.eq(sq(obj(m.nuisance_loss[pn])[0, 0]), rmse2([obj(y)[q] for q in rows], [e[dn][pn][q, 0] for q in rows]), pn + ": squared loss")
    return f


def fewy(h, n):
    v = num(3, n, -1, 2).astype(object)
    for i in (1, 2):
        v[i] = h.real("y%d" % i, -1, 2)
    return h.arr(list(v))


def mixed(h):
    """one learner external, the others fitted"""
    m, e, dd = build(h, "IRM", ycol=fewy(h, 8))
    h.cache["free_rows"] = (1, 6)
    h.cache[("range", "m")] = (0.25, 0.75)
    m.fit(external_predictions={"d": {"ml_g0": e["d"]["ml_g0"]}})
    v = {k: obj(x)[0, 0] for k, x in m.nuisance_loss.items()}
    h.true(S.is_nan(v["ml_g0"]), "external: no loss")
    rows = [q for q in range(8) if D8[q] == 1]
    P1, Pm = obj(m.predictions["ml_g1"])[:, 0, 0], obj(m.predictions["ml_m"])[:, 0, 0]
    y = obj(h.cache[("col", "y")])
    h.eq(sq(v["ml_g1"]), rmse2([y[q] for q in rows], [P1[q] for q in rows]), "fitted: squared loss")
    h.eq(v["ml_m"], logloss(h, list(D8[:8]), list(Pm)), "fitted: log loss")
    h.raises(lambda: m.evaluate_learners(), ValueError, "one of them has no target")
    ev = m.evaluate_learners(learners=["ml_g1"])
    h.eq(sq(obj(ev["ml_g1"])[0, 0]), sq(v["ml_g1"]), "evaluation of the other")


def extreme(h):
    """propensities of exactly zero or one: finite log loss (1e-15)"""
    n = 8
    p = h.real("p", 0.25, 0.75)
    h.cache["free_rows"] = ()
    d = D8[:n]
    # predictions of the stub: the constant p for m, with trimming off the exact 0/1 stay
    m = dml.DoubleMLIRM(data(fewy(h, n), d), StubReg("g"), Extreme("m"), n_folds=2, draw_sample_splitting=False, trimming_threshold=0.01)
    m.set_sample_splitting(splits(n, 2, 1, "mod"))
    h.cache["extreme"] = p
    m.fit()
    L = obj(m.nuisance_loss["ml_m"])[0, 0]
    Pm = obj(m.predictions["ml_m"])[:, 0, 0]
    cl = [q if isinstance(q, S.SymReal) else min(max(float(q), 1e-15), 1 - 1e-15) for q in Pm]
    h.eq(L, logloss(h, list(d), cl), "log loss")


class Extreme(StubClf):
    def _pred(self, X):
        from symx.harness import H_
        from symx.lib import _rows
        h = H_()
        return h.arr([(0.0, 1.0)[i % 2] if i in (3, 4) else h.cache["extreme"] for i in _rows(X)])


def models_nan(h):
    """nothing is stored when predictions are not stored, the losses are"""
    m, y, d, z, s, t = make(h, "PLR", 8, 1, 2, 1, None, "reg")
    m.set_sample_splitting(splits(8, 2, 1, "mod"))
    m.fit()
    a = {k: obj(v)[0, 0] for k, v in m.nuisance_loss.items()}
    m.fit(store_predictions=False)
    b = {k: obj(v)[0, 0] for k, v in m.nuisance_loss.items()}
    for k in a:
        if not S.is_nan(a[k]):
            h.eq(b[k], a[k], k + ": same loss without storing")


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, bounds=name, **kw))
    size = lambda m: 12 if m in ("SSM", "IIVM", "DIDCS") else (10 if m == "APO" else 8)
    for m in TABLE:
        add(m, body(m, n=size(m)))
        add(m + "-2rep", body(m, n=16 if size(m) == 12 else 12, nrep=2, models=m in ("IRM", "SSM")))
    for m in ("IRM", "APO", "IIVM", "SSM", "DID", "DIDCS"):
        add(m + "-binary", body(m, n=size(m), kind="clf"))
    add("PLR-2treat", body("PLR", n=8, ntreat=2, nrep=2))
    add("PLR-binary-d", body("PLR", n=8, kind="clf"))
    for m in ("PLR", "PLIV", "IRM", "APO", "IIVM", "DID", "DIDCS"):
        add("external-" + m, external(m))
    add("mixed", mixed)
    add("extreme", extreme)
    add("not-stored", models_nan)
    return out

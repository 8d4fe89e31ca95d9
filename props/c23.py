"""externally supplied nuisance predictions"""
import itertools

from props.c10 import TABLE, make
from props.models import *

PROP = ("ml_m", "ml_r0", "ml_r1")
FIX = {"IIVM": [(), (0,), (1, 2), (0, 1), (3,), (4,), (3, 4), (0, 1, 2, 3, 4), (2,)],
       "DIDCS": [(), (0,), (1,), (2,), (3,), (4,), (0, 3), (0, 1, 2, 3), (0, 1, 2, 3, 4)]}


def subsets(name):
    k = len(TABLE[name]) + (name == "PLR-IV")
    return FIX.get(name) or [s for j in range(k + 1) for s in itertools.combinations(range(k), j)]


def extv(h, nm, n, nrep, prop, seed):
    v = num(seed, (n, nrep), *((0.3, 0.7) if prop else (-1.0, 1.5))).astype(object)
    for r in range(nrep):
        for i in (1, 6):
            v[i, r] = h.real("E%s[%d,%d]" % (nm, i, r), *((0.3, 0.7) if prop else (-1.0, 1.5)))
    a = np.empty((n, nrep), dtype=object)
    a[:] = v
    return h.arr(a)


def body(name, n=8, nrep=2, k=2, ntreat=1, which=None, models=False, partial=False):
    def f(h):
        m, y, d, z, s, t = make(h, name, n, nrep, k, ntreat, None, "reg")
        parts = list(TABLE[name]) + ([("ml_g", "g", None, "reg", None)] if name == "PLR-IV" else [])
        sub = h.pick(which or subsets(name), "external")
        E = {}
        for i, dc in enumerate(m._dml_data.d_cols):
            if partial and i == 0:
                continue
            E[dc] = {parts[j][0]: extv(h, dc + parts[j][0], n, nrep, parts[j][0] in PROP and name not in ("PLR", "PLR-IV", "PLIV"), 3 + j + 5 * i) for j in sub}
        keep = {dc: {q: obj(v).copy() for q, v in e.items()} for dc, e in E.items()}
        sm = splits(n, k, nrep, "mod" if name in ("PLR", "IRM") else "blocks")
        m.set_sample_splitting(sm)
        m.fit(external_predictions=E, store_models=models)
        for dc, e in E.items():
            h.true(set(e) == set(keep[dc]), "the supplied dictionary keeps its keys")
            for q, v in e.items():
                h.eq(v, h.arr(keep[dc][q]), "the supplied predictions stay as they are")
        for i, dc in enumerate(m._dml_data.d_cols):
            for pn, tag, sig, pk, cond in parts:
                for r in range(nrep):
                    if pn in E.get(dc, {}):
                        h.eq(m.predictions[pn][:, r, i], h.arr(keep[dc][pn][:, r]), "%s of treatment %d, repetition %d" % (pn, i, r))
                        if models:
                            h.true(m.models[pn][dc][r] is None, "no model for a supplied prediction")
                    elif sig is not None and not (pn == "ml_l" and name == "PLR-IV" and "ml_g" in E.get(dc, {})):
                        c = cond(d, z, s, t)
                        sg = dc if (name[:3] == "PLR" and sig == "d") else sig
                        h.eq(m.predictions[pn][:, r, i], cf_pred(tag, sg, sm[r], n, pk, sub=None if c.all() else c), "%s is estimated" % pn)
        nf = {}
        for pn, tag, sig, pk, cond in parts:
            for dc in m._dml_data.d_cols:
                e = E.get(dc, {})
                if pn not in e and not (pn == "ml_l" and name == "PLR-IV" and "ml_g" in e):
                    nf[tag] = nf.get(tag, 0) + nrep * k
        for tag in {q[1] for q in parts}:
            h.true(len([1 for ft in h.fits if ft["tag"] == tag]) == nf.get(tag, 0), "fits of %s: only for what is not supplied" % tag)
        # handing the model's own predictions back reproduces it without any fit
        if not (name == "PLR-IV" and len(sub) and "ml_g" in E[m._dml_data.d_cols[-1]] and "ml_l" not in E[m._dml_data.d_cols[-1]]):
            m2 = make(h, name, n, nrep, k, ntreat, None, "reg")[0]
            m2.set_sample_splitting(sm)
            h.fits.clear()
            m2.fit(external_predictions={dc: {p[0]: m.predictions[p[0]][:, :, i] for p in parts} for i, dc in enumerate(m._dml_data.d_cols)})
            h.true(not h.fits, "no learner is fitted when everything is supplied")
            h.eq(m2.all_coef, m.all_coef, "same estimates from the model's own predictions")
            for q in ("psi_a", "psi_b"):
                h.eq(m2.psi_elements[q], m.psi_elements[q], "same score from the model's own predictions")
    return f


def apos(sub, learners, nrep=2):
    """joint model of several treatment levels: predictions given by level"""
    def f(h):
        n = 15
        lv = [0.0, 1.0, 2.0]
        d = np.array([0, 1, 2] * 5, float)
        h.cache["free_rows"] = (1, 6)
        h.cache[("range", "m")] = (0.25, 0.75)
        y = num(3, n, -1, 2)
        sm = splits(n, 3, nrep, "blocks")
        m = dml.DoubleMLAPOS(data(y, d), StubReg("g"), StubClf("m"), treatment_levels=lv, n_folds=3, n_rep=nrep, draw_sample_splitting=False)
        m.set_sample_splitting(sm)
        E = {l: {q: extv(h, "%g%s" % (l, q), n, nrep, q == "ml_m", 2 + i + 3 * j) for j, q in enumerate(learners)} for i, l in enumerate(lv) if l in sub}
        for l in lv:
            h.cache[("target", "treated%g" % l)] = (d == l) * 1.0
        m.fit(external_predictions=E)
        for i, l in enumerate(lv):
            o = m.modellist[i]
            for pn, tag, cond, kind in (("ml_g_d_lvl0", "g", d != l, "reg"), ("ml_g_d_lvl1", "g", d == l, "reg"), ("ml_m", "m", None, "clf")):
                for r in range(nrep):
                    if pn in E.get(l, {}):
                        h.eq(o.predictions[pn][:, r, 0], E[l][pn][:, r], "level %g %s" % (l, pn))
                    else:
                        h.eq(o.predictions[pn][:, r, 0], cf_pred(tag, "treated%g" % l if pn == "ml_m" else "y", sm[r], n, kind, sub=cond), "level %g %s estimated" % (l, pn))
    return f


def reject(h):
    y = num(3, 8, -1, 1)
    m, e, _ = build(h, "PLR", ycol=y, nrep=2)
    ok = e["d"]["ml_l"]
    for bad, exc, what in ((3, TypeError, "no dictionary"), ({"x": {}}, ValueError, "unknown treatment"), ({"d": 3}, TypeError, "no nested dictionary"),
                           ({"d": {"ml_q": ok}}, ValueError, "unknown nuisance part"), ({"d": {"ml_l": list(ok)}}, TypeError, "no array"),
                           ({"d": {"ml_l": ok[:, :1]}}, ValueError, "wrong repetitions"), ({"d": {"ml_l": ok[:, 0]}}, ValueError, "one-dimensional"),
                           ({"d": {"ml_l": ok[:-1]}}, ValueError, "wrong observations"), ({"d": {"ml_l": ok, "ml_m": ok.T}}, ValueError, "transposed")):
        h.raises(lambda: m.fit(external_predictions=bad), exc, what)
    s, _, _ = build(h, "SSM", ycol=y)
    h.raises(lambda: s.fit(external_predictions={"d": {}}), NotImplementedError, "not supported by sample selection")
    n = 15
    a = dml.DoubleMLAPOS(data(num(3, n, -1, 2), np.array([0, 1, 2] * 5, float)), StubReg("g"), StubClf("m"), treatment_levels=[0.0, 1.0], n_folds=3,
                         draw_sample_splitting=False)
    a.set_sample_splitting(splits(n, 3, 1, "blocks"))
    for bad, exc, what in ((3, TypeError, "no dictionary"), ({5.0: {}}, ValueError, "unknown level"), ({0.0: 3, 1.0: {}}, TypeError, "no nested dictionary"),
                           ({0.0: {"ml_q": np.ones((n, 1))}, 1.0: {}}, ValueError, "unknown part"),
                           ({0.0: {"ml_m": np.ones((n, 2))}, 1.0: {}}, ValueError, "wrong repetitions")):
        h.raises(lambda: a.fit(external_predictions=bad), exc, "levels: " + what)
    h.observe("x", h.real("x"))


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, bounds=str(kw)))
    for m in ("PLR", "PLR-IV", "PLIV", "IRM", "APO", "DID"):
        n = 10 if m == "APO" else 8
        add(m, body(m, n=n))
        add(m + "-3fold-models", body(m, n=12, k=3, nrep=1, models=True))
    for m in ("IIVM", "DIDCS"):
        for q in FIX[m]:
            add("%s-%s" % (m, "".join(map(str, q)) or "none"), body(m, n=16, which=[q], nrep=2))
    add("PLR-2treat", body("PLR", ntreat=2))
    add("PLR-IV-2treat", body("PLR-IV", ntreat=2, which=[(0, 1), (2,), (0, 1, 2)]))
    add("PLR-2treat-partial", body("PLR", ntreat=2, partial=True, which=[(0,), (0, 1), (1,)]))
    L = ("ml_g_d_lvl0", "ml_g_d_lvl1", "ml_m")
    add("APOS-all", apos((0.0, 1.0, 2.0), L))
    add("APOS-m", apos((0.0, 1.0, 2.0), ("ml_m",)))
    add("APOS-g1", apos((0.0, 1.0, 2.0), ("ml_g_d_lvl1",)))
    add("APOS-g0m", apos((0.0, 1.0, 2.0), ("ml_g_d_lvl0", "ml_m")))
    add("APOS-some-levels", apos((1.0,), L))
    add("reject", reject)
    return out

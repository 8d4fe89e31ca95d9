"""cross-fitting: every nuisance prediction comes from a learner that never saw the row (nor its cluster)"""
from props.c13 import C1, C2, FOLD1, FOLD2, FOLD3, csplit
from props.models import *

ALL = lambda d, z, s, t: np.ones(len(d), bool)
TABLE = {
    "PLR": [("ml_l", "l", "y", "reg", ALL), ("ml_m", "m", "d", "reg", ALL)],
    "PLR-IV": [("ml_l", "l", "y", "reg", ALL), ("ml_m", "m", "d", "reg", ALL)],
    "PLIV": [("ml_l", "l", "y", "reg", ALL), ("ml_m", "m", "z", "reg", ALL), ("ml_r", "r", "d", "reg", ALL)],
    "IRM": [("ml_g0", "g", "y", "reg", lambda d, z, s, t: d == 0), ("ml_g1", "g", "y", "reg", lambda d, z, s, t: d == 1), ("ml_m", "m", "d", "clf", ALL)],
    "APO": [("ml_g_d_lvl0", "g", "y", "reg", lambda d, z, s, t: d != 1), ("ml_g_d_lvl1", "g", "y", "reg", lambda d, z, s, t: d == 1),
            ("ml_m", "m", "d", "clf", ALL)],
    "IIVM": [("ml_g0", "g", "y", "reg", lambda d, z, s, t: z == 0), ("ml_g1", "g", "y", "reg", lambda d, z, s, t: z == 1), ("ml_m", "m", "z", "clf", ALL),
             ("ml_r0", "r", "d", "clf", lambda d, z, s, t: z == 0), ("ml_r1", "r", "d", "clf", lambda d, z, s, t: z == 1)],
    "SSM": [("ml_g_d0", "g", "y", "reg", lambda d, z, s, t: (d == 0) & (s == 1)), ("ml_g_d1", "g", "y", "reg", lambda d, z, s, t: (d == 1) & (s == 1)),
            ("ml_pi", "pi", "s", "clf", ALL), ("ml_m", "m", "d", "clf", ALL)],
    "DID": [("ml_g0", "g", "y", "reg", lambda d, z, s, t: d == 0), ("ml_g1", "g", "y", "reg", lambda d, z, s, t: d == 1), ("ml_m", "m", "d", "clf", ALL)],
    "DIDCS": [("ml_g_d%d_t%d" % (a, b), "g", "y", "reg", (lambda a, b: lambda d, z, s, t: (d == a) & (t == b))(a, b)) for a in (0, 1) for b in (0, 1)]
    + [("ml_m", "m", "d", "clf", ALL)],
}
D12 = np.array([0, 1, 1, 0, 0, 1, 1, 0, 1, 0, 1, 0, 0, 1, 1, 0], float)
Z12 = np.array([0, 0, 1, 1, 0, 0, 1, 1, 0, 0, 1, 1, 1, 0, 1, 0], float)
S12 = np.array([1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1], float)
T12 = np.array([0, 0, 1, 1, 0, 0, 1, 1, 1, 1, 0, 0, 0, 0, 1, 1], float)


def fewsym(h, name, n, seed=3):
    v = num(seed, n, -1, 2).astype(object)
    v[2] = h.real(name + "2", -1, 2)
    return h.arr(v)


def make(h, name, n, nrep, k, ntreat, cluster, kind):
    d, z, s, t = D12[:n], Z12[:n], S12[:n], T12[:n]
    for q in ("m", "r", "pi"):
        h.cache[("range", q)] = (0.25, 0.75)
    h.cache["free_rows"] = (1, 6)
    y = fewsym(h, "y", n) if kind == "reg" else np.array([0, 1, 0, 1, 1, 0, 1, 1, 0, 0, 1, 0, 1, 0, 0, 1], float)[:n]
    kw = dict(n_folds=k, n_rep=nrep, draw_sample_splitting=False)
    g = StubReg("g") if kind == "reg" else StubClf("g")
    cl = dict(cluster=cluster)
    if name in ("PLR", "PLR-IV"):
        ds = [fewsym(h, "d%d" % i, n, 7 + i) for i in range(ntreat)] if kind == "reg" else [d]
        if name == "PLR-IV":
            kw.update(score="IV-type", ml_g=StubReg("g"))
        m = dml.DoubleMLPLR(data(y, ds, **cl), StubReg("l"), StubReg("m"), **kw)
    elif name == "PLIV":
        ds = [fewsym(h, "d", n, 7)]
        m = dml.DoubleMLPLIV(data(y, ds, z=fewsym(h, "z", n, 9), **cl), StubReg("l"), StubReg("m"), StubReg("r"), **kw)
    elif name == "IRM":
        m = dml.DoubleMLIRM(data(y, d, **cl), g, StubClf("m"), **kw)
    elif name == "APO":
        m = dml.DoubleMLAPO(data(y, d, **cl), g, StubClf("m"), treatment_level=1, **kw)
    elif name == "IIVM":
        m = dml.DoubleMLIIVM(data(y, d, z=z, **cl), g, StubClf("m"), StubClf("r"), **kw)
    elif name == "SSM":
        m = dml.DoubleMLSSM(data(y, d, s=s, **cl), g, StubClf("pi"), StubClf("m"), **kw)
    elif name == "DID":
        m = dml.DoubleMLDID(data(y, d, **cl), g, StubClf("m"), **kw)
    elif name == "DIDCS":
        m = dml.DoubleMLDIDCS(data(y, d, t=t, **cl), g, StubClf("m"), **kw)
    return m, y, d, z, s, t


def body(name, n=8, nrep=1, k=2, ntreat=1, cluster=None, models=False, single=False, kind="reg", foldsplit=None):
    def f(h):
        cs = None if cluster is None else [(C1, C2)[v][:n] for v in range(cluster)]
        m, y, d, z, s, t = make(h, name, n, nrep, k, ntreat, cs, kind)
        if cluster is not None:
            if cluster == 1:
                maps = [[FOLD3[0]], [FOLD3[1]]] if k == 3 else [[FOLD1[0]], [FOLD1[1]]]
                parts = [csplit(cs, maps[r], [k]) for r in range(nrep)]
            else:
                parts = [csplit(cs, [FOLD1[r], FOLD2[r]], [2, 2]) for r in range(nrep)]
            sm, sc = [p[0] for p in parts], [p[1] for p in parts]
            m.set_sample_splitting(sm, sc)
        elif single:
            a = np.arange(n)
            sm = [[(a, a)]]
            m.set_sample_splitting((list(a), list(a)))
        else:
            sm = splits(n, k, nrep, foldsplit or ("mod" if name in ("PLR", "IRM") else "blocks"))
            m.set_sample_splitting(sm)
        m.fit(store_models=models)
        for i in range(ntreat):
            dc = m._dml_data.d_cols[i]
            for pn, tag, sig, pk, cond in TABLE[name]:
                sub = cond(d, z, s, t)
                sg = dc if (name[:3] == "PLR" and sig == "d") else sig
                if name == "APO" and pn == "ml_m":
                    sg = "d"
                pk_ = "clf" if (tag == "g" and kind == "clf") else pk
                for r in range(nrep):
                    want = cf_pred(tag, sg, sm[r], n, pk_, sub=None if sub.all() else sub)
                    h.eq(m.predictions[pn][:, r, i], want, "%s of treatment %d, repetition %d" % (pn, i, r))
                    if models:
                        ms = m.models[pn][dc][r]
                        h.true(len(ms) == len(sm[r]), pn + " one stored model per fold")
                        for (tr, te), o in zip(sm[r], ms):
                            h.true(list(o.fit_["rows"]) == [int(q) for q in tr if sub[q]] and o.fit_["sig"] == sg, pn + " stored model of the fold")
        # whatever was fitted: never a row (or a cluster) of the fold it predicts for
        for ft in h.fits:
            R = set(ft["rows"])
            ok = any(R <= set(map(int, tr)) for sp in sm for tr, te in sp)
            h.true(ok, "%s fitted outside a training sample" % ft["tag"])
            if cs is not None:
                for c in cs:
                    lab = {c[i] for i in R}
                    h.true(any(R <= set(map(int, tr)) and not lab & {c[i] for i in te} for sp in sm for tr, te in sp),
                           "%s fitted on a cluster of the fold it predicts for" % ft["tag"])
        # one fit per nuisance part, fold, repetition and treatment
        nf = sum(len(x) for x in sm) * ntreat
        for tag in {q[1] for q in TABLE[name]}:
            c = len([1 for q in TABLE[name] if q[1] == tag])
            h.true(len([1 for ft in h.fits if ft["tag"] == tag]) == c * nf, "number of fits of " + tag)
    return f


def scenarios(tier):
    out = []

    def add(name, m, **kw):
        kw.setdefault("n", 12 if m in ("SSM", "IIVM", "DIDCS") else (10 if m == "APO" else 8))
        out.append(Scenario(name, body(m, **kw), bounds=m + str(kw)))
    for m in NAMES:
        mm = "IRM" if m == "ATTE" else m
        if m == "ATTE":
            continue
        big = mm in ("SSM", "IIVM", "DIDCS")
        add(m + "-2fold", mm)
        add(m + "-2rep", mm, nrep=2, n=16 if big else 12, models=(m != "PLR-IV"))
        add(m + "-3fold-models", mm, k=3, models=(m != "SSM"), n=16 if big else 12)
    for m in ("PLR", "PLIV", "IRM", "DID", "APO", "IIVM", "SSM"):
        add(m + "-cluster", m, cluster=1, n=14, nrep=2)
    for m in ("PLR", "PLIV"):
        add(m + "-cluster3", m, cluster=1, n=14, k=3, nrep=2, models=True)
        add(m + "-twoway", m, cluster=2, n=14, k=2, nrep=2)
    add("PLR-2treat", "PLR", ntreat=2, nrep=2, models=True)
    for m in ("PLR", "IRM", "IIVM"):
        add(m + "-single", m, single=True)
        add(m + "-single-models", m, single=True, models=True)
    for m in ("IRM", "APO", "IIVM", "DID", "DIDCS", "SSM"):
        add(m + "-binary", m, kind="clf", nrep=2, n=16 if m in ("SSM", "IIVM", "DIDCS") else 12)
    return out

"""hyperparameters: what is set or tuned is used, by the learner, treatment, repetition and fold it was meant for"""
from props.c09 import Kde, folds as qfolds, gaps, sample, solvers, within
from props.c10 import ALL, TABLE, fewsym
from props.c10 import make as make10
from props.models import *

TAB = dict(TABLE, PLIV2=[("ml_l", "l", "y", "reg", ALL), ("ml_m_z1", "m", "z1", "reg", ALL), ("ml_m_z2", "m", "z2", "reg", ALL), ("ml_r", "r", "d", "reg", ALL)])


def make(h, name, n, nrep, k, nt, cluster, kind):
    if name != "PLIV2":
        return make10(h, name, n, nrep, k, nt, cluster, kind)
    h.cache["free_rows"] = ()
    y, d, z1, z2 = fewsym(h, "y", n), num(7, n, -1, 2), num(9, n, -1, 2), num(4, n, -2, 1)
    m = dml.DoubleMLPLIV(data(y, d, z=[z1, z2]), StubReg("l"), StubReg("m"), StubReg("r"), n_folds=k, n_rep=nrep, draw_sample_splitting=False)
    return m, y, d, None, None, None


SEARCH = []
GRID = lambda tag: {"par": ["a-" + tag, "b-" + tag]}


def searches(h):
    """the searches of scikit-learn: what they are asked is recorded, what they find is free"""
    def make_(kind):
        def mk(real):
            class Search:
                def __init__(self, estimator, param, *, scoring=None, cv=None, n_jobs=None, n_iter=None, **k):
                    self.kind, self.est, self.grid, self.scoring, self.cv, self.n_jobs, self.n_iter, self.more = kind, estimator, param, scoring, cv, n_jobs, n_iter, k

                def fit(self, X, y):
                    from sklearn.base import clone
                    k = len(SEARCH)
                    SEARCH.append(self)
                    self.best_params_ = {"par": "s%d" % k, "par2": h.real("found%d" % k, 0, 9)}
                    n0 = len(h.fits)
                    self.best = clone(self.est).set_params(**self.best_params_).fit(X, y)
                    self.fit_ = self.best.fit_
                    del h.fits[n0:]
                    return self

                def predict(self, X):
                    return self.best.predict(X)

                def predict_proba(self, X):
                    return self.best.predict_proba(X)
            return Search
        return mk
    return {"GridSearchCV": make_("grid"), "RandomizedSearchCV": make_("random")}


def parts(name, h, m, sm, n, data_, i):
    """(nuisance part, learner, target, kind, subsample)"""
    y, d, z, s, t = data_
    dc = m._dml_data.d_cols[i]
    out = []
    for pn, tag, sig, pk, cond in TAB[name]:
        sg = dc if (name[:3] == "PLR" and sig == "d") else sig
        out.append((pn, tag, sg, pk, cond(d, z, s, t)))
    return out


def distinct(n, k, nrep, cells):
    """splits without a training sample in common, every cell inhabited in each of them"""
    out, seen, x = [], set(), 1
    while len(out) < nrep and x:
        p = list(range(n))
        for i in range(n - 1, 0, -1):
            x = (x * 1103515245 + 12345) % 2 ** 31
            j = (x >> 8) % (i + 1)
            p[i], p[j] = p[j], p[i]
        f = [sorted(int(v) for v in q) for q in np.array_split(np.array(p), k)]
        sp = [(np.array(sorted(set(range(n)) - set(q))), np.array(q)) for q in f]
        sub = [(c, tuple(i for i in tr if cells[i] == c)) for tr, te in sp for c in set(cells)]
        if all(v for c, v in sub) and not any(v in seen for v in sub):
            seen |= set(sub)
            out.append(sp)
    return out


def cut(name, n, k, nrep, data_):
    y, d, z, s, t = data_
    c = {"IRM": [d], "APO": [d], "DID": [d], "IIVM": [z], "SSM": [d], "DIDCS": [d, t]}.get(name, [])
    return distinct(n, k, nrep, [tuple(float(v[i]) for v in c) for i in range(n)])


def samples(sm, n, folds):
    a = np.arange(n)
    return [[[int(i) for i in tr] for tr, te in sp] for sp in sm] if folds else [[[int(i) for i in a]]]


def find(h, tag, sig, rows, other, label):
    got = [k for k, q in enumerate(SEARCH) if q.fit_["tag"] == tag and q.fit_["sig"] == sig and list(q.fit_["rows"]) == rows and cols(q.fit_["X"]) == other]
    h.true(len(got) == 1, label + ": one search")
    return got[0] if len(got) == 1 else None


def cols(X):
    """the features other than the row number"""
    return tuple(tuple(str(v) for v in X[:, j]) for j in range(1, np.shape(X)[1]))


def gtarget(h, m, i, y, ds, sm, n, folds, r, found, zs=None):
    """target of the IV-type outcome part: the outcome less a preliminary estimate times the treatment"""
    num_, den = [], []
    L, M, R = {}, {}, {}
    for q, rows in enumerate(samples(sm, n, folds)[r if folds else 0]):
        for what, D_ in (("ml_l", L), ("ml_m", M), ("ml_r", R)):
            if what in found:
                k = found[what][q]
                f = SEARCH[k].fit_
                D_.update(zip(rows, plain(pred(f["tag"], f["sig"], f["rows"], rows, "reg", "s%d" % k))))
    d = obj(ds[i])
    yy = obj(y)
    for k in sorted(L):
        v = (d[k] - M[k]) if zs is None else (obj(zs)[k] - M[k])
        w = v if zs is None else d[k] - R[k]
        num_.append(v * (yy[k] - L[k]))
        den.append(v * w)
    th = ssum(num_) / ssum(den)
    return h.arr([yy[k] - th * d[k] for k in range(n)])


def tuned(name, nrep=1, nt=1, folds=False, k=2, keep=True, mode="grid_search", n=None, scoring=None, whole=False, want=True, ints=False, own_g=True):
    def f(h):
        del SEARCH[:]
        N = n or (16 if name in ("SSM", "IIVM", "DIDCS") else 12)
        m, y, d, z, s, t = make(h, name, N, nrep, k, nt, None, "reg")
        if ints:
            yy = np.array([3, 1, -2, 4, 0, 5, 2, 2, -1, 7, 3, 1, 4, 0, 2, 6])[:N]
            dd = np.array([1, 0, 2, 1, 0, 3, 1, 1, 0, 2, 1, 3, 0, 2, 1, 0])[:N]
            kw = dict(n_folds=k, n_rep=nrep, draw_sample_splitting=False)
            if name == "PLR-IV":
                m = dml.DoubleMLPLR(data(yy, [dd]), StubReg("l"), StubReg("m"), StubReg("g"), score="IV-type", **kw)
            else:
                m = dml.DoubleMLPLIV(data(yy, [dd], z=d.astype(int)), StubReg("l"), StubReg("m"), StubReg("r"), StubReg("g"), score="IV-type", **kw)
            y, z = yy.astype(float), d
            ds = [dd.astype(float)]
        else:
            ds = [m._dml_data.data[c].values for c in m._dml_data.d_cols]
        sm = cut(name, N, k, nrep, (y, d, z, s, t))
        m.set_sample_splitting(sm)
        tags = {ln: m.learner[ln].tag for ln in m.learner_names}
        before = {ln: (m.learner[ln].par, m.learner[ln].par2) for ln in tags}
        grids = {ln: GRID(tg) for ln, tg in tags.items()}
        sc = None
        if scoring is not None:
            sc = {ln: "neg_of_" + ln for ln in list(tags)[:scoring]}
        asked = dict(sc or {})
        res = m.tune(grids, tune_on_folds=folds, scoring_methods=sc, n_folds_tune=3, search_mode=mode, n_iter_randomized_search=7, set_as_params=keep, return_tune_res=want)
        total = 0
        use = {}
        for i in range(nt):
            dc = m._dml_data.d_cols[i]
            oth = tuple(tuple(str(v) for v in obj(ds[j])) for j in range(nt) if j != i)
            for r, smp in enumerate(samples(sm, N, folds)):
                found = {}
                tab = parts(name, h, m, sm, N, (y, d, z, s, t), i)
                for pn, tag, sg, pk, sub in tab:
                    found[pn] = []
                    for q, rows in enumerate(smp):
                        rr = [int(a) for a in rows if sub[a]]
                        o = oth if name != "APO" or pn != "ml_g_d_lvl0" else None
                        X_ = tuple(tuple(c[a] for a in rr) for c in oth)
                        if name == "APO" and pn == "ml_g_d_lvl0":
                            X_ = None
                        if X_ is None or pn == "ml_pi":
                            c = [a for a, sq in enumerate(SEARCH) if sq.fit_["tag"] == tag and sq.fit_["sig"] == sg and list(sq.fit_["rows"]) == rr]
                            h.true(len(c) == 1, "one search for " + pn)
                            c = c[0] if len(c) == 1 else None
                        else:
                            c = find(h, tag, sg, rr, X_, "%s of %s, repetition %d, sample %d" % (pn, dc, r, q))
                        if c is None:
                            return
                        found[pn].append(c)
                    total += len(smp)
                if "ml_g" in m.params_names and name in ("PLR-IV", "PLIV"):
                    tgt = gtarget(h, m, i, y, ds, sm, N, folds, r, found, None if name == "PLR-IV" else z)
                    found["ml_g"] = []
                    for q, rows in enumerate(smp):
                        X_ = tuple(tuple(c[a] for a in rows) for c in oth)
                        c = [a for a, sq in enumerate(SEARCH) if sq.fit_["tag"] == "g" and list(sq.fit_["rows"]) == rows and cols(sq.fit_["X"]) == X_]
                        h.true(len(c) == 1, "one search for ml_g")
                        if len(c) != 1:
                            return
                        h.eq(SEARCH[c[0]].fit_["y"], tgt[rows], "target of the search for ml_g of %s" % dc)
                        found["ml_g"].append(c[0])
                    total += len(smp)
                if not folds:
                    for rr in range(nrep):
                        use[i, rr] = {pn: v * k for pn, v in found.items()}
                else:
                    use[i, r] = found
        h.true(len(SEARCH) == total, "number of searches")
        for q in SEARCH:
            tag = q.fit_["tag"]
            ln = [a for a, b in tags.items() if b == tag][0]
            h.true(q.kind == ("grid" if mode == "grid_search" else "random"), "kind of search")
            h.true(q.grid == GRID(tag) and q.scoring == asked.get(ln), "grid and scoring of " + ln)
            h.true(q.cv.get_n_splits() == 3 and (mode == "grid_search" or q.n_iter == 7), "size of the search")
            h.true(q.fit_["par"] == q.best_params_["par"], "learner of the search")
        # the learners handed in stay as they are
        for ln in tags:
            h.true((m.learner[ln].par, m.learner[ln].par2) == before[ln], "learner " + ln + " unchanged")
        # what is returned
        if want:
            h.true(isinstance(res, list) and len(res) == nt, "results per treatment")
            for i in range(nt):
                per = res[i] if folds else [res[i]]
                h.true(len(per) == (nrep if folds else 1), "results per repetition")
                for r, q in enumerate(per):
                    h.true(set(q) == {"params", "tune_res"} and set(q["params"]) == set(use[i, r]), "parts of the results")
                    for pn, ks in use[i, r].items():
                        got = q["params"][pn]
                        h.true([g["par"] for g in got] == ["s%d" % c for c in (ks if folds else ks[:1])], "results for " + pn)
                        h.eq([g["par2"] for g in got], [h.real("found%d" % c, 0, 9) for c in (ks if folds else ks[:1])], "result values for " + pn)
        else:
            h.true(res is m, "returns the object")
        # what is used
        m.fit()
        check_use(h, m, name, sm, N, (y, d, z, s, t), nt, lambda i, r, pn, q: ("s%d" % use[i, r][pn][q], h.real("found%d" % use[i, r][pn][q], 0, 9)) if keep else (None, None))
        for i in range(nt):
            dc = m._dml_data.d_cols[i]
            for pn in use[i, 0]:
                P = m.params[pn][dc]
                for r in range(nrep):
                    if keep:
                        h.true([a["par"] for a in P[r]] == ["s%d" % c for c in use[i, r][pn]], "params of " + pn)
                    else:
                        h.true(P[r] is None, "params of %s not set" % pn)
    return f


def check_use(h, m, name, sm, N, dat, nt, want):
    """every fit used the parameters of its part, treatment, repetition and fold"""
    y, d, z, s, t = dat
    left = list(h.fits)
    for i in range(nt):
        dc = m._dml_data.d_cols[i]
        for pn, tag, sg, pk, sub in parts(name, h, m, sm, N, dat, i):
            for r, sp in enumerate(sm):
                G = obj(m.predictions[pn][:, r, i])
                for q, (tr, te) in enumerate(sp):
                    rr = [int(a) for a in tr if sub[a]]
                    p1, p2 = want(i, r, pn, q)
                    label = "%s of %s, repetition %d, fold %d" % (pn, dc, r, q)
                    h.eq(G[te], pred(tag, sg, rr, [int(a) for a in te], pk, p1), "prediction of " + label)
                    fs = [x for x in left if x["tag"] == tag and x["sig"] == sg and list(x["rows"]) == rr and x["par"] == p1]
                    h.true(len(fs) >= 1, "parameters of " + label)
                    if fs:
                        left = [x for x in left if x is not fs[0]]
                        if p2 is None:
                            h.true(fs[0]["par2"] is None, "second parameter of " + label)
                        else:
                            h.eq(fs[0]["par2"], p2, "second parameter of " + label)
    if name in ("PLR-IV", "PLIV") and "ml_g" in m.params_names:
        for i in range(nt):
            for r, sp in enumerate(sm):
                for q, (tr, te) in enumerate(sp):
                    p1, p2 = want(i, r, "ml_g", q)
                    fs = [x for x in left if x["tag"] == "g" and list(x["rows"]) == [int(a) for a in tr] and x["par"] == p1]
                    h.true(len(fs) >= 1, "parameters of ml_g")
                    left = [x for x in left if not fs or x is not fs[0]]
                    if fs and p2 is not None:
                        h.eq(fs[0]["par2"], p2, "second parameter of ml_g")
    h.true(not left, "no other fits")


def assigned(name, nrep=1, nt=1, k=2, how="dict", models=False):
    """set_ml_nuisance_params for one part and treatment"""
    def f(h):
        N = 16 if name in ("SSM", "IIVM", "DIDCS") else 12
        m, y, d, z, s, t = make(h, name, N, nrep, k, nt, None, "reg")
        sm = cut(name, N, k, nrep, (y, d, z, s, t))
        m.set_sample_splitting(sm)
        pn = h.pick(m.params_names, "part")
        i0 = h.choose(nt, "treatment")
        dc = m._dml_data.d_cols[i0]
        v = {}
        if how == "dict":
            p = {"par": "one", "par2": h.real("v", 0, 9)}
            arg = p
            v = {(r, q): p for r in range(nrep) for q in range(k)}
        else:
            v = {(r, q): {"par": "p%d%d" % (r, q), "par2": h.real("v%d%d" % (r, q), 0, 9)} for r in range(nrep) for q in range(k)}
            arg = [[v[r, q] for q in range(k)] for r in range(nrep)]
        h.true(m.set_ml_nuisance_params(pn, dc, arg) is m, "returns the object")
        ref = {c: [[dict(v[r, q]) for q in range(k)] if c == dc else None for r in range(nrep)] for c in m._dml_data.d_cols}
        got = m.get_params(pn)
        for c in ref:
            for r in range(nrep):
                if ref[c][r] is None:
                    h.true(got[c][r] is None, "get_params of " + c)
                else:
                    h.true([a["par"] for a in got[c][r]] == [a["par"] for a in ref[c][r]], "get_params of " + c)
                    h.eq([a["par2"] for a in got[c][r]], [a["par2"] for a in ref[c][r]], "get_params values of " + c)
        m.fit(store_models=models)
        check_use(h, m, name, sm, N, (y, d, z, s, t), nt, lambda i, r, part, q: (v[r, q]["par"], v[r, q]["par2"]) if (i, part) == (i0, pn) else (None, None))
        for ln in m.learner_names:
            h.true(m.learner[ln].par is None and m.learner[ln].par2 is None, "learner " + ln + " unchanged")
        # taken back
        m.set_ml_nuisance_params(pn, dc, None)
        del h.fits[:]
        m.fit()
        check_use(h, m, name, sm, N, (y, d, z, s, t), nt, lambda i, r, part, q: (None, None))
    return f


QPARTS = {"PQ": (("ml_g", "g", None, "treat"), ("ml_m", "m", "d", None)), "CVaR": (("ml_g", "g", None, "treat"), ("ml_m", "m", "d", None)),
          "LPQ": (("ml_m_z", "m", "z", None), ("ml_m_d_z0", "m", "d", 0), ("ml_m_d_z1", "m", "d", 1), ("ml_g_du_z0", "g", None, 0), ("ml_g_du_z1", "g", None, 1))}


def quantile(name, treat, nrep, k=2):
    n = 48 if name == "LPQ" else 16
    h = H_()
    y, d, z = sample(n, True)
    h.cache["jumps"], h.cache["probes"], h.cache["free_rows"] = y, [0.11], ()
    h.cache[("range", "m")] = (0.3, 0.7) if name != "LPQ" else (0.4, 0.6)
    if name == "LPQ":
        h.cache[("const", "m")] = 0.5
    within(h, *gaps(y, 0.5, k, 0), k)
    kw = dict(treatment=treat, n_folds=k, n_rep=nrep, normalize_ipw=False, draw_sample_splitting=False)
    if name == "LPQ":
        m = dml.DoubleMLLPQ(data(y, d, z=z), StubClf("g"), StubClf("m"), kde=Kde(), **kw)
    elif name == "PQ":
        m = dml.DoubleMLPQ(data(y, d), StubClf("g"), StubClf("m"), kde=Kde(), **kw)
    else:
        m = dml.DoubleMLCVAR(data(y, d), StubReg("g"), StubClf("m"), **kw)
    sm = qfolds(n, k, nrep, list(zip(d, z)))
    if nrep > 1:
        sm = [sm[0], qfolds(n, k, 1, [(d[i], z[i], i // 4 % 2) for i in range(n)])[0]]
    m.set_sample_splitting(sm)
    sub = {"treat": d == treat, 0: z == 0, 1: z == 1, None: np.ones(n, bool)}
    return m, sm, sub, n


def qassigned(name, treat, nrep=1, k=2):
    """every fit for the part, preliminary ones included, uses the parameters of its repetition and fold"""
    def f(h):
        m, sm, sub, n = quantile(name, treat, nrep, k)
        pn, tag, sig, c = h.pick(QPARTS[name], "part")
        v = [[{"par": "p%d%d" % (r, q), "par2": h.real("v%d%d" % (r, q), 0, 9)} for q in range(k)] for r in range(nrep)]
        m.set_ml_nuisance_params(pn, "d", v)
        m.fit()
        train = {"p%d%d" % (r, q): set(map(int, sm[r][q][0])) for r in range(nrep) for q in range(k)}
        count = {a: 0 for a in train}
        for x in h.fits:
            mine = x["tag"] == tag and (sig is None or x["sig"] == sig) and all(sub[c][i] for i in x["rows"])
            if not mine:
                h.true(x["par"] is None and x["par2"] is None, "fits for other parts keep the parameters of their learner")
                continue
            h.true(x["par"] in train and set(x["rows"]) <= train.get(x["par"], set()), pn + ": parameters of the fold")
            if x["par"] in train:
                count[x["par"]] += 1
                h.eq(x["par2"], h.real("v" + x["par"][1:], 0, 9), pn + ": second parameter")
        h.true(min(count.values()) >= 1 and len(set(count.values())) == 1, pn + ": as many fits with the parameters of every fold")
    return f


def qtuned(name, treat, nrep=1, folds=False, k=2):
    def f(h):
        del SEARCH[:]
        m, sm, sub, n = quantile(name, treat, nrep, k)
        grids = {ln: {"par": ["a-" + ln]} for ln in m.learner_names}
        m.tune(grids, tune_on_folds=folds, scoring_methods={m.learner_names[0]: "rule"}, n_folds_tune=3)
        seen = 0
        for r, smp in enumerate(samples(sm, n, folds)):
            for pn, tag, sig, c in QPARTS[name]:
                ks = []
                for rows in smp:
                    rr = [int(i) for i in rows if sub[c][i]]
                    ok = [a for a, q in enumerate(SEARCH) if q.fit_["tag"] == tag and (sig is None or q.fit_["sig"] == sig) and list(q.fit_["rows"]) == rr]
                    h.true(len(ok) == 1, "one search for " + pn)
                    if len(ok) != 1:
                        return
                    ks += ok
                    seen += 1
                    q = SEARCH[ok[0]]
                    h.true(q.grid == grids[pn] and q.scoring == ("rule" if pn == m.learner_names[0] else None) and q.kind == "grid", "grid and scoring of " + pn)
                for rep in ([r] if folds else range(nrep)):
                    P = m.params[pn]["d"][rep]
                    h.true([a["par"] for a in P] == ["s%d" % b for b in (ks if folds else ks * k)], "params of " + pn)
                    h.eq([a["par2"] for a in P], [h.real("found%d" % b, 0, 9) for b in (ks if folds else ks * k)], "param values of " + pn)
        h.true(seen == len(SEARCH), "number of searches")
    return f


def refused(h):
    m = make(h, "PLR", 12, 2, 2, 1, None, "reg")[0]
    m.set_sample_splitting(splits(12, 2, 2))
    P = {"par": "p"}
    bad = [(lambda: m.set_ml_nuisance_params("ml_x", "d", P), ValueError), (lambda: m.set_ml_nuisance_params("ml_l", "X1", P), ValueError),
           (lambda: m.set_ml_nuisance_params("ml_l", "d", [[P, P]]), AssertionError), (lambda: m.set_ml_nuisance_params("ml_l", "d", [[P, P], [P]]), AssertionError)]
    G = {"ml_l": GRID("l"), "ml_m": GRID("m")}
    for kw, ex in (({"param_grids": {"ml_l": GRID("l")}}, ValueError), ({"param_grids": [GRID("l")]}, ValueError), ({"scoring_methods": {"ml_x": "r2"}}, ValueError),
                   ({"scoring_methods": "r2"}, ValueError), ({"tune_on_folds": 1}, TypeError), ({"n_folds_tune": 1.0}, TypeError), ({"n_folds_tune": 1}, ValueError),
                   ({"search_mode": "gridsearch"}, ValueError), ({"n_iter_randomized_search": 1}, ValueError), ({"n_iter_randomized_search": 2.0}, TypeError),
                   ({"n_jobs_cv": "1"}, TypeError), ({"set_as_params": 1}, TypeError), ({"return_tune_res": 1}, TypeError)):
        bad.append(((lambda kw: lambda: m.tune(**dict({"param_grids": G}, **kw)))(kw), ex))
    del SEARCH[:]
    f, ex = h.pick(bad, "request")
    h.raises(f, ex, "refused")
    h.true(not SEARCH and all(v is None for pn in m.params_names for v in m.params[pn]["d"]), "nothing searched or set")


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, patches=lambda h: dict(searches(h), **solvers(h)), bounds=name))
    allm = ("PLR", "PLR-IV", "PLIV", "IRM", "APO", "IIVM", "SSM", "DID", "DIDCS")
    for nm in allm:
        add("tune-" + nm, tuned(nm, nrep=2))
        add("tune-folds-" + nm, tuned(nm, nrep=2, folds=True, mode="randomized_search", scoring=1))
        add("set-dict-" + nm, assigned(nm, nrep=2))
        add("set-list-" + nm, assigned(nm, nrep=2, how="list", models=True))
    for nm in ("PLR", "PLR-IV"):
        add("tune-%s-2treat" % nm, tuned(nm, nrep=2, nt=2))
        add("tune-folds-%s-2treat" % nm, tuned(nm, nrep=2, nt=2, folds=True))
        add("set-list-%s-2treat" % nm, assigned(nm, nrep=2, nt=2, how="list"))
        add("set-dict-%s-2treat" % nm, assigned(nm, nrep=2, nt=2))
        add("tune-folds-%s-2treat-1rep" % nm, tuned(nm, nrep=1, nt=2, folds=True))
    add("tune-PLIV2", tuned("PLIV2", nrep=2))
    add("tune-folds-PLIV2", tuned("PLIV2", folds=True))
    add("set-list-PLIV2", assigned("PLIV2", how="list"))
    for nm in ("PLR", "IRM", "IIVM"):
        add("tune-only-" + nm, tuned(nm, nrep=2, keep=False, scoring=9))
        add("tune-only-folds-" + nm, tuned(nm, nrep=2, keep=False, folds=True, want=False))
    for nm in ("PLR-IV", "PLIV"):
        add("integers-" + nm, tuned(nm, ints=True))
        add("integers-folds-" + nm, tuned(nm, ints=True, folds=True))
    for nm in QPARTS:
        for tr in (0, 1):
            add("set-list-%s-%d" % (nm, tr), qassigned(nm, tr, 1 if nm == "LPQ" else 1 + tr))
            add("tune-%s-%d" % (nm, tr), qtuned(nm, tr, 2))
            add("tune-folds-%s-%d" % (nm, tr), qtuned(nm, tr, 2, True))
    add("refused", refused)
    return out

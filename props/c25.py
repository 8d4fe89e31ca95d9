"""Drawn sample splits: partitions, stratified, separate draws, cluster-disjoint"""
import itertools

from props.common import *
from props.models import D8, T8, Z8, num


def sizes(n, k):
    return [n // k + (j < n % k) for j in range(k)]


def alloc(classes, k):
    """how many rows of each class scikit-learn's StratifiedKFold puts into each fold"""
    order = np.sort(classes)
    return np.array([np.bincount(order[j::k], minlength=classes.max() + 1) for j in range(k)])


class Drawer:
    """scikit-learn's splitters by their contract: which rows a fold gets is up to the solver ('slots') or one of a few arrangements"""

    def __init__(self, h, mode="slots", arrangements=2):
        self.h, self.mode, self.m, self.draws, self.k, self.seeded = h, mode, arrangements, [], 0, {}

    def one(self, n, k, y, shuffle, seed):
        """list of test sets of one draw"""
        h = self.h
        if k > n:
            raise ValueError("more folds than rows")
        groups = [list(range(n))] if y is None else [list(np.where(y == c)[0]) for c in range(y.max() + 1)]
        want = [[s] for s in sizes(n, k)] if y is None else alloc(y, k)
        tests = [[] for _ in range(k)]
        t = self.k
        self.k += 1
        s = h.choose(min(self.m, n), "draw") if shuffle and self.mode != "slots" else 0
        for c, g in enumerate(groups):
            if not shuffle:
                perm = g
            elif self.mode == "slots" and h.sym:
                perm = [h.real("s%d.%d.%d" % (t, c, i), 0, n - 1) for i in range(len(g))]
                for p in perm:
                    h.assume(S.b_any([p == r for r in g]))
                for a, b in itertools.combinations(perm, 2):
                    h.assume(S.b_not(a == b))
            elif self.mode == "slots":
                perm = [int(h.real("s%d.%d.%d" % (t, c, i), 0, n - 1)) for i in range(len(g))]
                if sorted(perm) != sorted(g):
                    perm = g
            else:
                perm = g[s % len(g):] + g[:s % len(g)]
            at = 0
            for j in range(k):
                w = int(want[j][c])
                tests[j] += perm[at:at + w]
                at += w
        return tests

    def draw(self, n, k, y, shuffle, seed, nth):
        cls = None if y is None else np.unique(np.asarray(y).ravel(), return_inverse=True)[1].ravel()
        key = (n, k, None if cls is None else tuple(cls), seed, nth)
        if seed is not None and not isinstance(seed, np.random.RandomState) and key in self.seeded:
            tests = self.seeded[key]
        else:
            tests = self.one(n, k, cls, shuffle, seed)
            self.seeded[key] = tests
            if shuffle and seed is None:
                self.draws.append((n, tests))
        out = []
        for j in range(k):
            tr = [p for i in range(k) if i != j for p in tests[i]]
            if not (self.mode == "slots" and self.h.sym):
                tr = sorted(tr)
            out.append((idx(self.h, tr), idx(self.h, sorted(tests[j]) if all(not isinstance(e, S.SymReal) for e in tests[j]) else tests[j])))
        return out


def idx(h, l):
    if any(isinstance(e, S.SymReal) for e in l):
        return h.arr(l)
    return np.array([int(e) for e in l], dtype=int)


DR = [None]


def splitters(h):
    def rows(X, y):
        return len(X) if X is not None else len(y)

    def make(stratified, repeated):
        def factory(real):
            class Stand:
                def __init__(self, n_splits=5, *, n_repeats=10 if repeated else 1, shuffle=repeated, random_state=None):
                    if int(n_splits) < 2:
                        raise ValueError("n_splits")
                    self.k, self.r, self.shuffle, self.seed = int(n_splits), n_repeats, shuffle, random_state
                    self.n_splits = self.k

                def split(self, X, y=None, groups=None):
                    for r in range(self.r):
                        for tr, te in DR[0].draw(rows(X, y), self.k, y if stratified else None, self.shuffle, self.seed, r):
                            yield tr, te

                def get_n_splits(self, *a, **k):
                    return self.k * self.r
            return Stand
        return factory
    return {"KFold": make(False, False), "StratifiedKFold": make(True, False), "RepeatedKFold": make(False, True), "RepeatedStratifiedKFold": make(True, True)}


def is_in(e, l):
    return S.b_any([e == q for q in l])


def at_most(conds, k):
    return S.b_all([S.b_not(S.b_all(list(c))) for c in itertools.combinations(conds, k + 1)])


def check(h, smpls, n, k, nrep, strata=None, tag=""):
    h.true(len(smpls) == nrep and all(len(r) == k for r in smpls), tag + "numbers of repetitions and folds")
    for r, rep in enumerate(smpls):
        tests = [list(obj(te).ravel()) for _, te in rep]
        alltest = [e for te in tests for e in te]
        h.true(len(alltest) == n, tag + "size of the test sets")
        h.true(S.b_all([S.b_not(a == b) for a, b in itertools.combinations(alltest, 2)]), tag + "test sets are disjoint")
        h.true(S.b_all([is_in(e, range(n)) for e in alltest]), tag + "test sets hold rows")
        for j, (tr, te) in enumerate(rep):
            t = list(obj(tr).ravel())
            h.true(len(t) + len(tests[j]) == n, tag + "size of the training set")
            h.true(S.b_all([S.b_not(is_in(e, tests[j])) for e in t] + [is_in(e, range(n)) for e in t]
                           + [S.b_not(a == b) for a, b in itertools.combinations(t, 2)]), tag + "the training set is everything else")
            h.true(n // k <= len(tests[j]) <= -(-n // k) if strata is None else True, tag + "sizes differ by at most one")
            if strata is not None:
                for c in np.unique(strata):
                    g = np.where(strata == c)[0]
                    lo, hi = len(g) // k, -(-len(g) // k)
                    ins = [is_in(e, g) for e in tests[j]]
                    h.true(at_most(ins, hi), tag + "stratum %g: at most" % c)
                    h.true(at_most([S.b_not(x) for x in ins], len(ins) - lo) if len(ins) > lo else len(ins) == lo and S.b_all(ins), tag + "stratum %g: at least" % c)


def separate(h, smpls, tag=""):
    """every repetition is a draw of its own"""
    n = sum(len(te) for _, te in smpls[0])
    left = [t for m, t in DR[0].draws if m == n]
    h.true(len(left) >= len(smpls), tag + "every repetition is drawn")
    for rep in smpls:
        me = [sorted(map(repr, obj(te).ravel().tolist())) for _, te in rep]
        hit = [i for i, t in enumerate(left) if sorted(me) == sorted(sorted(map(repr, idx(h, sorted(x) if not any(isinstance(e, S.SymReal) for e in x) else x).tolist())) for x in t)]
        h.true(bool(hit), tag + "a repetition is one of the draws that is not used by another")
        if hit:
            left.pop(hit[0])


def simple(name, n, k, nrep):
    def f(h):
        DR[0] = Drawer(h)
        y = num(3, n, -1, 2)
        d, z, t = D8[:n], Z8[:n], T8[:n]
        kw = dict(n_folds=k, n_rep=nrep)
        strata = None
        if name == "PLR":
            m = dml.DoubleMLPLR(data(y, num(5, n, -1, 2)), StubReg("l"), StubReg("m"), **kw)
        elif name == "PLR-binary":
            m = dml.DoubleMLPLR(data(y, d), StubReg("l"), StubClf("m"), **kw)
        elif name == "PLIV":
            m = dml.DoubleMLPLIV(data(y, num(5, n, -1, 2), z=num(6, n, -1, 1)), StubReg("l"), StubReg("m"), StubReg("r"), **kw)
        elif name == "IRM":
            strata, m = d, dml.DoubleMLIRM(data(y, d), StubReg("g"), StubClf("m"), **kw)
        elif name == "APO":
            d = np.array([0, 1, 2, 1, 1, 2, 1, 1, 0, 1][:n] + [0, 1, 2] * 3, float)[:n]
            strata, m = d, dml.DoubleMLAPO(data(y, d), StubReg("g"), StubClf("m"), treatment_level=1, **kw)
        elif name == "DID":
            strata, m = d, dml.DoubleMLDID(data(y, d), StubReg("g"), StubClf("m"), **kw)
        elif name == "PQ":
            strata, m = d, dml.DoubleMLPQ(data(y, d), StubClf("g"), StubClf("m"), **kw)
        elif name == "CVAR":
            strata, m = d, dml.DoubleMLCVAR(data(y, d), StubReg("g"), StubClf("m"), **kw)
        elif name == "IIVM":
            strata, m = d + 2 * z, dml.DoubleMLIIVM(data(y, d, z=z), StubReg("g"), StubClf("m"), StubClf("r"), **kw)
        elif name == "LPQ":
            strata, m = d + 2 * z, dml.DoubleMLLPQ(data(y, d, z=z), StubClf("g"), StubClf("m"), **kw)
        elif name == "DIDCS":
            strata, m = d + 2 * t, dml.DoubleMLDIDCS(data(y, d, t=t), StubReg("g"), StubClf("m"), **kw)
        elif name == "SSM":
            strata, m = d + 2 * t, dml.DoubleMLSSM(data(y, d, s=t), StubReg("g"), StubClf("p"), StubClf("m"), **kw)
        elif name == "SSM-nonignorable":
            strata, m = d + 2 * t, dml.DoubleMLSSM(data(y, d, s=t, z=num(6, n, -1, 1)), StubReg("g"), StubClf("p"), StubClf("m"), score="nonignorable", **kw)
        first = m.smpls
        check(h, first, n, k, nrep, strata)
        separate(h, first)
        DR[0].draws.clear()
        m.draw_sample_splitting()
        check(h, m.smpls, n, k, nrep, strata, "again: ")
        separate(h, m.smpls, "again: ")
        h.true(m.n_folds == k and m.n_rep == nrep, "attributes")
        m.set_sample_splitting(splits(n, 3, 1, "blocks"))
        DR[0].draws.clear()
        m.draw_sample_splitting()
        check(h, m.smpls, n, 3, 1, strata, "after another split: ")
    return f


def several(name, n, k, nrep):
    """models that hand their split to sub-models"""
    def f(h):
        DR[0] = Drawer(h, "few")
        y = num(3, n, -1, 2)
        d = np.array([0, 1, 2, 1, 2, 0, 2, 1, 0, 1, 2, 0, 0, 1, 2], float)[:n]
        kw = dict(n_folds=k, n_rep=nrep, draw_sample_splitting=h.choose(2, "at once") == 1)
        if name == "APOS":
            m = dml.DoubleMLAPOS(data(y, d), StubReg("g"), StubClf("m"), treatment_levels=[0.0, 1.0, 2.0], **kw)
            subs = lambda: m.modellist
        else:
            d = (d > 0) * 1.0
            sc = name.split("-")[1]
            lq = sc == "LPQ"
            dd = data(y, d, z=np.roll(d, 1)) if lq else data(y, d)
            m = dml.DoubleMLQTE(dd, StubReg("g") if sc == "CVaR" else StubClf("g"), StubClf("m"), score=sc, quantiles=[0.25, 0.5], **kw)
            subs = lambda: list(m.modellist_0) + list(m.modellist_1)
        for step in range(2):
            if step or not kw["draw_sample_splitting"]:
                DR[0].draws.clear()
                m.draw_sample_splitting()
            check(h, m.smpls, n, k, nrep, d)
            separate(h, m.smpls)
            for s in subs():
                h.true(len(s.smpls) == nrep and s.n_folds == k and s.n_rep == nrep, "sub-models: numbers")
                for a, b in zip(s.smpls, m.smpls):
                    h.true(all((np.sort(p[0]) == np.sort(q[0])).all() and (np.sort(p[1]) == np.sort(q[1])).all() for p, q in zip(a, b)), "every sub-model gets the new split")
        h.observe("x", h.real("x"))
    return f


def labels(h, n, free, nv):
    """cluster labels: the values at the free rows are solver variables"""
    out = []
    base = [np.array([1, 2, 3, 1, 2, 3, 1, 2][:n], float), np.array([3, 3, 1, 1, 2, 2, 3, 1][:n], float)]
    for v in range(nv):
        col = base[v].astype(object)
        for i in free[v]:
            col[i] = h.real("c%d.%d" % (v, i), 0, 5)
        out.append(h.arr(list(col)))
    return out


def clusters(n, k, nrep, free, mode="few", model="PLR"):
    nv = len(free)

    def f(h):
        DR[0] = Drawer(h, mode, 3)
        y, lab = num(3, n, -1, 2), labels(h, n, free, nv)
        kw = dict(n_folds=k, n_rep=nrep, draw_sample_splitting=nrep == 1)
        try:
            if model == "PLR":
                m = dml.DoubleMLPLR(data(y, num(5, n, -1, 2), cluster=lab), StubReg("l"), StubReg("m"), **kw)
            elif model == "PLIV":
                m = dml.DoubleMLPLIV(data(y, num(5, n, -1, 2), z=num(6, n, -1, 1), cluster=lab), StubReg("l"), StubReg("m"), StubReg("r"), **kw)
            else:
                m = dml.DoubleMLIRM(data(y, D8[:n], cluster=lab), StubReg("g"), StubClf("m"), **kw)
            if nrep > 1:
                m.draw_sample_splitting()
        except ValueError:
            h.true(S.b_any([S.b_not(few(obj(c), k)) for c in lab]), "refused only with fewer clusters than folds")
            return
        h.true(S.b_all([few(obj(c), k) for c in lab]), "at least one cluster per fold")
        look(h, m, lab, n, k, nrep)
    return f


def few(col, k):
    """at least k different labels"""
    return S.b_any([S.b_all([S.b_not(a == b) for a, b in itertools.combinations(c, 2)]) for c in itertools.combinations(list(col), k)])


def look(h, m, lab, n, k, nrep):
    nv = len(lab)
    h.true(m.n_folds == k ** nv and m.n_rep == nrep, "numbers of folds and repetitions")
    h.true(len(m.smpls) == nrep and all(len(r) == k ** nv for r in m.smpls), "every combination of cluster folds")
    h.true(len(m.smpls_cluster) == nrep and all(len(r) == k ** nv for r in m.smpls_cluster), "as many cluster splits")
    h.true(len(DR[0].draws) >= nrep * nv, "every repetition and cluster variable is drawn anew")
    own(h, m, lab, nrep)
    for rep, crep in zip(m.smpls, m.smpls_cluster):
        tests = sorted(int(e) for _, te in rep for e in te)
        h.true(tests == list(range(n)), "test sets partition the rows")
        for (tr, te), (ctr, cte) in zip(rep, crep):
            tr, te = [int(e) for e in tr], [int(e) for e in te]
            h.true(len(ctr) == nv and len(cte) == nv, "clusters of every variable")
            for v in range(nv):
                c = obj(lab[v])
                a, b = list(obj(ctr[v]).ravel()), list(obj(cte[v]).ravel())
                h.true(S.b_all([S.b_not(c[i] == c[j]) for i in tr for j in te]), "training and test rows share no cluster")
                h.true(S.b_all([S.b_not(p == q) for p, q in itertools.combinations(a + b, 2)]), "cluster split: disjoint")
                h.true(S.b_all([is_in(x, a + b) for x in c]), "cluster split: complete")
                h.true(S.b_all([is_in(x, list(c)) for x in a + b]), "cluster split: existing labels only")
            for i in range(n):
                inte = S.b_all([is_in(obj(lab[v])[i], list(obj(cte[v]).ravel())) for v in range(nv)])
                intr = S.b_all([is_in(obj(lab[v])[i], list(obj(ctr[v]).ravel())) for v in range(nv)])
                h.true(inte if i in te else S.b_not(inte), "test rows are those of the test clusters")
                h.true(intr if i in tr else S.b_not(intr), "training rows are those of the training clusters")


def rank(x, col):
    """position of a label among the different labels of the column"""
    seen = []
    for c in col:
        if bool(c < x) and not any(bool(c == s) for s in seen):
            seen.append(c)
    return len(seen)


def own(h, m, lab, nrep):
    """every repetition's partition of the clusters of every variable is a draw that no other one uses"""
    left = [sorted(sorted(int(e) for e in part) for part in t) for _, t in DR[0].draws]
    for r in range(nrep):
        for v in range(len(lab)):
            c = list(obj(lab[v]))
            parts = {tuple(sorted(rank(x, c) for x in obj(cte[v]).ravel())) for _, cte in m.smpls_cluster[r]}
            p = sorted(list(x) for x in parts)
            ok = p in left
            h.true(ok, "repetition %d, cluster variable %d: a draw of its own" % (r, v))
            if ok:
                left.remove(p)


def after_set(nv):
    """a redraw follows the attributes a user-supplied cluster split has set"""
    def f(h):
        DR[0] = Drawer(h, "few")
        n = 8
        lab = [np.array([1, 2, 3, 4, 1, 2, 3, 4]), np.array([1, 1, 2, 2, 3, 3, 4, 4])][:nv]
        m = dml.DoubleMLPLR(data(num(3, n, -1, 2), num(5, n, -1, 2), cluster=lab), StubReg("l"), StubReg("m"), n_folds=3, draw_sample_splitting=False)
        sm, cs = [], []
        for f_ in itertools.product(*[([1, 2], [3, 4])] * nv):
            te = np.all([np.isin(l, p) for l, p in zip(lab, f_)], axis=0)
            tr = np.all([~np.isin(l, p) for l, p in zip(lab, f_)], axis=0)
            sm.append((np.where(tr)[0], np.where(te)[0]))
            cs.append(([np.array([q for q in (1, 2, 3, 4) if q not in p]) for p in f_], [np.array(p) for p in f_]))
        m.set_sample_splitting([sm, sm], [cs, cs])
        h.true(m.n_folds == 2 ** nv and m.n_rep == 2, "set")
        m.draw_sample_splitting()
        look(h, m, [np.asarray(l, float) for l in lab], n, 2, 2)
        h.observe("x", h.real("x"))
    return f


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, bounds=name, patches=splitters, witness=True, **kw))
    for nm, n, k, r in (("PLR", 7, 3, 2), ("PLR-binary", 6, 2, 2), ("PLIV", 6, 3, 1), ("IRM", 8, 2, 2), ("APO", 10, 2, 2), ("DID", 8, 3, 1), ("PQ", 8, 2, 1),
                        ("CVAR", 8, 2, 1), ("IIVM", 8, 2, 2), ("LPQ", 8, 2, 1), ("DIDCS", 8, 2, 2), ("SSM", 8, 2, 1), ("SSM-nonignorable", 8, 2, 1)):
        add("%s-%d-%d-%d" % (nm, n, k, r), simple(nm, n, k, r))
    if tier != "quick":
        for nm in ("PLR", "PLIV", "IRM", "DID", "IIVM", "LPQ", "DIDCS", "SSM"):
            add(nm + "-10-3-3", simple(nm, 10, 3, 3), budget=200)
    for nm in ("APOS", "QTE-PQ", "QTE-CVaR", "QTE-LPQ"):
        add(nm, several(nm, 15, 2, 1 if nm == "QTE-LPQ" else 2))
    add("cluster-1", clusters(5, 2, 1, [(0, 2)]))
    add("cluster-1-rep", clusters(4, 2, 2, [(0, 1)], model="PLIV"))
    add("cluster-1-3", clusters(6, 3, 1, [(1, 3)], model="IRM"))
    add("cluster-2", clusters(6, 2, 1, [(0, 3), ()]))
    add("cluster-2-rep", clusters(6, 2, 2, [(), (2,)], model="PLIV"))
    if tier != "quick":
        add("cluster-1-more", clusters(5, 2, 1, [(0, 1, 2, 4)]), budget=300, max_paths=60000)
        add("cluster-2-more", clusters(6, 2, 1, [(0, 3), (1, 2)]), budget=300, max_paths=60000)
        add("cluster-2-3", clusters(8, 3, 1, [(0,), (1,)]), budget=300, max_paths=60000)
    add("cluster-redraw-1", after_set(1))
    add("cluster-redraw-2", after_set(2))
    return out

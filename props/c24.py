"""set_sample_splitting accepts exactly the partitions"""
import itertools

from symx.nparr import NP, SymArray, has_sym

from props.common import *
from props.models import D8, num


class SymSet:
    """a set of indices of which some are solver variables: only what the checks may ask of it"""

    def __init__(self, it=()):
        self.v = list(it)

    def _in(self, e, other):
        return S.b_any([e == o for o in other])

    def __and__(self, other):
        return SymBag([self._in(e, list(other)) for e in self.v])
    intersection = __and__

    def __rand__(self, other):
        return self & other

    def __rsub__(self, other):
        return SymSet(other) - self

    def union(self, other):
        return SymSet(self.v + list(other))
    __or__ = __ror__ = union

    def __ge__(self, other):
        return SymSet(other) <= self.v
    issuperset = __ge__

    def isdisjoint(self, other):
        return not bool(self & other)

    def issubset(self, other):
        return S.b_all([self._in(e, list(other)) for e in self.v])
    __le__ = issubset

    def __eq__(self, other):
        return S.b_and(self.issubset(other), SymSet(other).issubset(self.v))

    def __sub__(self, other):
        return SymBag([S.b_not(self._in(e, list(other))) for e in self.v])

    def __iter__(self):
        return iter(self.v)

    def __len__(self):
        n = 0
        for i, e in enumerate(self.v):
            n += not bool(S.b_any([e == o for o in self.v[:i]]))
        return n


class SymBag:
    def __init__(self, conds):
        self.c = conds

    def __bool__(self):
        return bool(S.b_any(self.c))

    def __len__(self):
        return sum(bool(c) for c in self.c)


class Mask(SymArray):
    """a boolean array that can be written at a symbolic position"""

    def __setitem__(self, ix, v):
        if has_sym(ix):
            p = np.asarray(self).view(np.ndarray)
            n, I = len(p), list(obj(ix).ravel())
            if bool(S.b_any([S.b_or(i >= n, i < -n) for i in I])):
                raise IndexError("index out of bounds")
            for k in range(n):
                hit = S.b_any([S.b_or(i == k, i == k - n) for i in I])
                p[k] = S.b_or(S.b_and(hit, bool(v)), S.b_and(S.b_not(hit), p[k]))
            return
        super().__setitem__(ix, v)


def standins(h):
    def mkset(real):
        def make(it=()):
            it = list(it)
            return SymSet(it) if any(isinstance(e, S.SymReal) for e in it) else real(it)
        return make

    def sub(real):
        return lambda a, b: True if (a is np.object_ and b is np.integer) else real(a, b)
    return {"set": mkset, "issubclass": sub}


def masks(h, fn):
    if not h.sym:
        return fn()
    old = NP.__dict__.get("zeros")
    orig = type(NP).zeros

    def zeros(shape, dtype=None, order="C"):
        if dtype is not None and np.dtype(dtype).kind == "b" and np.ndim(shape) == 0:
            return np.array([False] * int(shape), dtype=object).view(Mask)
        return orig(NP, shape, dtype, order)
    NP.__dict__["zeros"] = zeros
    try:
        return fn()
    finally:
        del NP.__dict__["zeros"]
        if old is not None:
            NP.__dict__["zeros"] = old


def index(h, v):
    if h.sym:
        return v
    if isinstance(v, float) and v == int(v):
        return int(v)
    return v


def distinct(l):
    return S.b_all([S.b_not(a == b) for a, b in itertools.combinations(l, 2)]) if len(l) > 1 else True


def inr(l, n):
    return S.b_all([S.b_any([e == k for k in range(n)]) for e in l]) if l else True


def partition(rep, n, single):
    """what the documentation asks of one repetition"""
    tests = [i for _, te in rep for i in te]
    if len(tests) != n:
        return False
    c = [inr(tests, n), distinct(tests)]
    for tr, te in rep:
        c += [inr(tr, n), distinct(tr)]
        if not single:
            c.append(S.b_all([S.b_not(a == b) for a in tr for b in te]) if tr and te else True)
    return S.b_all(c)


def model(n, cluster=None):
    y = num(3, n, -1, 1)
    return dml.DoubleMLPLR(data(y, num(5, n, -1, 2), cluster=cluster), StubReg("l"), StubReg("m"), n_folds=2, draw_sample_splitting=False)


def lists(n, shape, free, form="nested"):
    """shape: per repetition the list of (training size, test size); free: positions that are solver variables, the rest a
    correct partition"""
    def f(h):
        m = model(n)
        reps, pos = [], 0
        for r, folds in enumerate(shape):
            perm = [(i + r) % n for i in range(n)]
            c, rep = 0, []
            for ntr, nte in folds:
                te = perm[c:c + nte]
                c += nte
                tr = [i for i in perm if i not in te][:ntr]
                row = []
                for part in (tr, te):
                    out = []
                    for e in part:
                        out.append(index(h, h.real("i%d" % pos, -1, n)) if pos in free else e)
                        pos += 1
                    row.append(out)
                rep.append(tuple(row))
            reps.append(rep)
        single = len(reps) == 1 and len(reps[0]) == 1
        arg = reps if form == "nested" else (reps[0] if form == "list" else reps[0][0])
        want = S.b_all([partition(rep, n, single) for rep in reps])
        if single:  # no sample splitting: both must be everything
            want = S.b_all([want, len(reps[0][0][0]) == n])
        ok = True
        try:
            masks(h, lambda: m.set_sample_splitting(arg))
        except (ValueError, TypeError):
            ok = False
        except IndexError:
            ok = False
            h.fail("refused with an IndexError")
        h.true(want if ok else S.b_not(want), "accepted" if ok else "refused")
        if not ok:
            h.raises(lambda: m.smpls, ValueError, "a refused split is not stored")
            return
        h.true(m.n_rep == len(reps) and m.n_folds == len(reps[0]), "numbers of repetitions and folds follow the split")
        h.true(len(m.smpls) == len(reps) and all(len(a) == len(b) for a, b in zip(m.smpls, reps)), "stored repetitions and folds")
        for a, b in zip(m.smpls, reps):
            for (tr, te), (tr0, te0) in zip(a, b):
                for x, x0 in ((tr, tr0), (te, te0)):
                    h.true(len(x) == len(x0), "stored sizes")
                    for e in x0:
                        h.true(S.b_any([e == q for q in obj(x).ravel()]), "every given index is stored in its fold")
    return f


def refused(h):
    """malformed containers"""
    m = model(4)
    good = [(np.array([0, 1]), np.array([2, 3])), (np.array([2, 3]), np.array([0, 1]))]
    for bad, exc in ((3, TypeError), ("ab", TypeError), (np.array([[0, 1], [2, 3]]), TypeError), (([0, 1, 2, 3],), ValueError), (([0, 1], [2, 3], [0]), ValueError),
                     (([0, 1], [2, 3]), ValueError), ([([0, 1], [2, 3]), ([2, 3],)], ValueError), ([([0, 1], [2, 3]), [([2, 3], [0, 1])]], ValueError),
                     ([[([0, 1], [2, 3]), [2, 3]]], TypeError), ([[([0, 1], [2, 3], [1]), ([2, 3], [0, 1])]], ValueError), ([good, good[:1]], ValueError),
                     ([([0.0, 1.0], [2, 3]), ([2, 3], [0, 1])], TypeError), ([([0, 1], [2.0, 3.0]), ([2, 3], [0, 1])], TypeError), ([good[0]], ValueError),
                     ([([True, False, False, True], [2, 3]), ([2, 3], [0, 1])], TypeError)):
        h.raises(lambda: m.set_sample_splitting(bad), exc, "refused: %r" % (bad,))
    for ok, k, r in ((good, 2, 1), ([good], 2, 1), ([good, good], 2, 2), ((np.arange(4), np.arange(4)), 1, 1), ([(np.arange(4), np.arange(4))], 1, 1),
                     ([good, good[::-1], good], 2, 3)):
        m.set_sample_splitting(ok)
        h.true(m.n_folds == k and m.n_rep == r, "accepted: %d folds, %d repetitions" % (k, r))
    h.observe("x", h.real("x"))


def cluster(h):
    """clustered data: the cluster split is required, and must consist of partitions of the clusters in every fold"""
    n = 4
    lab = np.array([5, 6, 5, 6])
    m = model(n, [lab])
    sm = [(np.array([1, 3]), np.array([0, 2])), (np.array([0, 2]), np.array([1, 3]))]
    h.raises(lambda: m.set_sample_splitting(sm), ValueError, "cluster split missing")
    cs = [([np.array([6])], [np.array([5])]), ([np.array([5])], [np.array([6])])]
    h.raises(lambda: m.set_sample_splitting(sm, [cs, cs]), ValueError, "another number of repetitions")
    h.raises(lambda: m.set_sample_splitting(sm, [cs[:1]]), ValueError, "another number of folds")
    h.raises(lambda: m.set_sample_splitting(sm, [[([np.array([6])], [np.array([6])]), cs[1]]]), ValueError, "not a partition")
    h.raises(lambda: m.set_sample_splitting(sm, [[([np.array([6])], [np.array([], dtype=int)]), cs[1]]]), ValueError, "a cluster is missing")
    h.raises(lambda: m.set_sample_splitting(sm, [[([np.array([7])], [np.array([5])]), cs[1]]]), ValueError, "unknown cluster")
    m.set_sample_splitting(sm, [cs])
    h.true(m.n_rep == 1 and m.n_folds == 2, "accepted")
    h.observe("x", h.real("x"))


def cluster_sym(nrep, at):
    """which cluster labels the split of one repetition and fold names is up to the solver"""
    def f(h):
        n = 6
        lab = np.array([5, 6, 7, 5, 6, 7])
        m = model(n, [lab])
        sm, cs = [], []
        for r in range(nrep):
            t = [5, 6, 7][r:] + [5, 6, 7][:r]
            parts = [[t[0]], t[1:]]
            sm.append([(np.where(~np.isin(lab, p))[0], np.where(np.isin(lab, p))[0]) for p in parts])
            cs.append([([np.array([c for c in t if c not in p])], [np.array(p)]) for p in parts])
        r, j = at
        tr, te = cs[r][j]
        free = [h.real("c%d" % i, 4, 8) for i in range(3)]
        k = len(tr[0])
        cs[r][j] = ([h.arr(free[:k])], [h.arr(free[k:])])
        want = S.b_and(distinct(free), S.b_all([S.b_any([e == q for q in (5, 6, 7)]) for e in free]))
        ok = True
        try:
            m.set_sample_splitting(sm, cs)
        except ValueError:
            ok = False
        h.true(want if ok else S.b_not(want), "accepted" if ok else "refused")
    return f


def others(h):
    """the same rule guards the models of several levels and of quantile effects"""
    n = 15
    y = num(3, n, -1, 2)
    d = np.array([0, 1, 2] * 5, float)
    a = dml.DoubleMLAPOS(data(y, d), StubReg("g"), StubClf("m"), treatment_levels=[0.0, 1.0], n_folds=3, draw_sample_splitting=False)
    b = dml.DoubleMLQTE(data(y, (d > 0) * 1.0), StubClf("g"), StubClf("m"), quantiles=[0.5], n_folds=3, draw_sample_splitting=False)
    sm = splits(n, 3, 2, "blocks")
    j = h.choose(4, "damage")
    for o in (a, b):
        bad = [[(tr.copy(), te.copy()) for tr, te in rep] for rep in sm]
        if j == 0:
            bad[1][2] = (bad[1][2][0], bad[1][2][1][1:])
        elif j == 1:
            bad[1][0] = (np.append(bad[1][0][0], bad[1][0][1][0]), bad[1][0][1])
        elif j == 2:
            bad[0][1][1][0] = n
        else:
            bad[1] = bad[1][:2]
        h.raises(lambda: o.set_sample_splitting(bad), ValueError, "refused")
        o.set_sample_splitting(sm)
        h.true(o.n_rep == 2 and o.n_folds == 3, "accepted")
        for r in range(2):
            for (tr, te), (p, q) in zip(o.smpls[r], sm[r]):
                h.true((np.sort(tr) == np.sort(p)).all() and (np.sort(te) == np.sort(q)).all(), "stored")
    h.observe("x", h.real("x"))


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, bounds=name, patches=standins, witness=True, **kw))
    A = [[(2, 1), (1, 2)]]
    add("tests-all", lists(3, A, (2, 4, 5)))
    add("tests-all-flat", lists(3, A, (2, 4, 5), "list"))
    add("fold-1", lists(3, A, (0, 1, 2)))
    add("fold-2", lists(3, A, (3, 4, 5)))
    add("trains", lists(3, A, (0, 1, 3)))
    add("fold-1-flat", lists(3, A, (0, 1, 2), "list"))
    add("second-repetition", lists(3, [[(2, 1), (1, 2)]] * 2, (8, 10, 11)))
    add("second-repetition-train", lists(3, [[(2, 1), (1, 2)]] * 2, (6, 7, 8)))
    add("three-folds", lists(3, [[(2, 1), (2, 1), (1, 1)]], (2, 5, 7)))
    add("three-folds-train", lists(3, [[(2, 1), (2, 1), (1, 1)]], (3, 4, 6)))
    add("too-short", lists(4, [[(2, 2), (2, 1)]], (2, 3, 6)))
    add("too-long", lists(3, [[(1, 2), (1, 2)]], (1, 2, 4)) if False else lists(4, [[(2, 2), (1, 2)]], (2, 3, 5)))
    add("no-splitting-tuple", lists(3, [[(3, 3)]], (0, 1, 4), "tuple"))
    add("no-splitting-list", lists(3, [[(3, 3)]], (0, 1, 4), "list"))
    add("one-tuple-half", lists(4, [[(2, 2)]], (0, 2), "tuple"))
    if tier != "quick":
        add("all-of-two-folds", lists(3, A, (0, 1, 2, 3, 4, 5)), budget=300)
        add("four", lists(4, [[(2, 2), (2, 2)]], (0, 2, 3, 6, 7)), budget=300)
    add("containers", refused)
    add("clusters", cluster)
    for nrep, at in ((1, (0, 0)), (1, (0, 1)), (2, (1, 0)), (2, (1, 1))):
        add("clusters-%d-%d%d" % (nrep, *at), cluster_sym(nrep, at))
    add("several-models", others)
    return out

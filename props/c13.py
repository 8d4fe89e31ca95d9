"""cluster-robust estimates and standard errors, one- and two-way"""
from fractions import Fraction

from props.models import *

C1 = [7, 3, 9, 3, 5, 7, 11, 9, 5, 3, 11, 7, 9, 5]
C2 = [20, 40, 20, 30, 40, 30, 20, 40, 20, 20, 30, 40, 30, 30]
FOLD1 = [{3: 0, 5: 1, 7: 0, 9: 1, 11: 0}, {3: 1, 5: 0, 7: 0, 9: 1, 11: 1}]
FOLD3 = [{3: 0, 5: 1, 7: 2, 9: 0, 11: 1}, {3: 2, 5: 0, 7: 1, 9: 1, 11: 0}]
FOLD2 = [{20: 0, 30: 1, 40: 0}, {20: 1, 30: 1, 40: 0}]


def csplit(cs, maps, ks):
    """cartesian product of the folds of each cluster variable"""
    n = len(cs[0])
    sm, sc = [], []
    grid = [(a,) for a in range(ks[0])] if len(cs) == 1 else [(a, b) for a in range(ks[0]) for b in range(ks[1])]
    for cell in grid:
        te = [[c for c in sorted(mp) if mp[c] == f] for mp, f in zip(maps, cell)]
        tr = [[c for c in sorted(mp) if mp[c] != f] for mp, f in zip(maps, cell)]
        sm.append((np.array([i for i in range(n) if all(cs[v][i] in tr[v] for v in range(len(cs)))]),
                   np.array([i for i in range(n) if all(cs[v][i] in te[v] for v in range(len(cs)))])))
        sc.append(([np.array(t) for t in tr], [np.array(t) for t in te]))
    return sm, sc


def spec_theta(psia, psib, sm, sc):
    a = b = 0
    for (tr, te), (_, tc) in zip(sm, sc):
        w = 1
        for c in tc:
            w = w * len(c)
        a = a + ssum([psia[i] for i in te]) / w
        b = b + ssum([psib[i] for i in te]) / w
    return -b / a


def spec_var(psi, dpsi, cs, sm, sc):
    K = len(sm)
    g = J = 0
    n = len(psi)
    for (tr, te), (_, tc) in zip(sm, sc):
        if len(cs) == 1:
            I = list(tc[0])
            for c in I:
                s = ssum([psi[i] for i in range(n) if cs[0][i] == c])
                g = g + s * s / len(I)
            J = J + ssum([dpsi[i] for i in te]) / len(I)
        else:
            I, L = list(tc[0]), list(tc[1])
            w = min(len(I), len(L)) / Fraction((len(I) * len(L)) ** 2)
            for c in I:
                s = ssum([psi[i] for i in range(n) if cs[0][i] == c and cs[1][i] in L])
                g = g + s * s * float(w)
            for c in L:
                s = ssum([psi[i] for i in range(n) if cs[1][i] == c and cs[0][i] in I])
                g = g + s * s * float(w)
            J = J + ssum([dpsi[i] for i in te]) / (len(I) * len(L))
    nc = min(len(set(c)) for c in cs)
    return (g / K) / ((J / K) * (J / K) * nc), nc




def body(name="PLR", ways=1, nrep=1, k=2, nt=1, n=12, nf=None):
    def f(h):
        m0 = 10 if name == "APO" else n
        cs = [C1[:m0]] + ([C2[:m0]] if ways == 2 else [])
        sm, sc = [], []
        for r in range(nrep):
            a, b = csplit(cs, [(FOLD1 if k == 2 else FOLD3)[r], FOLD2[r]][:ways], [k, 2])
            sm.append(a)
            sc.append(b)
        m, e, dd = build(h, name, n=n, nrep=nrep, k=k, ntreat=nt, cluster=[np.array(c) for c in cs], sm=sm, smc=sc, nf=nf)
        m.fit(external_predictions=e)
        for i in range(nt):
            for r in range(nrep):
                tag = "treat%d rep%d" % (i, r)
                pa, pb = m.psi_elements["psi_a"][:, r, i], m.psi_elements["psi_b"][:, r, i]
                h.eq(m.all_coef[i, r], spec_theta(pa, pb, sm[r], sc[r]), tag + " estimate weighs every fold by its clusters")
                v, nc = spec_var(m.psi[:, r, i], m.psi_deriv[:, r, i], cs, sm[r], sc[r])
                se = m.all_se[i, r]
                h.eq(se * se, v, tag + " squared standard error")
                h.le(0.0, se, tag + " sign")
                h.eq(m.framework.all_ses[i, r], se, tag + " framework standard error")
            h.eq(m.framework.var_scaling_factors[i], nc, "number of clusters")
    return f


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, bounds=str(kw)))
    for nm in ("PLR", "PLR-IV", "PLIV", "IRM", "ATTE", "IIVM"):
        add(nm + "-1way", body(nm))
        add(nm + "-2way", body(nm, ways=2, n=14))
    for nm in ("PLR", "PLIV"):
        add(nm + "-1way-k3-2rep", body(nm, k=3, nrep=2))
        add(nm + "-1way-2treat", body(nm, nt=2))
        add(nm + "-2way-2rep-2treat", body(nm, ways=2, nrep=2, nt=2, n=14))
        add(nm + "-1way-other-nfolds", body(nm, k=3, nf=5))
        add(nm + "-2way-3x2-folds", body(nm, ways=2, k=3, nf=2, n=14))
    add("APO-1way", body("APO"))
    return out

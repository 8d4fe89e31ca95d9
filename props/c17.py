"""multiple testing adjustments"""
from props.c15 import two
from props.c16 import maxi
from props.draws import drawing
from props.fw import *


def order(v):
    """indices by decreasing value (forks)"""
    idx = list(range(len(v)))
    for i in range(len(idx)):
        j = i
        while j and bool(v[idx[j]] > v[idx[j - 1]]):
            idx[j], idx[j - 1] = idx[j - 1], idx[j]
            j -= 1
    return idx


def stepdown(t, B):
    """Romano-Wolf: t observed statistics, B[b][k] bootstrapped ones"""
    at = [abs(x) for x in t]
    idx = order(at)
    p = [None] * len(t)
    prev = 0
    for j, k in enumerate(idx):
        rest = idx[j:]
        cnt = sum(1 for b in B if bool(maxi([abs(b[i]) for i in rest]) >= at[k]))
        p[k] = max(prev, min(1, cnt / len(B)))
        prev = p[k]
    return p


def rw(nt=2, nrep=1, B=2, n=2, name="romano-wolf", symboot=True, symth=None):
    def f(h):
        d = raw(h, nt=nt, nrep=nrep, n=n, psi=False, ses=None, free=True, th=False)
        T = obj(d["all_thetas"]).copy()
        for i, r in (symth if symth is not None else [(i, r) for i in range(nt) for r in range(nrep)]):
            T[i, r] = h.real("t%d_%d" % (i, r))
        d["all_thetas"] = h.arr(T)
        o = DoubleMLFramework(copyd(d))
        sy = {(0, 0)} if symboot else set()
        with drawing(h, fixed=lambda kind, k, ix: None if ix in sy and k == 0 else ((ix[0] * 5 + ix[1] * 3 + k) % 7) / 1.0 - 2.75):
            o.bootstrap(n_rep_boot=B)
        df, allp = o.p_adjust(method=name) if name else o.p_adjust()
        P_ = [stepdown([d["all_thetas"][i, r] / d["all_ses"][i, r] for i in range(nt)],
                       [[o.boot_t_stat[b, i, r] for i in range(nt)] for b in range(B)]) for r in range(nrep)]
        h.true(list(df.columns) == ["thetas", "pval"] and len(df) == nt, "table")
        for i in range(nt):
            for r in range(nrep):
                h.eq(allp[i, r], P_[r][i], "adjusted p-value of a repetition")
            h.eq(df["pval"].iloc[i], median([P_[r][i] for r in range(nrep)]), "adjusted p-value")
            h.eq(df["thetas"].iloc[i], d["thetas"][i], "estimate")
    return f


def mk_multipletests(real):
    """documented contract of statsmodels' bonferroni and holm corrections"""
    def multipletests(pvals, alpha=0.05, method="hs", **k):
        p = list(obj(pvals))
        if not any(isinstance(e, S.SymReal) for e in p):
            return real(np.array(p, float), alpha=alpha, method=method, **k)
        return None, adjust(p, method), None, None
    return multipletests


def cap(x):
    return 1.0 if bool(x > 1) else x


def adjust(p, method):
    from symx.nparr import as_sym
    n = len(p)
    if method == "bonferroni":
        r = [cap(n * e) for e in p]
    elif method == "holm":
        idx = order([-e for e in p])
        r, prev = [None] * n, 0.0
        for j, k in enumerate(idx):
            v = (n - j) * p[k]
            prev = cap(v if bool(v > prev) else prev)
            r[k] = prev
    else:
        raise S.Unsupported("multipletests " + method)
    return as_sym(obj(r)) if any(isinstance(e, S.SymReal) for e in r) else np.array(r, float)


def simple(method, nt=3, nrep=1):
    def f(h):
        d = raw(h, nt=nt, nrep=nrep, n=2, psi=False, ses=None, free=True, th=False)
        T = obj(d["all_thetas"]).copy()
        for r in range(nrep):
            T[r % nt, r] = h.real("t%d" % r, 0.125, 4)
        d["all_thetas"] = h.arr(T)
        o = DoubleMLFramework(copyd(d))
        df, allp = o.p_adjust(method=method)
        A = []
        for r in range(nrep):
            a = adjust([two(h, d["all_thetas"][i, r] / d["all_ses"][i, r]) for i in range(nt)], method)
            A.append(a)
            h.eq(allp[:, r], a, "rep%d adjusted p-values" % r)
        for i in range(nt):
            h.eq(df["pval"].iloc[i], median([A[r][i] for r in range(nrep)]), "adjusted p-value")
    return f


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, bounds=str(kw), patches=lambda h: {"multipletests": mk_multipletests} if h.sym else {}))
    add("rw", rw(name=None))
    add("rw-alias", rw(name="rw"))
    add("rw-2rep", rw(nrep=2, symth=[(0, 0), (1, 1)]))
    add("rw-3theta", rw(nt=3, symth=[(0, 0), (1, 0)], symboot=False))
    add("rw-3theta-boot", rw(nt=3, symth=[(2, 0)]))
    add("rw-3theta-B4", rw(nt=3, B=4, symth=[(0, 0), (2, 0)], symboot=False))
    add("rw-3rep", rw(nrep=3, symth=[(0, 0), (1, 2)], symboot=False))
    for me in ("bonferroni", "holm"):
        add(me, simple(me))
        add(me + "-2rep", simple(me, nrep=2))
        add(me + "-3rep", simple(me, nrep=3, nt=2))
        add(me + "-1theta", simple(me, nt=1))
    if tier == "thorough":
        add("rw-3theta-all", rw(nt=3, B=3))
    return out

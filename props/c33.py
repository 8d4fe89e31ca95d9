"""regression discontinuity designs: what is handed to the local estimator, and what is made of its answers"""
import types
import warnings

import pandas as pd

from props.common import *
from props.models import num
from symx.lib import ROW0

CALLS = []
OPT = {}
BASE = np.array([-1.75, -1.25, -0.75, -0.5, -0.25, -0.125, 0.125, 0.25, 0.5, 0.75, 1.25, 1.75])


class Flex:
    """a learner whose predictions depend on all it is given"""

    def look(self, X):
        X = plain(X)
        j = [c for c in range(X.shape[1]) if all((not isinstance(v, S.SymReal) or v.is_const) and float(v) >= ROW0 for v in X[:, c])][0]
        return X, j

    def _pred(self, X):
        X, j = self.look(X)
        h = H_()
        h.cache.setdefault("asked", []).append((self.fit_, X, j))
        out = np.empty(X.shape[0], dtype=object)
        for i in range(X.shape[0]):
            row = int(float(X[i, j])) - ROW0
            out[i] = value(self.fit_, [X[i, c] for c in range(j)], row, self.kind)
        return as_sym(out) if h.sym else out.astype(float)


def value(fit, z, row, kind):
    h = H_()
    it = h.cache.get("epoch", 0)
    nm = "%s(%s)~%s|%s|%d" % (fit["tag"], ",".join("%g" % float(v) if not isinstance(v, S.SymReal) or v.is_const else "score" for v in z), fit["sig"], ",".join(map(str, fit["rows"])), row)
    nm += "" if it < 2 else "#%d" % it
    lo, hi = ((-3, 3) if kind == "reg" else (0.125, 0.875))
    if row in h.cache["free"]:
        return h.real(nm, lo, hi)
    import zlib
    return lo + (hi - lo) * (zlib.crc32(nm.encode()) % 255 + 0.5) / 256


class FlexReg(Flex, StubReg):
    pass


class FlexClf(Flex, StubClf):
    pass


def local(h):
    """rdrobust: what it is asked is recorded, what it answers is free"""
    def frame(rows, pre, lo, hi, cols=("left", "right")):
        return pd.DataFrame({c: [h.real("%s_%s_%s" % (pre, r, c), lo, hi) for r in rows] for c in cols}, index=rows, dtype=object if h.sym else float)

    def rdrobust(y=None, x=None, c=None, fuzzy=None, h=None, b=None, **kw):
        H = H_()
        k = len(CALLS)
        three = ["Conventional", "Bias-Corrected", "Robust"]

        def answer(nm, lo, hi, open_):
            import zlib
            return H.real(nm, lo, hi) if open_ else lo + (hi - lo) * (zlib.crc32(nm.encode()) % 255 + 0.5) / 256
        rep = OPT["reports"]
        last = [rep == "all" or rep == k or rep == (k, i) for i in range(3)]
        bw = OPT["bws"] is not None and k == OPT["bws"]
        r = types.SimpleNamespace()
        r.coef = pd.DataFrame({"Coeff": [answer("c%d_%d" % (k, i), -2, 2, last[i]) for i in range(3)]}, index=three)
        r.se = pd.DataFrame({"Std. Err.": [answer("se%d_%d" % (k, i), 0.25, 2, last[i]) for i in range(3)]}, index=three)
        r.ci = pd.DataFrame({"CI Lower": [answer("lo%d_%d" % (k, i), -6, 2, last[i]) for i in range(3)], "CI Upper": [answer("up%d_%d" % (k, i), -2, 6, last[i]) for i in range(3)]}, index=three)
        r.N_h = [3 + k, 5 + 2 * k]
        r.bws = pd.DataFrame({s: [answer("h%d%s" % (k, s), 0.55, 0.7, bw), answer("b%d%s" % (k, s), 0.8, 1.5, bw)] for s in ("left", "right")}, index=["h", "b"])
        CALLS.append(dict(y=y, x=x, fuzzy=fuzzy, h=h, b=b, c=c, kw=kw, res=r, fits=len(H.fits)))
        return r

    def rdbwselect(y=None, x=None, fuzzy=None, **kw):
        CALLS.append(dict(select=True, y=y, x=x, fuzzy=fuzzy, kw=kw))
        H = H_()
        return types.SimpleNamespace(bws=pd.DataFrame({"h (left)": [H.real("sel0", 0.8, 0.95)], "h (right)": [H.real("sel1", 0.8, 0.95)], "b (left)": [H.real("sel2", 0.6, 0.95)], "b (right)": [H.real("sel3", 0.6, 0.95)]}))
    return {"rdrobust": lambda real: types.SimpleNamespace(rdrobust=rdrobust, rdbwselect=rdbwselect)}


def maxi(*v):
    m = v[0]
    for e in v[1:]:
        if bool(e > m):
            m = e
    return m


def kernel(name, x, b):
    a = -x if bool(x < 0) else x
    if name == "uniform":
        return 1.0 if bool(a <= b) else 0.0
    if bool(a >= b):
        return 0.0
    return (b - a) / b if name == "triangular" else 0.75 * (1 - (x / b) * (x / b))


def design(spec, s):
    d = 1.0 if bool(s >= 0) else 0.0
    return {"cutoff": [d], "cutoff and score": [d, s], "interacted cutoff and score": [d, d * s, s]}[spec]


def median_(v):
    return median(list(v))


def flex(spec="cutoff", kern="triangular", fuzzy=False, nrep=1, k=2, its=2, hfs=0.9, cutoff=0.0, n=12, srows=(), free=(1, 8), clf=False, ints=False, kw=None, reports=None, bws=None):
    def f(h):
        del CALLS[:]
        OPT.update(reports=reports, bws=bws)
        h.cache["free"] = free
        c = cutoff if cutoff != "free" else h.real("cutoff", -0.05, 0.05)
        shift = 0.0 if cutoff == "free" else cutoff
        sv = (BASE[:n] + shift).astype(object)
        for i in srows:
            sv[i] = h.real("s%d" % i, BASE[i] + shift - 0.0625, BASE[i] + shift + 0.0625)
        dv = np.array([0, 0, 0, 1, 0, 0, 1, 1, 0, 1, 1, 1], float) if fuzzy else (BASE >= 0) * 1.0
        dv = dv[:n]
        yv = num(5, n, -1, 2).astype(object) if not clf else np.array([0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 0], float)[:n]
        if not clf and not ints:
            yv[1], yv[8] = h.real("y1"), h.real("y8")
        if ints:
            yv, dv = np.array([0, 2, -1, 3, 1, 1, 4, 0, 2, 5, 3, 1])[:n], dv.astype(int)
        Y, D, SC = (h.arr(list(yv)) if not ints and not clf else yv), dv, h.arr(list(sv))
        dd = data(Y, D, s=SC)
        g = FlexClf("g") if clf else FlexReg("g")
        m = FlexClf("m") if fuzzy else None
        bw = h.real("h_fs", 0.6, 1.3) if hfs == "free" else hfs
        rd = dml.rdd.RDFlex(dd, g, m, fuzzy=fuzzy, cutoff=c, n_folds=k, n_rep=nrep, h_fs=bw, fs_specification=spec, fs_kernel=kern, **(kw or {}))
        score = [sv[i] - c for i in range(n)]
        if hfs is None:
            h.true(len(CALLS) == 1 and CALLS[0].get("select"), "one bandwidth selection")
            q = CALLS.pop(0)
            h.eq(q["y"], Y, "bandwidth selection: outcome")
            h.eq(q["x"], h.arr(score), "bandwidth selection: score")
            h.true((q["fuzzy"] is not None) == fuzzy, "bandwidth selection: design")
            if fuzzy:
                h.eq(q["fuzzy"], D, "bandwidth selection: treatment")
            bw = maxi(*[h.real("sel%d" % i, 0.8, 0.95) for i in range(2)], *[h.real("sel%d" % i, 0.6, 0.95) for i in (2, 3)])
        h.eq(rd.h_fs, bw, "initial bandwidth")
        kf = kern if isinstance(kern, str) else None
        W = lambda b: [kernel(kf, x, b) if kf else kern(x, b) for x in score]
        h.eq(rd.w, W(bw), "initial weights")
        if its == 2:
            rd.fit()
        else:
            rd.fit(n_iterations=its)
        h.true(len(CALLS) == nrep * its, "number of local estimations")
        if len(CALLS) != nrep * its:
            return
        Z = [design(spec, x) for x in score]
        nz = len(Z[0])
        at = {0: [0.0] * nz, 1: [1.0] + [0.0] * (nz - 1)}
        pos = 0
        for r in range(nrep):
            hh, bb, first = None, None, None
            b = bw
            for it in range(its):
                q = CALLS[r * its + it]
                label = "repetition %d iteration %d: " % (r, it)
                own = h.fits[pos:q["fits"]]
                pos = q["fits"]
                wt = W(b)
                part = {}
                for tag, outc, kind in (("g", Y, "clf" if clf else "reg"),) + ((("m", D, "clf"),) if fuzzy else ()):
                    fl = [x for x in own if x["tag"] == tag]
                    h.true(len(fl) == k, label + "one fit of %s per fold" % tag)
                    eta = [None] * n
                    for x in fl:
                        rows = list(x["rows"])
                        h.eq(x["y"], [obj(outc)[i] for i in rows], label + "target of " + tag)
                        h.eq(obj(x["w"]), [wt[i] for i in rows], label + "weights of " + tag)
                        h.eq(x["X"][:, :nz], [[Z[i][c_] for c_ in range(nz)] for i in rows], label + "cutoff features of " + tag)
                        h.true(x["ncol"] == nz + 1, label + "covariates of " + tag)
                        for i in set(range(n)) - set(rows):
                            h.true(eta[i] is None, label + "one prediction per row")
                            eta[i] = (value(x, at[0], i, kind) + value(x, at[1], i, kind)) / 2
                    h.true(all(e is not None for e in eta), label + "a prediction for every row")
                    if any(e is None for e in eta):
                        return
                    part[tag] = sorted(tuple(x["rows"]) for x in fl)
                    h.eq(q["y" if tag == "g" else "fuzzy"], [obj(outc)[i] - eta[i] for i in range(n)], label + ("adjusted outcome" if tag == "g" else "adjusted treatment"))
                h.true(fuzzy or q["fuzzy"] is None, label + "design")
                h.true(len({tuple(v) for v in part.values()}) == 1 and (first is None or first == part["g"]), label + "one split per repetition")
                first = part["g"]
                h.eq(q["x"], h.arr(score), label + "centred score")
                h.true(q["kw"] == (kw or {}) and not q["c"], label + "further arguments")
                last = it == its - 1
                if not last or its == 1:
                    h.true(q["h"] is None and q["b"] is None, label + "bandwidths are chosen")
                else:
                    h.eq(q["h"], hh, label + "bandwidth")
                    h.eq(q["b"], bb, label + "bias bandwidth")
                B = q["res"].bws
                hh, bb = maxi(*B.loc["h"].tolist()), maxi(*B.loc["b"].tolist())
                b = hh
        # what is reported
        fin = [CALLS[r * its + its - 1] for r in range(nrep)]
        C = [[q["res"].coef.values[i, 0] for q in fin] for i in range(3)]
        E = [[q["res"].se.values[i, 0] for q in fin] for i in range(3)]
        h.eq(rd.all_coef, C, "estimates per repetition")
        h.eq(rd.all_se, E, "errors per repetition")
        for i in range(3):
            mc = median_(C[i])
            h.eq(rd.coef[i], mc, "estimate %d" % i)
            v = median_([e * e + (a - mc) * (a - mc) / sum(q["res"].N_h) for a, e, q in zip(C[i], E[i], fin)])
            h.eq(rd.se[i] * rd.se[i], v, "squared error %d" % i)
            h.le(0.0, rd.se[i], "error %d" % i)
            h.eq(rd.t_stat[i] * rd.se[i], rd.coef[i], "t statistic %d" % i)
            for j in range(2):
                h.eq(rd.ci[i, j], median_([q["res"].ci.values[i, j] for q in fin]), "interval %d %d" % (i, j))
        if its > 1:
            for r in range(nrep):
                h.eq(rd.h[r], fin[r]["h"], "final bandwidth")
        for level in ((0.95, 0.8) if nrep < 3 else (0.9,)):
            ci = rd.confint(level=level)
            from scipy.stats import norm
            z = norm.ppf(1 - (1 - level) / 2)
            h.true(list(ci.index) == ["Conventional", "Bias-Corrected", "Robust"], "rows of confint")
            h.true(list(ci.columns) == ({0.95: ["2.5 %", "97.5 %"], 0.8: ["10.0 %", "90.0 %"], 0.9: ["5.0 %", "95.0 %"]}[level]), "columns of confint")
            for i in range(3):
                for j, sg in ((0, -1), (1, 1)):
                    h.eq(obj(ci.values)[i, j], median_([a + sg * z * e for a, e in zip(C[i], E[i])]), "confint %d %d" % (i, j))
        pv = rd.pval
        for i in range(3):
            h.true(S.b_any([rd.t_stat[i] * 0 + pv[i] >= 0]), "p-value %d" % i)
    return f


def warned(f):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        f()
    return [str(x.message) for x in w]


def refused(h):
    del CALLS[:]
    OPT.update(reports=None, bws=None)
    h.cache["free"] = ()
    n = 12
    Y, D, SC = h.arr(list(num(5, n, -1, 2))), (BASE >= 0) * 1.0, BASE
    g, m = FlexReg("g"), FlexClf("m")
    R = dml.rdd.RDFlex
    mk = lambda **kw: R(data(Y, D, s=SC), g, **dict({"h_fs": 0.9, "n_folds": 2}, **kw))
    what = h.choose(15, "request")
    bad = [(lambda: R(data(Y, D), g, h_fs=0.9), ValueError), (lambda: R(data(Y, D, s=(BASE > 0) * 1.0), g, h_fs=0.9), ValueError),
           (lambda: R(data(Y, [D, D], s=SC), g, h_fs=0.9), ValueError), (lambda: R(data(Y, D * 2, s=SC), g, h_fs=0.9), ValueError),
           (lambda: R(data(Y, D, s=SC, z=D), g, h_fs=0.9), ValueError), (lambda: R(pd.DataFrame(), g, h_fs=0.9), TypeError),
           (lambda: mk(cutoff=2.0), ValueError), (lambda: mk(cutoff="0"), TypeError), (lambda: mk(h_fs=1), TypeError), (lambda: mk(fs_specification="score"), ValueError),
           (lambda: mk(fs_kernel="gauss"), ValueError), (lambda: mk(fs_kernel=1), TypeError), (lambda: mk(fuzzy=True), ValueError),
           (lambda: mk().fit(n_iterations=0), ValueError), (lambda: mk().fit(n_iterations=1.0), TypeError)]
    f, ex = bad[what]
    h.raises(f, ex, "refused")
    h.true(not CALLS, "nothing estimated")
    h.true(any("sharp" in t for t in warned(lambda: R(data(Y, 1 - D, s=SC), g, h_fs=0.9, n_folds=2))), "sharp design on fuzzy data is warned about")
    h.true(any("wrong side" in t for t in warned(lambda: R(data(Y, 1 - D, s=SC), g, m, fuzzy=True, h_fs=0.9, n_folds=2))), "treatment on the wrong side is warned about")
    h.true(not warned(lambda: R(data(Y, D, s=SC), g, h_fs=0.9, n_folds=2)), "no warning otherwise")


def scenarios(tier):
    out = []

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, patches=local, bounds=name, **kw))
    for sp in ("cutoff", "cutoff and score", "interacted cutoff and score"):
        add("sharp-" + sp, flex(sp, srows=(5, 9), reports=1))
        add("fuzzy-" + sp, flex(sp, fuzzy=True, srows=(3,), bws=0))
    for kn in ("uniform", "epanechnikov", "triangular"):
        add("kernel-" + kn, flex("cutoff", kn, hfs="free", srows=(2,), free=()))
        add("kernel-bandwidth-" + kn, flex("cutoff", kn, bws=0, free=(), nrep=2))
    add("kernel-custom", flex(kern=lambda x, b: x * 0 + b * b, free=(), bws=0))
    add("fuzzy-2rep", flex(fuzzy=True, nrep=2, reports="all"))
    add("fuzzy-2rep-bandwidth", flex(fuzzy=True, nrep=2, bws=2))
    for r in (1, 3, 5):
        add("sharp-3rep-%d" % r, flex(nrep=3, free=(), reports=(r, (r - 1) // 2)))
    add("one-iteration", flex(its=1, nrep=2, reports="all"))
    add("three-iterations", flex(its=3, fuzzy=True, bws=1))
    add("three-iterations-reports", flex(its=3, nrep=2, reports="all", free=()))
    add("select", flex(hfs=None, free=()))
    add("select-fuzzy", flex(hfs=None, fuzzy=True, free=()))
    add("cutoff", flex("interacted cutoff and score", cutoff=0.5, fuzzy=True, srows=(6,)))
    add("cutoff-free", flex("cutoff and score", cutoff="free", fuzzy=True, free=()))
    add("classifier", flex(clf=True, reports=1))
    add("classifier-fuzzy", flex("interacted cutoff and score", clf=True, fuzzy=True, bws=0))
    add("integers", flex(ints=True, reports=1))
    add("integers-fuzzy", flex("cutoff and score", ints=True, fuzzy=True))
    add("3fold", flex(k=3, bws=0, kw={"p": 1, "vce": "nn"}))
    if tier == "thorough":
        for sp in ("cutoff", "cutoff and score", "interacted cutoff and score"):
            for kn in ("uniform", "epanechnikov", "triangular"):
                for fz in (False, True):
                    add("deep-%s-%s-%s" % (sp, kn, fz), flex(sp, kn, fuzzy=fz, nrep=2, k=3, srows=(3, 8), free=(1, 6, 8), bws=0, reports=3))
    add("refused", refused)
    return out

"""Builders used by the scenarios: data backends holding symbolic columns, stub learners, spec helpers."""
import zlib

import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin

import doubleml as dml

from . import sym as S
from .harness import H_
from .nparr import SymArray, as_sym, obj, plain
from .sym import SymBool, SymReal


def _fix(v):
    """values of a data frame selection: symbolic array, or plain floats"""
    if v is None or v.dtype != object:
        return v
    if any(isinstance(e, (SymReal, SymBool)) for e in v.flat):
        return as_sym(v)
    return v.astype(float)


class SymData(dml.DoubleMLData):
    x = property(lambda s: _fix(dml.DoubleMLData.x.fget(s)))
    y = property(lambda s: _fix(dml.DoubleMLData.y.fget(s)))
    d = property(lambda s: _fix(dml.DoubleMLData.d.fget(s)))
    z = property(lambda s: _fix(dml.DoubleMLData.z.fget(s)))
    t = property(lambda s: _fix(dml.DoubleMLData.t.fget(s)))
    s = property(lambda s: _fix(dml.DoubleMLData.s.fget(s)))


class SymClusterData(dml.DoubleMLClusterData):
    x = property(lambda s: _fix(dml.DoubleMLClusterData.x.fget(s)))
    y = property(lambda s: _fix(dml.DoubleMLClusterData.y.fget(s)))
    d = property(lambda s: _fix(dml.DoubleMLClusterData.d.fget(s)))
    z = property(lambda s: _fix(dml.DoubleMLClusterData.z.fget(s)))
    t = property(lambda s: _fix(dml.DoubleMLClusterData.t.fget(s)))
    s = property(lambda s: _fix(dml.DoubleMLClusterData.s.fget(s)))
    cluster_vars = property(lambda s: _fix(dml.DoubleMLClusterData.cluster_vars.fget(s)))


def _is_sym(col):
    return isinstance(col, np.ndarray) and col.dtype == object


ROW0 = 1000  # the covariate X1 of row i is ROW0 + i


def _dummy(n, k):
    return np.array([0.37 + 0.811 * ((i * 7 + k * 3) % 11) + 0.01 * i for i in range(n)])


def data(y, d, x=None, z=None, t=None, s=None, cluster=None, other=True, sig=True):
    """d/z: list of columns (or one); cluster: list of label columns.  Column 'X1' is the row number, so that the
    stub learners know which rows they see."""
    h = H_()
    n = len(y)
    d = d if isinstance(d, list) else [d]
    z = None if z is None else (z if isinstance(z, list) else [z])
    cols = {"y": y}
    dn = ["d%d" % (i + 1) for i in range(len(d))] if len(d) > 1 else ["d"]
    cols.update(zip(dn, d))
    zn = None
    if z is not None:
        zn = ["z%d" % (i + 1) for i in range(len(z))] if len(z) > 1 else ["z"]
        cols.update(zip(zn, z))
    if t is not None:
        cols["t"] = t
    if s is not None:
        cols["s"] = s
    cn = None
    if cluster is not None:
        cn = ["c%d" % (i + 1) for i in range(len(cluster))]
        cols.update({c: v if _is_sym(v) else np.asarray(v) for c, v in zip(cn, cluster)})
    cols["X1"] = np.arange(n, dtype=float) + ROW0
    xc = ["X1"]
    if x is not None:
        cols["X2"] = x
        xc.append("X2")
    if sig:
        for k, v in cols.items():
            h.cache[("col", k)] = v
    kw = dict(y_col="y", d_cols=dn if len(dn) > 1 else dn[0], x_cols=xc, z_cols=zn, t_col="t" if t is not None else None,
              s_col="s" if s is not None else None, use_other_treat_as_covariate=other)
    cls, scls = dml.DoubleMLData, SymData
    if cluster is not None:
        kw["cluster_cols"] = cn
        cls, scls = dml.DoubleMLClusterData, SymClusterData
    if not h.sym:
        return cls(pd.DataFrame({k: np.asarray(v) for k, v in cols.items()}), **kw)
    df = pd.DataFrame({k: (_dummy(n, i) if _is_sym(v) else np.asarray(v)) for i, (k, v) in enumerate(cols.items())})
    o = cls(df, **kw)
    for k, v in cols.items():
        if _is_sym(v):
            o.data[k] = pd.Series(list(plain(v)), index=df.index, dtype=object)
    o.__class__ = scls
    o._set_y_z_t_s()
    o.set_x_d(dn[0])
    if cn is not None and any(_is_sym(cols[c]) for c in cn):
        o._set_cluster_vars()
    return o


# ---- learners ---------------------------------------------------------------------------------------------------------
def _rows(X):
    X = np.asarray(plain(X))
    for j in range(X.shape[1]):
        if all((not isinstance(v, SymReal) or v.is_const) and float(v) >= ROW0 for v in X[:, j]):
            return tuple(int(float(v)) - ROW0 for v in X[:, j])
    raise AssertionError("the learner was given no row identifier among its features")


def _signature(h, rows, y):
    """name of the data column the learner was trained on, or a name of the target registered by the scenario"""
    y = obj(y)
    for k, v in h.cache.items():
        if isinstance(k, tuple) and k[0] in ("col", "target"):
            v = obj(v)
            if len(v) <= max(rows):
                continue
            pairs = [(v[r], t) for r, t in zip(rows, y)]
            pairs.sort(key=lambda p: isinstance(p[0], SymReal) or isinstance(p[1], SymReal))  # constants first
            if all(_same(a, b, h) for a, b in pairs):
                return k[1]
    return None


def _same(a, b, h):
    if S.is_nan(a) or S.is_nan(b):
        return False
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        r = (a == b)
        return r is True or (not isinstance(r, (bool, SymBool)) and bool(r))
    return abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(a)))


class _Stub(BaseEstimator):
    _symx_stub = True

    def __init__(self, tag="ml", par=None, par2=None):
        self.tag = tag
        self.par = par
        self.par2 = par2

    def fit(self, X, y, sample_weight=None):
        h = H_()
        rows = _rows(X)
        y = obj(y)
        if y.ndim == 2 and y.shape[1] == 1:
            y = y[:, 0]
        sig = _signature(h, rows, y)
        self.fit_ = {"tag": self.tag, "rows": rows, "y": y, "sig": sig, "par": self.par, "par2": self.par2, "kind": self.kind,
                     "ncol": np.shape(X)[1], "X": np.array(plain(X), copy=True), "w": sample_weight}
        self.log_(h)
        if self.kind == "clf":
            self.classes_ = np.array([0.0, 1.0])
        return self

    def log_(self, h):
        h.fits.append(self.fit_)

    def _pred(self, X):
        h = H_()
        rows = _rows(X)
        f = self.fit_
        return pred(f["tag"], f["sig"], f["rows"], rows, self.kind, f["par"])


class StubReg(RegressorMixin, _Stub):
    kind = "reg"

    def predict(self, X):
        return self._pred(X)


class StubClf(ClassifierMixin, _Stub):
    kind = "clf"

    def predict_proba(self, X):
        p = self._pred(X)
        return np.column_stack((1 - p, p))

    def predict(self, X):
        return self._pred(X)


RANGE = {"reg": (-3, 3), "clf": (0.125, 0.875)}


def pred(tag, sig, train, rows, kind="reg", par=None):
    """the (arbitrary but fixed) prediction of learner `tag`, trained on target `sig` in rows `train`, for each row"""
    h = H_()
    lo, hi = h.cache.get(("range", tag), RANGE[kind])
    ts = ",".join(map(str, sorted(train)))
    col = h.cache.get(("col", sig), h.cache.get(("target", sig)))
    if col is not None:  # targets that agree on the training rows are the same target
        sig = _signature(h, tuple(train), [obj(col)[k] for k in train])
    r = np.empty(len(rows), dtype=object)
    free = h.cache.get("free_rows")
    for i, k in enumerate(rows):
        nm = "%s~%s%s|%s|%d" % (tag, sig, "" if par is None else "/%s" % par, ts, k)
        if free is not None and k not in free:  # a fixed number that depends on everything the prediction may depend on
            r[i] = h.cache.get(("const", tag), float(lo) + (float(hi) - float(lo)) * (int(zlib.crc32(nm.encode()) % 4095) + 0.5) / 4096)
        else:
            r[i] = h.real(nm, lo, hi)
    return r.view(SymArray) if h.sym else r.astype(float)


def cf_pred(tag, sig, smpls, n, kind="reg", sub=None, par=None):
    """the cross-fitted predictions the documentation promises: row i by the learner fitted without i's fold"""
    h = H_()
    r = np.full(n, float("nan"), dtype=object)
    for train, test in smpls:
        tr = [int(i) for i in train if sub is None or sub[int(i)]]
        r[np.asarray(test, dtype=int)] = plain(pred(tag, sig, tr, [int(i) for i in test], kind, par))
    return r.view(SymArray) if h.sym else r.astype(float)


def ext(preds):
    """external predictions dict with columns per repetition: {'d': {'ml_l': (n, n_rep) array}}"""
    return preds


# ---- sample splits -----------------------------------------------------------------------------------------------------
def kfold(n, k, shift=0):
    """k contiguous-modulo test folds over n rows, `shift` rotates the assignment"""
    f = [(i + shift) % k for i in range(n)]
    out = []
    for j in range(k):
        test = np.array([i for i in range(n) if f[i] == j])
        train = np.array([i for i in range(n) if f[i] != j])
        out.append((train, test))
    return out


def splits(n, k, n_rep=1, style="mod"):
    return [kfold(n, k, r) if style == "mod" else blocks(n, k, r) for r in range(n_rep)]


def blocks(n, k, rot=0):
    perm = [(i * (2 * rot + 1) + rot) % n for i in range(n)] if np.gcd(2 * rot + 1, n) == 1 else list(range(n))
    parts = np.array_split(np.array(perm), k)
    return [(np.array(sorted(set(range(n)) - set(map(int, p)))), np.array(sorted(map(int, p)))) for p in parts]


# ---- spec arithmetic ---------------------------------------------------------------------------------------------------
def mean(v):
    v = list(obj(v).ravel())
    return ssum(v) / len(v)


def ssum(v):
    r = 0
    for e in v:
        r = r + e
    return r


def dotm(a, b):
    return ssum([x * y for x, y in zip(obj(a).ravel(), obj(b).ravel())])


def median(v):
    h = H_()
    v = list(v)
    if len(v) == 1:
        return v[0]
    if not h.sym:
        return float(np.median(np.array(v, dtype=float)))
    from .nparr import _median
    return _median(v)


def var0(v):
    m = mean(v)
    return mean([(e - m) * (e - m) for e in obj(v).ravel()])

"""Import doubleml from the working tree and put the symbolic stand-ins into (and out of) its modules."""
import builtins
import contextlib
import importlib
import os
import pkgutil
import sys
import warnings

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_k, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")

import doubleml  # noqa: E402

assert os.path.realpath(doubleml.__file__).startswith(os.path.realpath(REPO) + os.sep), doubleml.__file__

from . import sym as S  # noqa: E402
from .nparr import NP, SymArray, as_sym, has_sym, obj, plain  # noqa: E402
from .sym import SymBool, SymReal  # noqa: E402


def modules():
    out = []
    for m in pkgutil.walk_packages(doubleml.__path__, "doubleml."):
        if ".tests" not in m.name:
            out.append(importlib.import_module(m.name))
    return [doubleml] + out


MODULES = modules()


# ---- stand-ins --------------------------------------------------------------------------------------------------------
def s_isinstance(o, cls):
    if builtins.isinstance(o, SymReal):
        if cls is float or cls is np.floating or (builtins.isinstance(cls, tuple) and
                                                   any(c in (float, np.floating, np.float64) for c in cls)):
            return True
    if builtins.isinstance(o, SymBool):
        if cls is bool or (builtins.isinstance(cls, tuple) and bool in cls):
            return True
    return builtins.isinstance(o, cls)


def s_max(*a, **k):
    if len(a) > 1 and any(builtins.isinstance(e, SymReal) for e in a):
        r = a[0]
        for e in a[1:]:
            r = e if bool(e > r) else r
        return r
    return builtins.max(*a, **k)


def s_min(*a, **k):
    if len(a) > 1 and any(builtins.isinstance(e, SymReal) for e in a):
        r = a[0]
        for e in a[1:]:
            r = e if bool(e < r) else r
        return r
    return builtins.min(*a, **k)


class NormStub:
    """scipy.stats.norm: cdf/ppf/sf uninterpreted but monotone, symmetric and with the right range"""

    def __init__(self, real):
        self._r = real

    def _map(self, f, x):
        if builtins.isinstance(x, np.ndarray):
            if x.dtype == object:
                r = np.frompyfunc(f, 1, 1)(plain(x))
                return np.asarray(r, dtype=object).view(SymArray)
            return f
        return f(x)

    def cdf(self, x, *a, **k):
        return self._map(S.Phi, x) if has_sym(x) else self._r.cdf(x, *a, **k)

    def sf(self, x, *a, **k):
        return self._map(lambda v: S.Phi(-v), x) if has_sym(x) else self._r.sf(x, *a, **k)

    def ppf(self, q=None, *a, **k):
        return self._map(S.PPF, q) if has_sym(q) else self._r.ppf(q, *a, **k)

    def isf(self, q=None, *a, **k):
        return self._map(lambda v: S.PPF(1 - v), q) if has_sym(q) else self._r.isf(q, *a, **k)

    def __getattr__(self, n):
        return getattr(self._r, n)


def _tofloat(a):
    """a symbolic array all of whose entries are constants, as a float array; else None"""
    a = obj(a)
    if all((not builtins.isinstance(e, (SymReal, SymBool))) or (builtins.isinstance(e, SymReal) and e.is_const) for e in a.flat):
        return np.array([float(e) for e in a.flat]).reshape(a.shape)
    return None


def mk_type_of_target(real):
    def type_of_target(y, *a, **k):
        if has_sym(y):
            f = _tofloat(y)
            if f is None:
                return "continuous" if np.ndim(y) == 1 else "continuous-multioutput"
            return real(f, *a, **k)
        return real(y, *a, **k)
    return type_of_target


def mk_check_X_y(real):
    def check_X_y(X, y, *a, **k):
        if has_sym(X) or has_sym(y):
            # contract: X 2-d, y 1-d of the same length, values unchanged
            X2, y2 = X, y
            if builtins.isinstance(y2, np.ndarray) and y2.ndim == 2 and y2.shape[1] == 1:
                y2 = y2.reshape(-1)
            if np.ndim(X2) != 2 and not k.get("ensure_2d") is False:
                raise ValueError("Expected 2D array")
            if np.shape(X2)[0] != np.shape(y2)[0]:
                raise ValueError("Found input variables with inconsistent numbers of samples")
            return X2, y2
        return real(X, y, *a, **k)
    return check_X_y


def mk_check_array(real):
    def check_array(X, *a, **k):
        return X if has_sym(X) else real(X, *a, **k)
    return check_array


def mk_identity_if_sym(real):
    def f(x, *a, **k):
        return x if has_sym(x) else real(x, *a, **k)
    return f


def mk_noop_if_sym(real):
    def f(*args, **k):
        return None if any(has_sym(x) or (hasattr(x, "values") and getattr(x.values, "dtype", None) == object) for x in args) \
            else real(*args, **k)
    return f


def mk_cross_val_predict(real):
    """documented contract: predictions of the element's test fold by the estimator fitted on the train fold"""
    def cross_val_predict(estimator, X, y=None, *, cv=None, n_jobs=None, method="predict", **k):
        if not (has_sym(y) or has_sym(X) or getattr(estimator, "_symx_stub", False)):
            return real(estimator, X, y, cv=cv, n_jobs=n_jobs, method=method, **k)
        from sklearn.base import clone
        n = np.shape(X)[0]
        out = None
        y = y if has_sym(y) else np.asarray(y)
        for train, test in cv:
            est = clone(estimator)
            est.fit(X[train], y[train])
            p = getattr(est, method)(X[test])
            if out is None:
                out = np.full((n,) + np.shape(p)[1:], float("nan"), dtype=object).view(SymArray)
            out[test] = p
        return out
    return cross_val_predict


class LabelEncoderStub:
    """contract on 0/1 labels: identity"""

    def __init__(self):
        from sklearn.preprocessing import LabelEncoder
        self._r = LabelEncoder()

    def fit_transform(self, y):
        f = _tofloat(y) if has_sym(y) else y
        if f is None:
            raise S.Unsupported("label encoding of symbolic labels")
        return self._r.fit_transform(f)


def mk_rmse(real):
    def root_mean_squared_error(a, b, *x, **k):
        if has_sym(a) or has_sym(b):
            from .nparr import f_mean, _sqrt
            d = as_sym(obj(a)) - as_sym(obj(b))
            return _sqrt(f_mean(d * d))
        return real(a, b, *x, **k)
    return root_mean_squared_error


REPL = {
    "type_of_target": mk_type_of_target,
    "check_X_y": mk_check_X_y,
    "check_array": mk_check_array,
    "column_or_1d": mk_identity_if_sym,
    "check_consistent_length": mk_noop_if_sym,
    "assert_all_finite": mk_noop_if_sym,
    "cross_val_predict": mk_cross_val_predict,
    "root_mean_squared_error": mk_rmse,
    "norm": NormStub,
}
_MISSING = object()


class Patches:
    def __init__(self):
        self.saved = []

    def set(self, mod, name, val):
        self.saved.append((mod, name, mod.__dict__.get(name, _MISSING)))
        setattr(mod, name, val)

    def undo(self):
        for mod, name, old in reversed(self.saved):
            if old is _MISSING:
                delattr(mod, name)
            else:
                setattr(mod, name, old)
        self.saved = []


@contextlib.contextmanager
def symbolic(extra=None):
    """patched modules; `extra` maps a global name to a factory(real)->stand-in, applied in every doubleml module that has it"""
    repl = dict(REPL)
    if extra:
        repl.update(extra)
    p = Patches()
    cache = {}
    try:
        for m in MODULES:
            d = m.__dict__
            if d.get("np") is np:
                p.set(m, "np", NP)
            if d.get("numpy") is np:
                p.set(m, "numpy", NP)
            for name, mk in repl.items():
                if extra and name in extra and name not in d and hasattr(builtins, name):
                    p.set(m, name, mk(getattr(builtins, name)))
                    continue
                if name in d and (extra and name in extra or not builtins.isinstance(d[name], type(os))):
                    k = (name, id(d[name]))
                    if k not in cache:
                        cache[k] = mk(d[name])
                    p.set(m, name, cache[k])
            if "LabelEncoder" in d:
                p.set(m, "LabelEncoder", LabelEncoderStub)
            p.set(m, "isinstance", s_isinstance)
            p.set(m, "max", s_max)
            p.set(m, "min", s_min)
        yield
    finally:
        p.undo()


@contextlib.contextmanager
def concrete(extra=None):
    """unpatched code; `extra` maps global names to environment stand-ins (drawn randomness, scripted solvers)"""
    p = Patches()
    cache = {}
    try:
        for m in MODULES:
            d = m.__dict__
            for name, mk in (extra or {}).items():
                if name in d:
                    k = (name, id(d[name]))
                    if k not in cache:
                        cache[k] = mk(d[name])
                    p.set(m, name, cache[k])
        yield
    finally:
        p.undo()


class LinearRegressionStub:
    """contract: ordinary least squares with intercept (exact, Cramer's rule); the real class on concrete data"""

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        return o

    def __init__(self, fit_intercept=True, **k):
        from sklearn.linear_model import LinearRegression
        self.fit_intercept = fit_intercept
        self._r = LinearRegression(fit_intercept=fit_intercept, **k)
        self._beta = None

    def _design(self, X):
        X = obj(X)
        if self.fit_intercept:
            X = np.column_stack([np.ones(X.shape[0], dtype=object), X])
        return X

    def fit(self, X, y, sample_weight=None):
        if not (has_sym(X) or has_sym(y) or has_sym(sample_weight)):
            self._r.fit(plain(X), plain(y), sample_weight=sample_weight)
            return self
        from .nparr import _matmul, f_solve
        D = self._design(X)
        W = D.T if sample_weight is None else D.T * obj(sample_weight)[None, :]
        self._beta = obj(f_solve(_matmul(W, D), _matmul(W, obj(y))))
        if self.fit_intercept:
            self.intercept_, self.coef_ = self._beta[0], as_sym(self._beta[1:])
        else:
            self.coef_ = as_sym(self._beta)
        return self

    def predict(self, X):
        if self._beta is None:
            return self._r.predict(plain(X))
        from .nparr import _matmul
        return as_sym(_matmul(self._design(X), self._beta))

    def __getattr__(self, n):
        return getattr(self.__dict__["_r"], n)


REPL["LinearRegression"] = lambda real: LinearRegressionStub

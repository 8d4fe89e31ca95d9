"""Object arrays of symbolic values that behave like numpy float arrays, and a stand-in for the `numpy` module global."""
import types

import numpy as np

from . import sym as S
from .sym import SymBool, SymReal, Unsupported


def has_sym(x):
    if isinstance(x, (SymReal, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def plain(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, tuple):
        return tuple(plain(e) for e in x)
    if isinstance(x, list):
        return [plain(e) for e in x]
    return x


def obj(x):
    """plain object ndarray (0-d for scalars)"""
    if isinstance(x, np.ndarray):
        x = x.view(np.ndarray)
        return x if x.dtype == object else x.astype(object)
    if isinstance(x, (list, tuple)):
        if not x:
            return np.empty(0, dtype=object)
        parts = [obj(e) for e in x]
        r = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, e in enumerate(parts):
            r[i] = e if e.ndim else e[()]
        return r
    r = np.empty((), dtype=object)
    r[()] = x
    return r


_BT = (bool, np.bool_)


def finish(r):
    """collapse an object result: all-bool arrays become bool arrays, 0-d becomes a scalar"""
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.ndim == 0:
                return r[()]
            if r.size and all(isinstance(e, _BT) for e in r.flat):
                return r.astype(bool).view(SymArray)
            return r.view(SymArray)
        return r.view(SymArray) if r.ndim else r[()]
    return r


def as_sym(x):
    """symbolic float array"""
    if isinstance(x, np.ndarray) and x.dtype != object:
        x = x.astype(object)
    if isinstance(x, (list, tuple)):
        x = obj(x)
    return x.view(SymArray)


def wrap(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            return finish(r)
        return r
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap(e) for e in r)
    if isinstance(r, list):
        return [wrap(e) if isinstance(e, np.ndarray) else e for e in r]
    return r


# ---- elementwise ---------------------------------------------------------------------------------------------------
def _t(x):
    """truth value kept symbolic"""
    return S._tob(x)


def _nanbin(f):
    def g(a, b):
        if isinstance(a, SymBool):
            a = int(a)
        if isinstance(b, SymBool):
            b = int(b)
        return f(a, b)
    return g


def _truediv(a, b):
    if isinstance(a, (SymReal, SymBool)) or isinstance(b, (SymReal, SymBool)):
        if isinstance(b, (SymReal, SymBool)) and not isinstance(a, (SymReal, SymBool)):
            return SymReal.of(a) / SymReal.of(b) if not (S.is_nan(a) or S.is_inf(a)) else a * SymReal.of(b)
        return SymReal.of(a) / b
    with np.errstate(all="ignore"):
        return float(np.true_divide(float(a), float(b)))


def _sqrt(a):
    if isinstance(a, SymReal):
        return a.sqrt()
    a = float(a)
    return a ** 0.5 if a >= 0 else float("nan")


def _un(method, npf):
    def f(a):
        if isinstance(a, SymReal):
            return getattr(a, method)()
        if isinstance(a, SymBool):
            return getattr(SymReal.of(int(a)), method)()
        with np.errstate(all="ignore"):
            return float(npf(float(a)))
    return f


def _sign(a):
    if isinstance(a, SymReal):
        if bool(a > 0):
            return 1.0
        return -1.0 if bool(a < 0) else 0.0
    return float(np.sign(float(a)))


def _max(a, b):
    if S.is_nan(a) or S.is_nan(b):
        return float("nan")
    return a if bool(a >= b) else b


def _min(a, b):
    if S.is_nan(a) or S.is_nan(b):
        return float("nan")
    return a if bool(a <= b) else b


def _isnan(a):
    return S.is_nan(a)


def _isfinite(a):
    if isinstance(a, (SymReal, SymBool)):
        return True
    return bool(np.isfinite(float(a)))


def _isinf(a):
    if isinstance(a, (SymReal, SymBool)):
        return False
    return bool(np.isinf(float(a)))


def _pow(a, b):
    if isinstance(a, SymBool):
        a = int(a)
    return a ** b


def _abs(a):
    if isinstance(a, SymBool):
        return int(a)
    return abs(a)


import operator as op  # noqa: E402

ELEM = {
    "add": _nanbin(op.add), "subtract": _nanbin(op.sub), "multiply": _nanbin(op.mul),
    "divide": _truediv, "true_divide": _truediv,
    "power": _pow, "float_power": _pow, "square": lambda a: a * a, "reciprocal": lambda a: _truediv(1.0, a),
    "negative": lambda a: -a, "positive": lambda a: a,
    "absolute": _abs, "fabs": _abs, "sqrt": _sqrt,
    "exp": _un("exp", np.exp), "log": _un("log", np.log), "log1p": _un("log1p", np.log1p),
    "sign": _sign, "maximum": _max, "minimum": _min, "fmax": lambda a, b: b if S.is_nan(a) else (a if S.is_nan(b) else _max(a, b)),
    "fmin": lambda a, b: b if S.is_nan(a) else (a if S.is_nan(b) else _min(a, b)),
    "less": op.lt, "less_equal": op.le, "greater": op.gt, "greater_equal": op.ge, "equal": op.eq, "not_equal": op.ne,
    "logical_and": lambda a, b: S.b_and(a, b), "logical_or": lambda a, b: S.b_or(a, b),
    "logical_not": lambda a: S.b_not(_t(a)), "logical_xor": lambda a, b: S._tob(a) ^ S._tob(b),
    "isnan": _isnan, "isfinite": _isfinite, "isinf": _isinf,
    "conjugate": lambda a: a,
}


def _band(a, b):
    if isinstance(a, (SymBool,) + _BT) and isinstance(b, (SymBool,) + _BT):
        return S.b_and(a, b)
    return op.and_(a, b)


def _bor(a, b):
    if isinstance(a, (SymBool,) + _BT) and isinstance(b, (SymBool,) + _BT):
        return S.b_or(a, b)
    return op.or_(a, b)


def _inv(a):
    return S.b_not(a) if isinstance(a, (SymBool,) + _BT) else op.invert(a)


ELEM.update({"bitwise_and": _band, "bitwise_or": _bor, "invert": _inv,
             "bitwise_xor": lambda a, b: S._tob(a) ^ S._tob(b)})
NIN1 = {"square", "reciprocal", "negative", "positive", "absolute", "fabs", "sqrt", "exp", "log", "log1p", "sign", "logical_not",
        "isnan", "isfinite", "isinf", "invert", "conjugate"}
UF = {k: np.frompyfunc(f, 1 if k in NIN1 else 2, 1) for k, f in ELEM.items()}


def _mask(w):
    w = np.asarray(plain(w))
    if w.dtype == object:
        w = np.frompyfunc(bool, 1, 1)(w).astype(bool)
    return w


class IdxArray(np.ndarray):
    """concrete numbers that may be selected with a mask whose entries are still to be decided"""

    def __getitem__(self, ix):
        if isinstance(ix, np.ndarray) and ix.dtype == object:
            return np.asarray(self)[_mask(ix)]
        return np.ndarray.__getitem__(self, ix)

    def __array_finalize__(self, o):
        pass


class SymArray(np.ndarray):
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, where=True, **kw):
        name = ufunc.__name__
        ins = [plain(i) for i in inputs]
        kw.pop("casting", None)
        kw.pop("dtype", None)
        kw.pop("subok", None)
        if not any(isinstance(i, np.ndarray) and i.dtype == object or isinstance(i, (SymReal, SymBool)) for i in ins):
            # purely concrete data inside a SymArray view (bool masks, index arrays)
            o = {} if out is None else {"out": tuple(plain(x) for x in out)}
            if where is not True:
                o["where"] = _mask(where)
            r = getattr(ufunc, method)(*ins, **o, **kw)
            if out is not None:
                return out[0] if len(out) == 1 else out
            return r.view(SymArray) if isinstance(r, np.ndarray) else r
        if method == "__call__":
            if name in UF:
                f = UF[name]
            elif name in ("matmul", "vecdot"):
                f = None
            else:
                raise Unsupported("ufunc " + name)
            if name == "matmul":
                r = _matmul(obj(ins[0]), obj(ins[1]))
                return finish(r)
            objs = [obj(i) for i in ins]
            if where is not True:
                w = np.broadcast_to(_mask(where), np.broadcast_shapes(*[o.shape for o in objs], np.shape(where)))
                bs = [np.broadcast_to(o, w.shape) for o in objs]
                if out is not None:
                    tgt = out[0]
                    pt = plain(tgt)
                else:
                    pt = tgt = np.full(w.shape, float("nan"), dtype=object)
                for ix in np.ndindex(w.shape):
                    if w[ix]:
                        pt[ix] = ELEM[name](*[b[ix] for b in bs])
                return finish(tgt) if out is None else tgt
            r = f(*objs)
            if out is not None:
                plain(out[0])[...] = r
                return out[0]
            if not isinstance(r, np.ndarray):
                return r
            return finish(r)
        if method == "reduce":
            if where is not True:
                raise Unsupported("reduce with where")
            a = obj(ins[0])
            axis = kw.get("axis", 0)
            keep = kw.get("keepdims", False)
            base = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}.get(name)
            f = {"add": ELEM["add"], "multiply": ELEM["multiply"], "maximum": _max, "minimum": _min, "fmax": ELEM["fmax"],
                 "fmin": ELEM["fmin"], "logical_and": S.b_and, "logical_or": S.b_or}.get(name)
            if f is None:
                raise Unsupported("reduce " + name)
            r = _reduce(a, f, base, axis, keep)
            if out is not None:
                plain(out[0])[...] = r
                return out[0]
            return finish(r) if isinstance(r, np.ndarray) else r
        if method == "accumulate":
            r = getattr(np.frompyfunc(ELEM[name], 2, 1), "accumulate")(obj(ins[0]), **{k: v for k, v in kw.items() if k == "axis"},
                                                                       dtype=object)
            return finish(r)
        if method == "outer":
            r = UF[name].outer(obj(ins[0]), obj(ins[1]))
            return finish(r)
        raise Unsupported("ufunc method %s.%s" % (name, method))

    def __array_function__(self, func, types_, args, kwargs):
        f = FUNCS.get(func)
        if f is not None and _deep_sym(args, kwargs):
            return f(*args, **kwargs)
        r = func(*[plain(a) for a in args], **{k: plain(v) for k, v in kwargs.items()})
        if "out" in kwargs and kwargs["out"] is not None:
            return kwargs["out"]
        return wrap(r)

    def _ix(self, ix):
        if isinstance(ix, tuple):
            return tuple(self._ix1(i) for i in ix)
        return self._ix1(ix)

    @staticmethod
    def _ix1(i):
        if isinstance(i, np.ndarray):
            i = plain(i)
            if i.dtype == object:
                if all(isinstance(e, (SymBool,) + _BT) for e in i.flat):
                    return np.frompyfunc(bool, 1, 1)(i).astype(bool)
                return np.frompyfunc(int, 1, 1)(i).astype(int)
            return i
        if isinstance(i, SymReal):
            return int(i)
        if isinstance(i, SymBool):
            return bool(i)
        return i

    def __getitem__(self, ix):
        r = np.ndarray.__getitem__(self, self._ix(ix))
        return r

    def __setitem__(self, ix, v):
        if isinstance(v, np.ndarray) and v.ndim == 0 and v.dtype == object:
            v = v[()]
        if v is None:  # a missing number, as in an array of floats
            v = float("nan")
        np.ndarray.__setitem__(self, self._ix(ix), plain(v))

    # array methods that would bypass the protocols for object arrays
    def astype(self, dtype, *a, **k):
        if self.dtype != object:
            if np.dtype(dtype).kind == "f":
                return np.ndarray.astype(plain(self), float).astype(object).view(SymArray)
            return np.ndarray.astype(self, dtype, *a, **k)
        kind = np.dtype(dtype).kind
        p = plain(self)
        if kind == "f":
            return np.frompyfunc(lambda e: int(e) * 1.0 if isinstance(e, (SymBool,) + _BT) else e, 1, 1)(p).view(SymArray) \
                if p.size else p.copy().view(SymArray)
        if kind == "b":
            return np.frompyfunc(bool, 1, 1)(p).astype(bool).view(SymArray)
        if kind in "iu":
            return np.frompyfunc(int, 1, 1)(p).astype(int)
        if kind == "O":
            return self.copy()
        raise Unsupported("astype %s" % dtype)

    def mean(self, axis=None, **k):
        return f_mean(self, axis=axis, **k)

    def var(self, axis=None, **k):
        return f_var(self, axis=axis, **k)

    def std(self, axis=None, **k):
        return f_std(self, axis=axis, **k)

    def sum(self, axis=None, keepdims=False, **k):
        if self.dtype != object:
            return np.ndarray.sum(plain(self), axis=axis, keepdims=keepdims)
        return np.add.reduce(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, keepdims=False, **k):
        return np.multiply.reduce(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, keepdims=False, **k):
        return np.maximum.reduce(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, keepdims=False, **k):
        return np.minimum.reduce(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, **k):
        return np.logical_and.reduce(self, axis=axis)

    def any(self, axis=None, **k):
        return np.logical_or.reduce(self, axis=axis)

    def clip(self, min=None, max=None, out=None, **k):
        return f_clip(self, min, max, out=out)

    def dot(self, o, out=None):
        return f_dot(self, o)

    def round(self, *a, **k):
        raise Unsupported("round")

    def item(self, *a):
        return plain(self).item(*a)

    def tolist(self):
        return plain(self).tolist()

    def __deepcopy__(self, memo):
        return self.copy()

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(plain(self).reshape(-1)[0])

    def __float__(self):
        return float(plain(self).reshape(-1)[0])


def _deep_sym(args, kwargs):
    def d(x):
        if isinstance(x, np.ndarray):
            return x.dtype == object
        if isinstance(x, (SymReal, SymBool)):
            return True
        if isinstance(x, (list, tuple)):
            return any(d(e) for e in x)
        return False
    return any(d(a) for a in args) or any(d(v) for v in kwargs.values())


def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, np.integer)):
        axis = (int(axis),)
    return tuple(a % nd for a in axis)


def _reduce(a, f, base, axis, keepdims=False):
    if a.ndim == 0:
        return a[()]
    ax = _axes(axis, a.ndim)
    rest = [i for i in range(a.ndim) if i not in ax]
    b = np.transpose(a, rest + list(ax)).reshape([a.shape[i] for i in rest] + [-1])
    out = np.empty(b.shape[:-1], dtype=object)
    for ix in np.ndindex(out.shape):
        v = b[ix]
        it = iter(v)
        if base is None:
            try:
                acc = next(it)
            except StopIteration:
                raise ValueError("zero-size array to reduction operation")
        else:
            acc = base
        for e in it:
            acc = f(acc, e)
        out[ix] = acc
    if keepdims:
        out = out.reshape([1 if i in ax else a.shape[i] for i in range(a.ndim)])
    if out.ndim == 0:
        return out[()]
    return out


def _count(a, axis):
    a = np.shape(a)
    n = 1
    for i in _axes(axis, len(a)):
        n *= a[i]
    return n


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    a = obj(a)
    if where is not None:
        a = np.where(_mask(np.broadcast_to(where, a.shape)), a, 0)
    return np.add.reduce(a.view(SymArray), axis=axis, keepdims=bool(keepdims))


def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None):
    if where is not None:
        raise Unsupported("mean where")
    a = obj(a)
    n = _count(a, axis)
    if n == 0:
        return float("nan")
    s = f_sum(a, axis=axis, keepdims=keepdims)
    return np.divide(s, n) if isinstance(s, np.ndarray) else _truediv(s, n)


def f_average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        r = f_mean(a, axis=axis)
        return (r, _count(obj(a), axis)) if returned else r
    a, w = as_sym(obj(a)), as_sym(obj(weights))
    if w.shape != a.shape:
        sh = [1] * a.ndim
        sh[axis] = w.shape[0]
        w = np.broadcast_to(plain(w).reshape(sh), a.shape).view(SymArray)
    sw = f_sum(w, axis=axis)
    r = np.divide(f_sum(a * w, axis=axis), sw) if isinstance(sw, np.ndarray) else _truediv(f_sum(a * w, axis=axis), sw)
    return (r, sw) if returned else r


def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = as_sym(obj(a))
    m = f_mean(a, axis=axis, keepdims=True)
    n = _count(a, axis)
    d = a - m
    s = f_sum(d * d, axis=axis, keepdims=keepdims)
    return np.divide(s, n - ddof) if isinstance(s, np.ndarray) else _truediv(s, n - ddof)


def f_std(a, **k):
    v = f_var(a, **k)
    return np.sqrt(v) if isinstance(v, np.ndarray) else _sqrt(v)


def sort_values(v):
    """insertion sort with symbolic comparisons; nan last"""
    vals = [e for e in v if not S.is_nan(e)]
    nans = [e for e in v if S.is_nan(e)]
    out = []
    for e in vals:
        i = len(out)
        while i > 0 and bool(e < out[i - 1]):
            i -= 1
        out.insert(i, e)
    return out + nans


def _along(a, axis, fn):
    """apply fn(list)->scalar along axis"""
    a = obj(a)
    if axis is None:
        return fn(list(a.ravel()))
    if isinstance(axis, tuple):
        raise Unsupported("tuple axis")
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for ix in np.ndindex(out.shape):
        out[ix] = fn(list(b[ix]))
    return finish(out)


def _median(v):
    if any(S.is_nan(e) for e in v):
        return float("nan")
    if len(v) == 1:
        return v[0]
    if len(v) == 2:
        return (v[0] + v[1]) / 2
    s = sort_values(v)
    n = len(s)
    if n % 2:
        return s[n // 2]
    return (s[n // 2 - 1] + s[n // 2]) / 2


def f_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    r = _along(a, axis, _median)
    if keepdims:
        r = np.expand_dims(r, axis)
    return r


def f_nanmedian(a, axis=None, **k):
    return _along(a, axis, lambda v: _median([e for e in v if not S.is_nan(e)]))


def _quantile(v, q):
    if isinstance(q, SymReal) and not q.is_const:
        s = sort_values(v)
        for j in range(len(s) - 1):
            if j == len(s) - 2 or bool(q * (len(s) - 1) <= j + 1):
                return s[j] + (s[j + 1] - s[j]) * (q * (len(s) - 1) - j)
        return s[0]
    q = S.frac(q) if not isinstance(q, SymReal) else q.const()
    s = sort_values(v)
    pos = q * (len(s) - 1)
    lo = int(pos)
    g = pos - lo
    if g == 0:
        return s[lo]
    return s[lo] + (s[lo + 1] - s[lo]) * SymReal.of(g)


def f_quantile(a, q, axis=None, **k):
    k.pop("keepdims", None)
    if k.get("method", "linear") != "linear":
        raise Unsupported("quantile method")
    if isinstance(q, (list, np.ndarray)) and np.ndim(q):
        return as_sym([plain(_along(a, axis, lambda v, qq=qq: _quantile(v, qq))) for qq in q])
    return _along(a, axis, lambda v: _quantile(v, q))


def f_percentile(a, q, axis=None, **k):
    return f_quantile(a, np.asarray(q) / 100 if np.ndim(q) else S.frac(q) / 100, axis=axis, **k)


def _nn(v):
    return [e for e in v if not S.is_nan(e)]


def f_nanmean(a, axis=None, **k):
    def m(v):
        v = _nn(v)
        return _truediv(_sumlist(v), len(v)) if v else float("nan")
    return _along(a, axis, m)


def _sumlist(v):
    r = 0
    for e in v:
        r = r + (int(e) if isinstance(e, (SymBool,) + _BT) else e)
    return r


def f_nansum(a, axis=None, **k):
    return _along(a, axis, lambda v: _sumlist(_nn(v)))


def f_nanvar(a, axis=None, ddof=0, **k):
    def m(v):
        v = _nn(v)
        mu = _truediv(_sumlist(v), len(v))
        return _truediv(_sumlist([(e - mu) * (e - mu) for e in v]), len(v) - ddof)
    return _along(a, axis, m)


def f_nanstd(a, axis=None, **k):
    r = f_nanvar(a, axis=axis, **k)
    return np.sqrt(r) if isinstance(r, np.ndarray) else _sqrt(r)


def f_where(c, x=None, y=None):
    c = np.asarray(plain(c)) if not isinstance(c, (SymBool, SymReal)) else obj(c)
    if c.dtype == object:
        c = np.frompyfunc(lambda e: bool(e), 1, 1)(c)
        c = np.asarray(c).astype(bool)
    if x is None and y is None:
        return np.nonzero(c)
    return finish(np.asarray(np.where(c, obj(x), obj(y))))


def f_clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.pop("min", a_min)
    a_max = k.pop("max", a_max)
    r = a
    if a_min is not None:
        r = np.maximum(as_sym(obj(r)), a_min) if np.ndim(r) else _max(r, a_min)
    if a_max is not None:
        r = np.minimum(as_sym(obj(r)), a_max) if np.ndim(r) else _min(r, a_max)
    if out is not None:
        plain(out)[...] = plain(r)
        return out
    return r


def _matmul(a, b):
    if a.ndim == 1 and b.ndim == 1:
        return _sumlist([x * y for x, y in zip(a, b)])
    if a.ndim == 1:
        return _matmul(a.reshape(1, -1), b)[0]
    if b.ndim == 1:
        return _matmul(a, b.reshape(-1, 1))[..., 0]
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("matmul nd")
    if a.shape[1] != b.shape[0]:
        raise ValueError("matmul: shapes %s %s not aligned" % (a.shape, b.shape))
    out = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            out[i, j] = _sumlist([a[i, k] * b[k, j] for k in range(a.shape[1])])
    return out


def f_dot(a, b, out=None):
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return as_sym(a) * b if a.ndim else as_sym(b) * a[()]
    return finish(_matmul(a, b)) if (a.ndim > 1 or b.ndim > 1) else _matmul(a, b)


def f_outer(a, b, out=None):
    a, b = obj(a).ravel(), obj(b).ravel()
    return finish(np.frompyfunc(ELEM["multiply"], 2, 1).outer(a, b))


def f_argsort(a, axis=-1, kind=None, **k):
    a = obj(a)
    if a.ndim != 1:
        raise Unsupported("argsort nd")
    idx = []
    for j in range(len(a)):
        i = len(idx)
        while i > 0 and bool(a[j] < a[idx[i - 1]]):
            i -= 1
        idx.insert(i, j)
    return np.array(idx, dtype=int)


def f_sort(a, axis=-1, **k):
    a = obj(a)
    if a.ndim != 1:
        b = np.moveaxis(a.copy(), axis, -1)
        for ix in np.ndindex(b.shape[:-1]):
            b[ix] = sort_values(list(b[ix]))
        return finish(np.moveaxis(b, -1, axis))
    return finish(obj(sort_values(list(a))))


def f_argmax(a, axis=None, **k):
    def m(v):
        bi = 0
        for i in range(1, len(v)):
            if bool(v[i] > v[bi]):
                bi = i
        return bi
    r = _along(a, axis, m)
    return r.astype(int) if isinstance(r, np.ndarray) else r


def f_argmin(a, axis=None, **k):
    def m(v):
        bi = 0
        for i in range(1, len(v)):
            if bool(v[i] < v[bi]):
                bi = i
        return bi
    r = _along(a, axis, m)
    return r.astype(int) if isinstance(r, np.ndarray) else r


def f_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if axis is not None:
        raise Unsupported("unique axis")
    v = list(obj(a).ravel())
    vals, inv = [], []
    for e in v:
        for i, u in enumerate(vals):
            if bool(e == u):
                inv.append(i)
                break
        else:
            inv.append(len(vals))
            vals.append(e)
    order = list(f_argsort(obj(vals))) if vals else []
    pos = {o: i for i, o in enumerate(order)}
    res = [_tonum([vals[o] for o in order])]
    inv = np.array([pos[i] for i in inv], dtype=int)
    if return_index:
        res.append(np.array([int(np.where(inv == i)[0][0]) for i in range(len(order))]))
    if return_inverse:
        res.append(inv)
    if return_counts:
        res.append(np.array([int((inv == i).sum()) for i in range(len(order))]))
    return res[0] if len(res) == 1 else tuple(res)


def _tonum(lst):
    if all(isinstance(e, (int, float, np.number)) or (isinstance(e, SymReal) and e.is_const) for e in lst):
        return as_sym(obj([float(e) for e in lst]))
    return finish(obj(lst))


def f_isin(a, b, invert=False, **k):
    a, b = obj(a), list(obj(b).ravel())

    def m(e):
        r = S.b_any([e == x for x in b])
        return S.b_not(r) if invert else r
    r = np.frompyfunc(m, 1, 1)(a)
    return finish(np.asarray(r))


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def m(x, y):
        if S.is_nan(x) or S.is_nan(y):
            return equal_nan and S.is_nan(x) and S.is_nan(y)
        d = x - y
        t = S.frac(atol) + S.frac(rtol) * (abs(y) if not isinstance(y, SymReal) else y)
        if isinstance(y, SymReal):
            t = S.frac(atol) + S.frac(rtol) * abs(y)
        return S.b_and(d <= t, -d <= t)
    return finish(np.asarray(np.frompyfunc(m, 2, 1)(obj(a), obj(b))))


def f_allclose(a, b, **k):
    return bool(S.b_all(list(np.atleast_1d(plain(f_isclose(a, b, **k))).ravel())))


def f_array_equal(a, b, equal_nan=False):
    a, b = obj(a), obj(b)
    if a.shape != b.shape:
        return False
    return bool(S.b_all([(x == y) if not (equal_nan and S.is_nan(x) and S.is_nan(y)) else True
                         for x, y in zip(a.ravel(), b.ravel())]))


def _like(fill):
    def f(a, dtype=None, order="K", subok=True, shape=None, **k):
        if dtype is not None and np.dtype(dtype).kind in "biu":
            return np.full(np.shape(a) if shape is None else shape, fill, dtype=dtype)
        return as_sym(np.full(np.shape(a) if shape is None else shape, float(fill), dtype=object))
    return f


def f_full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None, **k):
    sh = np.shape(a) if shape is None else shape
    if dtype is not None and np.dtype(dtype).kind in "biu":
        return np.full(sh, fill_value, dtype=dtype)
    r = np.empty(sh, dtype=object)
    r[...] = plain(fill_value)
    return r.view(SymArray)


def f_copy(a, *x, **k):
    return obj(a).copy().view(SymArray)


def f_any(a, axis=None, **k):
    return np.logical_or.reduce(as_sym(obj(a)), axis=axis)


def f_all(a, axis=None, **k):
    return np.logical_and.reduce(as_sym(obj(a)), axis=axis)


def _stack(npf):
    def f(arrs, *a, **k):
        return finish(npf([obj(x) for x in arrs], *a, **k))
    return f


def f_cumsum(a, axis=None, **k):
    a = obj(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return np.add.accumulate(a.view(SymArray), axis=axis)


def f_diff(a, n=1, axis=-1, **k):
    a = as_sym(obj(a))
    sl1 = [slice(None)] * a.ndim
    sl2 = [slice(None)] * a.ndim
    sl1[axis], sl2[axis] = slice(1, None), slice(None, -1)
    return a[tuple(sl1)] - a[tuple(sl2)]


def f_inv(a):
    a = obj(a)
    n = a.shape[0]
    aug = [[SymReal.of(a[i, j]) for j in range(n)] + [SymReal.of(int(i == j)) for j in range(n)] for i in range(n)]
    return finish(obj([r[n:] for r in _gauss(aug, n)]))


def f_solve(a, b):
    a, b = obj(a), obj(b)
    one = b.ndim == 1
    if one:
        b = b.reshape(-1, 1)
    n = a.shape[0]
    aug = [[SymReal.of(x) for x in a[i]] + [SymReal.of(x) for x in b[i]] for i in range(n)]
    r = obj([row[n:] for row in _gauss(aug, n)])
    return finish(r[:, 0] if one else r)


def _det(m):
    if len(m) == 1:
        return m[0][0]
    r = SymReal.of(0)
    for j in range(len(m)):
        minor = [row[:j] + row[j + 1:] for row in m[1:]]
        t = m[0][j] * _det(minor)
        r = r + t if j % 2 == 0 else r - t
    return r


def _gauss(aug, n):
    """Cramer's rule: fraction free, no pivot forks; det != 0 is a side condition"""
    A = [row[:n] for row in aug]
    B = [row[n:] for row in aug]
    d = _det(A)
    k = len(B[0])
    out = [[None] * k for _ in range(n)]
    for c in range(k):
        for i in range(n):
            M = [[B[r][c] if j == i else A[r][j] for j in range(n)] for r in range(n)]
            out[i][c] = _det(M) / d
    return [A[i] + out[i] for i in range(n)]


def f_einsum(spec, *ops, **k):
    ins, outs = spec.replace(" ", "").split("->") if "->" in spec else (spec.replace(" ", ""), None)
    ins = ins.split(",")
    ops = [obj(o) for o in ops]
    if outs is None:
        al = "".join(ins)
        outs = "".join(sorted(c for c in set(al) if al.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dims[c] = n
    summed = [c for c in dims if c not in outs]
    out = np.empty([dims[c] for c in outs], dtype=object)
    for ix in np.ndindex(out.shape):
        env = dict(zip(outs, ix))
        acc = 0
        for jx in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, jx))
            t = 1
            for s, o in zip(ins, ops):
                t = t * o[tuple(env[c] for c in s)]
            acc = acc + t
        out[ix] = acc
    return finish(out)


def f_cov(m, y=None, rowvar=True, ddof=1, bias=False, **k):
    a = obj(m)
    if a.ndim == 1:
        a = a.reshape(1, -1)
    if y is not None:
        a = np.vstack([a, obj(y).reshape(1, -1)])
    if not rowvar:
        a = a.T
    if bias:
        ddof = 0
    a = a.view(SymArray)
    d = a - f_mean(a, axis=1, keepdims=True)
    r = f_dot(d, d.T) / (a.shape[1] - (1 if ddof is None else ddof))
    return r if r.shape != (1, 1) else r[0, 0]


def f_count_nonzero(a, axis=None, **k):
    return _along(a, axis, lambda v: sum(1 for e in v if bool(e)))


def f_nan_to_num(x, *a, nan=0.0, **k):
    return finish(np.asarray(np.frompyfunc(lambda e: nan if S.is_nan(e) else e, 1, 1)(obj(x))))


def f_round(a, *x, **k):
    raise Unsupported("round")


def f_intersect1d(a, b, **k):
    v = [e for e in f_unique(a) if bool(f_isin(obj([e]), b)[0])]
    return _tonum(v)


def f_setdiff1d(a, b, **k):
    v = [e for e in f_unique(a) if not bool(f_isin(obj([e]), b)[0])]
    return _tonum(v)


def f_asarray(a, dtype=None, **k):
    if dtype is not None and np.dtype(dtype).kind in "biu":
        return as_sym(obj(a)).astype(dtype)
    return obj(a).view(SymArray)


FUNCS = {
    np.sum: f_sum, np.mean: f_mean, np.average: f_average, np.var: f_var, np.std: f_std, np.median: f_median,
    np.nanmedian: f_nanmedian, np.quantile: f_quantile, np.percentile: f_percentile, np.nanmean: f_nanmean,
    np.nansum: f_nansum, np.nanvar: f_nanvar, np.nanstd: f_nanstd, np.where: f_where, np.clip: f_clip, np.dot: f_dot,
    np.outer: f_outer, np.argsort: f_argsort, np.sort: f_sort, np.argmax: f_argmax, np.argmin: f_argmin,
    np.unique: f_unique, np.isin: f_isin, np.isclose: f_isclose, np.allclose: f_allclose, np.array_equal: f_array_equal,
    np.zeros_like: _like(0), np.ones_like: _like(1), np.empty_like: _like(float("nan")), np.full_like: f_full_like,
    np.copy: f_copy, np.any: f_any, np.all: f_all, np.cumsum: f_cumsum, np.diff: f_diff, np.linalg.inv: f_inv,
    np.linalg.solve: f_solve, np.einsum: f_einsum, np.cov: f_cov, np.count_nonzero: f_count_nonzero,
    np.nan_to_num: f_nan_to_num, np.round: f_round, np.around: f_round, np.intersect1d: f_intersect1d,
    np.setdiff1d: f_setdiff1d, np.linalg.pinv: f_inv,
    np.vstack: _stack(np.vstack), np.hstack: _stack(np.hstack), np.column_stack: _stack(np.column_stack),
    np.stack: _stack(np.stack), np.concatenate: _stack(np.concatenate),
    np.max: lambda a, axis=None, **k: as_sym(obj(a)).max(axis=axis, **k),
    np.min: lambda a, axis=None, **k: as_sym(obj(a)).min(axis=axis, **k),
    np.amax: lambda a, axis=None, **k: as_sym(obj(a)).max(axis=axis, **k),
    np.amin: lambda a, axis=None, **k: as_sym(obj(a)).min(axis=axis, **k),
    np.prod: lambda a, axis=None, **k: as_sym(obj(a)).prod(axis=axis, **k),
    np.nanmax: lambda a, axis=None, **k: _along(a, axis, lambda v: _reduce(obj(_nn(v)), _max, None, None)),
    np.nanmin: lambda a, axis=None, **k: _along(a, axis, lambda v: _reduce(obj(_nn(v)), _min, None, None)),
}
_BYNAME = {f.__name__: g for f, g in FUNCS.items()}
_CREATE = {"zeros": 0.0, "ones": 1.0, "empty": float("nan")}


class _Sub:
    """proxy of a numpy submodule (np.linalg, ...)"""

    def __init__(self, mod):
        self._m = mod

    def __getattr__(self, n):
        a = getattr(self._m, n)
        if callable(a) and not isinstance(a, type):
            return _wrap_callable(a)
        return a


def _wrap_callable(f):
    g = FUNCS.get(f) if getattr(f, "__hash__", None) else None

    def call(*args, **kw):
        if g is not None and _deep_sym(args, kw):
            return g(*args, **kw)
        if isinstance(f, np.ufunc) and _deep_sym(args, kw):
            # make sure the SymArray protocol is used even for plain object arrays / scalars
            args = [as_sym(obj(a)) if has_sym(a) else a for a in args]
            return f(*args, **kw)
        return wrap(f(*args, **kw))
    call.__name__ = getattr(f, "__name__", "np_fn")
    call._np = f
    return call


class _UfuncProxy:
    def __init__(self, f):
        self._f = f
        self.__name__ = f.__name__
        self._call = _wrap_callable(f)

    def __call__(self, *a, **k):
        return self._call(*a, **k)

    def __getattr__(self, n):
        return getattr(self._f, n)


class NPProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__dict__["_rand"] = None

    def __getattr__(self, name):
        if name == "random" and self.__dict__["_rand"] is not None:
            return self.__dict__["_rand"]
        a = getattr(np, name)
        if isinstance(a, np.ufunc):
            r = _UfuncProxy(a)
        elif isinstance(a, types.ModuleType) and name != "random":
            r = _Sub(a)
        elif isinstance(a, type) or not callable(a):
            return a
        else:
            r = _wrap_callable(a)
        self.__dict__[name] = r
        return r

    def _mk(self, name, shape, dtype):
        if dtype is not None and np.dtype(dtype).kind in "biuUS":
            return getattr(np, name)(shape, dtype=dtype)
        return np.full(shape, _CREATE[name], dtype=object).view(SymArray)

    def arange(self, *a, **k):
        return np.arange(*a, **k).view(IdxArray)

    def zeros(self, shape, dtype=None, order="C"):
        return self._mk("zeros", shape, dtype)

    def ones(self, shape, dtype=None, order="C"):
        return self._mk("ones", shape, dtype)

    def empty(self, shape, dtype=None, order="C"):
        if dtype is object:
            return np.empty(shape, dtype=object).view(SymArray)
        return self._mk("empty", shape, dtype)

    def full(self, shape, fill_value, dtype=None, order="C"):
        if dtype is not None and np.dtype(dtype).kind in "biuUS":
            return np.full(shape, fill_value, dtype=dtype)
        if isinstance(fill_value, (bool, np.bool_, str)) or fill_value is None:
            return np.full(shape, fill_value)
        if dtype is None and isinstance(fill_value, (int, np.integer)):
            return np.full(shape, fill_value)
        r = np.empty(shape, dtype=object)
        r[...] = plain(fill_value)
        return r.view(SymArray)

    def _like2(self, a, fill, dtype, shape):
        sh = np.shape(a) if shape is None else shape
        src = a.dtype if isinstance(a, np.ndarray) else np.asarray(a).dtype
        dt = np.dtype(dtype) if dtype is not None else src
        if dt.kind in "biu":
            if fill is None:
                return np.empty(sh, dtype=dt)
            with np.errstate(all="ignore"):
                return np.full_like(np.empty(sh, dtype=dt), fill)
        r = np.empty(sh, dtype=object)
        r[...] = float("nan") if fill is None else plain(fill)
        return r.view(SymArray)

    def zeros_like(self, a, dtype=None, order="K", subok=True, shape=None):
        return self._like2(a, 0.0, dtype, shape)

    def ones_like(self, a, dtype=None, order="K", subok=True, shape=None):
        return self._like2(a, 1.0, dtype, shape)

    def empty_like(self, a, dtype=None, order="K", subok=True, shape=None):
        return self._like2(a, None, dtype, shape)

    def full_like(self, a, fill_value, dtype=None, order="K", subok=True, shape=None):
        return self._like2(a, fill_value, dtype, shape)

    def array(self, x, dtype=None, copy=True, **k):
        if has_sym(x):
            if dtype is not None and np.dtype(dtype).kind in "biu":
                return as_sym(obj(x)).astype(dtype)
            return obj(x).copy().view(SymArray)
        return wrap(np.array(plain(x), dtype=dtype, **{kk: v for kk, v in k.items()}))

    def asarray(self, x, dtype=None, **k):
        if has_sym(x):
            return f_asarray(x, dtype)
        return wrap(np.asarray(plain(x), dtype=dtype))

    asanyarray = asarray
    ascontiguousarray = asarray

    def isscalar(self, x):
        return isinstance(x, (SymReal, SymBool)) or np.isscalar(x)

    def isnan(self, x, *a, **k):
        if isinstance(x, (SymReal, SymBool)):
            return False
        return _wrap_callable(np.isnan)(x, *a, **k)

    def isfinite(self, x, *a, **k):
        if isinstance(x, (SymReal, SymBool)):
            return True
        return _wrap_callable(np.isfinite)(x, *a, **k)

    def ravel(self, x, *a, **k):
        return obj(x).ravel().view(SymArray) if has_sym(x) else np.ravel(x)

    def squeeze(self, x, axis=None):
        return wrap(np.squeeze(plain(x), axis=axis)) if not isinstance(x, (SymReal,)) else x

    def float64(self, x=0.0):
        return x if isinstance(x, SymReal) else np.float64(x)


NP = NPProxy()

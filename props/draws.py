"""np.random replaced by arbitrary draws, in the symbolic run and in the replay."""
import contextlib

import numpy as np

from symx.nparr import NP


class Draws:
    def __init__(self, h, lo=-2, hi=2, fixed=None):
        self.h, self.lo, self.hi, self.log, self.k = h, lo, hi, [], 0
        self.fixed = fixed  # (kind, call number, index) -> number or None for an arbitrary one

    def _draw(self, kind, size, lo, hi):
        size = (size,) if isinstance(size, (int, np.integer)) else (() if size is None else tuple(size))
        k = self.k
        self.k += 1
        r = np.empty(size, dtype=object)
        for ix in np.ndindex(*size):
            f = self.fixed(kind, k, ix) if self.fixed else None
            r[ix] = self.h.real("%s%d[%s]" % (kind, k, ",".join(map(str, ix))), lo, hi) if f is None else float(f)
        a = self.h.arr(r) if size else r[()]
        self.log.append((kind, a))
        return a

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._draw("normal", size, self.lo, self.hi) * scale + loc

    def standard_normal(self, size=None):
        return self._draw("normal", size, self.lo, self.hi)

    def randn(self, *size):
        return self._draw("normal", size, self.lo, self.hi)

    def exponential(self, scale=1.0, size=None):
        return self._draw("exponential", size, 0, self.hi) * scale

    def standard_exponential(self, size=None):
        return self._draw("exponential", size, 0, self.hi)

    def __getattr__(self, n):
        return getattr(np.random, n)


_NAMES = ("normal", "standard_normal", "randn", "exponential", "standard_exponential")


@contextlib.contextmanager
def drawing(h, **kw):
    d = Draws(h, **kw)
    if h.sym:
        old = NP.__dict__["_rand"]
        NP.__dict__["_rand"] = d
        try:
            yield d
        finally:
            NP.__dict__["_rand"] = old
    else:
        saved = {k: getattr(np.random, k) for k in _NAMES}
        for k in _NAMES:
            setattr(np.random, k, getattr(d, k))
        try:
            yield d
        finally:
            for k, v in saved.items():
                setattr(np.random, k, v)

"""Numeric evaluation of symbolic values at a point."""
import hashlib
import math

import numpy as np

from . import poly as P, sym as S
from .sym import SymReal


def _h01(name, seed):
    d = hashlib.sha256(("%s|%s" % (seed, name)).encode()).digest()
    return int.from_bytes(d[:6], "big") / float(1 << 48)


# ---- numeric evaluation of polynomials ------------------------------------------------------------------------------
class Evaluator:
    def __init__(self, values=None, lazy=None):
        self.v = {} if values is None else values  # name -> float
        self.cache = {}
        self.lazy = lazy  # aid -> Fraction, for variables without a value yet
        self.exact = {}
        self.upto = 0  # number of path constraints already checked at this point

    def atom(self, aid):
        r = self.cache.get(aid)
        if r is not None:
            return r
        a = P.ATOMS[aid]
        if a.kind == "var":
            r = self.v.get(a.name)
            if r is None:
                if self.lazy is None:
                    raise KeyError(a.name)
                x = self.lazy(aid, a.name)
                self.exact[a.name] = x
                r = self.v[a.name] = float(x)
        elif a.kind == "poly":
            r = self.poly(a.poly)
        elif a.kind == "sqrt":
            x = self.poly(a.poly)
            if x < -1e-12:
                raise ValueError("sqrt of negative")
            r = math.sqrt(max(x, 0))
        else:
            from scipy.stats import norm
            if a.fname == "exp":
                r = math.exp(self.poly(a.args[0]))
            elif a.fname == "log":
                r = math.log(self.poly(a.args[0]))
            elif a.fname == "Phi":
                r = float(norm.cdf(self.poly(a.args[0])))
            elif a.fname == "ppf":
                r = float(norm.ppf(self.poly(a.args[0])))
            else:
                # other uninterpreted functions: a fixed pseudo-random function of the argument values
                args = tuple(round(self.poly(x), 9) if isinstance(x, dict) else x for x in a.args)
                r = -2 + 4 * _h01(repr((a.fname, args)), "uf")
        self.cache[aid] = r
        return r

    def poly(self, p):
        t = 0.0
        for m, c in p.items():
            x = float(c)
            for aid, e in m:
                x *= self.atom(aid) ** e
            t += x
        return t

    def val(self, x):
        return self.poly(x.p) if isinstance(x, SymReal) else x

    def holds(self, b, margin=0.0):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        if b.op == "lt":
            return self.poly(b.a) < -margin
        if b.op == "le":
            return self.poly(b.a) <= -margin if margin else self.poly(b.a) <= 1e-12
        if b.op == "eq":
            return abs(self.poly(b.a)) <= 1e-10
        if b.op == "not":
            return not self.holds(b.a[0])
        if b.op == "and":
            return all(self.holds(x, margin) for x in b.a)
        if b.op == "or":
            return any(self.holds(x, margin) for x in b.a)
        raise S.Unsupported("evaluate " + b.op)



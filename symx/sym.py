"""Symbolic reals and booleans, and the path explorer (dynamic symbolic execution by re-execution)."""
import math
import numbers
import time
from fractions import Fraction

import numpy as np

from . import poly as P
from .z3load import z3


DEBUG = bool(__import__('os').environ.get('SYMX_DEBUG'))


class Unsupported(Exception):
    """the engine cannot encode this operation"""


class PathAbort(BaseException):
    """this path is infeasible or cut"""


class Budget(BaseException):
    pass


def frac(x):
    """a concrete number read as a rational: the simple rational next to a float, else its exact value"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    f = Fraction(x).limit_denominator(100000)
    if abs(float(f) - x) <= 1e-14 * max(1.0, abs(x)) and f != 0 or x == 0:
        return f
    return Fraction(x)


def is_nan(x):
    return isinstance(x, (float, np.floating)) and x != x


def is_inf(x):
    return isinstance(x, (float, np.floating)) and x in (float("inf"), float("-inf"))


# ----------------------------------------------------------------------------------------------------------------------
class SymBool:
    """op in {'lt','le','eq'} over a canonical polynomial (p <op> 0), or 'and'/'or'/'not' trees"""
    __slots__ = ("op", "a", "_key")
    __array_priority__ = -1e6

    def __init__(self, op, a):
        self.op, self.a = op, a
        self._key = None

    def key(self):
        if self._key is None:
            if self.op in ("lt", "le", "eq"):
                self._key = (self.op, P.key(self.a))
            elif self.op == "raw":
                self._key = ("raw", self.a.get_id())
            else:
                self._key = (self.op,) + tuple(x.key() for x in self.a)
        return self._key

    def __bool__(self):
        return EX().decide(self)

    def __and__(self, o):
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))

    __rxor__ = __xor__

    # numeric use of a truth value: decided (forked)
    def _i(self):
        return int(bool(self))

    def __int__(self):
        return self._i()

    def __index__(self):
        return self._i()

    def __float__(self):
        return float(self._i())

    def __add__(self, o):
        return self._i() + o

    def __radd__(self, o):
        return o + self._i()

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    def __rmul__(self, o):
        return o * self._i()

    def __truediv__(self, o):
        return self._i() / o

    def __rtruediv__(self, o):
        return SymReal.of(o) / self._i()

    def __neg__(self):
        return -self._i()

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return bool(self) == bool(o)
        return self._i() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else b_not(r)

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "<SymBool %s>" % self.op

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def b_not(x):
    if isinstance(x, (bool, np.bool_)):
        return not x
    if not isinstance(x, SymBool):
        return not x
    if x.op == "lt":
        return SymBool("le", P.scale(x.a, -1))
    if x.op == "le":
        return SymBool("lt", P.scale(x.a, -1))
    if x.op == "not":
        return x.a[0]
    return SymBool("not", (x,))


def _tob(x):
    if isinstance(x, (SymBool, bool)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, SymReal):
        return x != 0
    if isinstance(x, numbers.Number):
        return bool(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return _tob(x.item())
    raise Unsupported("truth value of %r" % type(x))


def b_and(x, y):
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        return NotImplemented
    x, y = _tob(x), _tob(y)
    if x is False or y is False:
        return False
    if x is True:
        return y
    if y is True:
        return x
    return SymBool("and", (x, y))


def b_or(x, y):
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        return NotImplemented
    x, y = _tob(x), _tob(y)
    if x is True or y is True:
        return True
    if x is False:
        return y
    if y is False:
        return x
    return SymBool("or", (x, y))


def b_all(xs):
    r = True
    for x in xs:
        r = b_and(r, x)
        if r is False:
            return False
    return r


def b_any(xs):
    r = False
    for x in xs:
        r = b_or(r, x)
        if r is True:
            return True
    return r


def implies(a, b):
    return b_or(b_not(a), b)


# ----------------------------------------------------------------------------------------------------------------------
LAZY = 300  # products with more term pairs are only expanded when somebody looks at the value


def _nn(o):
    if isinstance(o, SymReal):
        return o.nn or (o._t is None and P.is_const(o._p) and P.const_val(o._p) >= 0)
    return bool(o >= 0)


class SymReal(numbers.Number):
    """nn: the value is non-negative by construction (squares, sums and products of non-negative values, ...)"""
    __slots__ = ("_p", "_t", "nn")
    __array_priority__ = -1e6

    def __init__(self, p, nn=False):
        self._p = p
        self._t = None
        self.nn = nn

    @staticmethod
    def lazy(t, nn):
        r = SymReal(None, nn)
        r._t = t
        return r

    @property
    def p(self):
        if self._t is not None:
            _force(self)
        return self._p

    @staticmethod
    def of(x):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymBool):
            return SymReal(P.const(int(x)))
        return SymReal(P.const(frac(x)))

    @property
    def is_const(self):
        return P.is_const(self.p)

    def const(self):
        return P.const_val(self.p)

    # numpy attributes some code paths look at
    @property
    def real(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return np.dtype(float)

    def item(self):
        return self

    def astype(self, t, **k):
        return self

    def mean(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    def reshape(self, *shape, **k):
        from .nparr import as_sym
        r = np.empty((), dtype=object)
        r[()] = self
        return as_sym(r).reshape(*shape)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (SymReal, (self.p,))

    def copy(self):
        return self

    def _co(self, o):
        if isinstance(o, SymReal):
            return o.p
        if isinstance(o, SymBool):
            return P.const(int(o))
        if isinstance(o, (bool, int, float, Fraction, np.number, np.bool_)):
            if is_nan(o) or is_inf(o):
                return None
            return P.const(frac(o))
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return self._co(o.item())
        return NotImplemented

    def __add__(self, o):
        if self._t is not None or (isinstance(o, SymReal) and o._t is not None):
            a = _operand(o)
            if a is not None:
                return SymReal.lazy(("add", self, a, 1), _nn(self) and _nn(a))
        q = self._co(o)
        if q is NotImplemented:
            return NotImplemented
        if q is None:
            return float(o)
        return SymReal(P.add(self.p, q), _nn(self) and _nn(o))

    __radd__ = __add__

    def __sub__(self, o):
        if self._t is not None or (isinstance(o, SymReal) and o._t is not None):
            a = _operand(o)
            if a is not None:
                return SymReal.lazy(("add", self, a, -1), False)
        q = self._co(o)
        if q is NotImplemented:
            return NotImplemented
        if q is None:
            return -float(o)
        return SymReal(P.add(self.p, q, -1))

    def __rsub__(self, o):
        if self._t is not None:
            a = _operand(o)
            if a is not None:
                return SymReal.lazy(("add", a, self, -1), False)
        q = self._co(o)
        if q is NotImplemented:
            return NotImplemented
        if q is None:
            return float(o)
        return SymReal(P.add(q, self.p, -1))

    def __mul__(self, o):
        if isinstance(o, SymReal):
            if self._t is not None or o._t is not None or len(self._p) * len(o._p) > LAZY:
                return SymReal.lazy(("mul", self, o), (_nn(self) and _nn(o)) or o is self or (
                    self._t is None and o._t is None and self._p == o._p))
        elif self._t is not None:
            a = _operand(o)
            if a is not None:
                return SymReal.lazy(("mul", self, a), _nn(self) and _nn(a))
        q = self._co(o)
        if q is NotImplemented:
            return NotImplemented
        if q is None:
            if is_nan(o):
                return float("nan")
            s = self > 0
            if bool(s):
                return float(o)
            return -float(o) if bool(self < 0) else float("nan")
        return SymReal(P.mul(self.p, q), (_nn(self) and _nn(o)) or (isinstance(o, SymReal) and o.p == self.p))

    __rmul__ = __mul__

    def __truediv__(self, o):
        q = self._co(o)
        if q is NotImplemented:
            return NotImplemented
        if q is None:
            return float("nan") if is_nan(o) else 0.0
        if isinstance(o, SymReal) and o.nn:
            _note_nn(q)
        if self._t is not None or len(self._p) > LAZY:
            r = ldiv(self, q)
        else:
            r = div(self.p, q)
        if _nn(self) and isinstance(r, SymReal) and _nn(o):
            r.nn = True
        return r

    def __rtruediv__(self, o):
        q = self._co(o)
        if q is NotImplemented:
            return NotImplemented
        if q is None:
            return float("nan") if is_nan(o) else o * self
        if self.nn:
            _note_nn(self.p)
        r = div(q, self.p)
        if _nn(self) and isinstance(r, SymReal) and _nn(o):
            r.nn = True
        return r

    def __floordiv__(self, o):
        if self.is_const and not isinstance(o, SymReal):
            return self.const() // frac(o)
        raise Unsupported("floor division")

    def __mod__(self, o):
        if self.is_const and not isinstance(o, SymReal):
            return self.const() % frac(o)
        raise Unsupported("modulo")

    def __neg__(self):
        if self._t is not None:
            return SymReal.lazy(("add", ZERO, self, -1), False)
        return SymReal(P.scale(self.p, Fraction(-1)))

    def __pos__(self):
        return self

    def __abs__(self):
        if self.nn:
            return self
        if self.is_const:
            return SymReal(P.const(abs(self.const())))
        if len(self.p) == 1:
            (m, c), = self.p.items()
            if all(P.ATOMS[i].kind == "sqrt" or EX().known_nonneg(i) or e % 2 == 0 for i, e in m):
                return SymReal({m: abs(c)}, True)
        return self if bool(self >= 0) else -self

    def absolute(self):
        return abs(self)

    def fabs(self):
        return abs(self)

    def __pow__(self, k):
        if isinstance(k, SymReal) and k.is_const:
            k = k.const()
        if isinstance(k, (int, float, Fraction, np.number)):
            kf = frac(k)
            if kf.denominator == 1:
                n = int(kf)
                if n < 0:
                    r = div(P.const(1), P.ipow(self.p, -n))
                    if isinstance(r, SymReal) and (n % 2 == 0 or self.nn):
                        r.nn = True
                    return r
                if n == 2:
                    return self.square()
                return SymReal(P.ipow(self.p, n), n % 2 == 0 or self.nn)
            if kf == Fraction(1, 2):
                return self.sqrt()
            if kf == Fraction(-1, 2):
                return 1 / self.sqrt()
        raise Unsupported("power %r" % (k,))

    def __rpow__(self, b):
        if self.is_const:
            return SymReal.of(b) ** self.const()
        return exp_(self * math.log(b))

    def square(self):
        if self._t is not None or len(self._p) ** 2 > LAZY:
            return SymReal.lazy(("mul", self, self), True)
        return SymReal(P.mul(self.p, self.p), True)

    def conjugate(self):
        return self

    def sqrt(self):
        if self._t is not None and self.nn:
            return SymReal.lazy(("sqrt", self), True)
        return self._sqrt()

    def _sqrt(self):
        if self.is_const:
            c = self.const()
            if c < 0:
                return float("nan")
            r = P._isqrt_frac(c)
            if r is not None:
                return SymReal(P.const(r))
        if not self.nn:
            EX().side(self >= 0, "sqrt argument >= 0")
        if len(self.p) == 1:
            (m, c), = self.p.items()
            # pull out a rational square coefficient
            r = P._isqrt_frac(abs(c))
            if r is not None and r != 1 and c > 0:
                return SymReal(P.scale(P.sqrt({m: Fraction(1)}), r), True)
        return SymReal(P.sqrt(self.p), True)

    def exp(self):
        return exp_(self)

    def log(self):
        return log_(self)

    def log1p(self):
        return log_(self + 1)

    def isnan(self):
        return False

    def floor(self):
        if self.is_const:
            return math.floor(self.const())
        raise Unsupported("floor")

    def rint(self):
        if self.is_const:
            return round(self.const())
        raise Unsupported("rint")

    def __round__(self, n=None):
        if self.is_const:
            return round(float(self.const()), n) if n else round(self.const())
        raise Unsupported("round")

    def _cmp(self, o, op):
        q = self._co(o)
        if q is NotImplemented:
            return NotImplemented
        if q is None:
            if is_nan(o):
                return op == "ne"
            pos = float(o) > 0
            return {"lt": pos, "le": pos, "gt": not pos, "ge": not pos, "eq": False, "ne": True}[op]
        if self.nn and not q and (self._t is not None or not self.is_const):
            if op in ("lt", "ge"):
                return op == "ge"
            EX().note_side("a sum of squares is not exactly zero")
            return op in ("gt", "ne")
        d = P.add(self.p, q, -1)
        if P.is_const(d):
            c = P.const_val(d)
            return {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0, "eq": c == 0, "ne": c != 0}[op]
        if len(d) <= 6:
            # decided by the declared ranges of the inputs
            lo, hi = EX()._iv(d)
            if hi < 0:
                return op in ("lt", "le", "ne")
            if lo > 0:
                return op in ("gt", "ge", "ne")
        if op in ("gt", "ge"):
            d = P.scale(d, -1)
            op = {"gt": "lt", "ge": "le"}[op]
        # canonical scaling by a positive constant
        c = abs(P.lead(d)[1])
        d = P.scale(d, 1 / c)
        if op in ("eq", "ne"):
            if P.lead(d)[1] < 0:
                d = P.scale(d, -1)
            r = SymBool("eq", d)
            return r if op == "eq" else b_not(r)
        return SymBool(op, d)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __hash__(self):
        if self.is_const:
            return hash(self.const())
        return hash(P.key(self.p))

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if self.is_const:
            return float(self.const())
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.is_const:
            return int(self.const())
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.is_const and self.const().denominator == 1:
            return int(self.const())
        raise TypeError("symbolic value used as an index")

    def is_integer(self):
        if self.is_const:
            return self.const().denominator == 1
        raise Unsupported("is_integer")

    def __format__(self, spec):
        if self.is_const:
            return format(float(self.const()), spec)
        return "<sym>"

    def __str__(self):
        return str(float(self.const())) if self.is_const else "<sym>"

    def __repr__(self):
        return str(float(self.const())) if self.is_const else "<sym:%d terms>" % len(self.p)


ZERO = SymReal({})


def _operand(o):
    """o as an operand of a lazy operation (None: the eager code has to look at it)"""
    if isinstance(o, SymReal):
        return o
    if isinstance(o, (SymBool, bool, int, float, Fraction, np.number, np.bool_)) and not isinstance(o, SymBool):
        if is_nan(o) or is_inf(o):
            return None
        return SymReal(P.const(frac(o)))
    return None


def _force(x):
    """evaluate the delayed operations below x (no recursion: chains of sums can be long)"""
    stack = [x]
    while stack:
        v = stack[-1]
        t = v._t
        if t is None:
            stack.pop()
            continue
        todo = [a for a in t[1:3] if isinstance(a, SymReal) and a._t is not None]
        if todo:
            stack.extend(todo)
            continue
        if t[0] == "add":
            v._p = P.add(t[1]._p, t[2]._p, t[3])
        elif t[0] == "mul":
            v._p = P.mul(t[1]._p, t[2]._p)
        else:
            a = SymReal(t[1]._p, True)
            r = a._sqrt()
            v._p = r.p if isinstance(r, SymReal) else P.const(frac(r))
        v._t = None
        stack.pop()


def ldiv(x, q):
    """x / q with the numerator left unexpanded"""
    if P.is_const(q):
        return SymReal.lazy(("mul", x, SymReal(P.const(1 / P.const_val(q)))), False) if q else div(x.p, q)
    EX().side(SymReal(q) != 0, "division by zero")
    return SymReal.lazy(("mul", x, SymReal(P.inv(q))), False)


def _note_nn(q):
    """q >= 0 by construction: its normalised inverse atom is positive"""
    if len(q) > 1:
        EX().nn_pending.append(q)


def div(p, q):
    if not q:
        if P.is_const(p):
            c = P.const_val(p)
            return float("nan") if c == 0 else (float("inf") if c > 0 else float("-inf"))
        EX().side(False, "division by the constant zero")
        return float("nan")
    if P.is_const(q):
        return SymReal(P.scale(p, 1 / P.const_val(q)))
    if not p:
        EX().side(SymReal(q) != 0, "division by zero")
        return SymReal({})
    EX().side(SymReal(q) != 0, "division by zero")
    return SymReal(P.mul(p, P.inv(q)))


def _uf(name, *args):
    return SymReal(P.uf(name, tuple(a.p if isinstance(a, SymReal) else a for a in args)))


def exp_(x):
    x = SymReal.of(x)
    if x.is_const:
        return SymReal.of(math.exp(float(x.const())))
    return _uf("exp", x)


def log_(x):
    x = SymReal.of(x)
    if x.is_const:
        c = float(x.const())
        return SymReal.of(math.log(c)) if c > 0 else (float("-inf") if c == 0 else float("nan"))
    EX().side(x > 0, "log argument > 0")
    return _uf("log", x)


def _lead_sign(p):
    ms = [m for m in p if m != P.ONE]
    m = max(ms, key=lambda t: (len(t), t))
    return 1 if p[m] > 0 else -1


def Phi(x):
    """standard normal cdf as an uninterpreted function; Phi(-x) = 1 - Phi(x) is built into the canonical form"""
    if is_nan(x):
        return float("nan")
    if is_inf(x):
        return 1.0 if x > 0 else 0.0
    x = SymReal.of(x)
    if x.is_const:
        from scipy.stats import norm
        return SymReal.of(float(norm.cdf(float(x.const()))))
    if P.ONE not in x.p and _lead_sign(x.p) < 0:
        return 1 - _uf("Phi", -x)
    return _uf("Phi", x)


def PPF(q):
    """standard normal quantile, uninterpreted; ppf(1-q) = -ppf(q) built into the canonical form"""
    if is_nan(q):
        return float("nan")
    q = SymReal.of(q)
    if q.is_const:
        from scipy.stats import norm
        r = float(norm.ppf(float(q.const())))
        return r if is_nan(r) or is_inf(r) else SymReal.of(r)
    c = q - Fraction(1, 2)
    if c.is_const:
        return SymReal.of(0)
    if _lead_sign(c.p) < 0:
        return -_uf("ppf", 1 - q)
    return _uf("ppf", q)


# ----------------------------------------------------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0


class Explorer:
    """one depth-first exploration over the decisions made by a re-executed function"""

    def __init__(self, max_paths=4000, timeout_ms=8000, branch_ms=2000, deadline=None):
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.branch_ms = branch_ms
        self.deadline = deadline
        self.stats = Stats()
        self.stack = []  # decisions: [value, tried_other]
        self.sides = {}
        self.z3vars = {}
        self.nonneg_atoms = set()
        self.vbounds = {}  # atom id -> (lo, hi)
        self.interval_decided = 0
        self._ivc = {}
        self.nn_pending, self.nn_polys = [], set()
        self._zc = z3.main_ctx().ref()
        self._zreal = z3.RealSort().ast
        self._znc, self._zat, self._zmono, self._zpc, self._zkeep = {}, {}, {}, {}, []
        self._begin()

    def set_bounds(self, v, lo, hi):
        (m, _), = v.p.items()
        self.vbounds[m[0][0]] = (lo, hi)
        self._ivc.clear()
        if lo >= 0:
            self.nonneg_atoms.add(m[0][0])

    # --- intervals (floats, outward slack), a cheap pre-check for branch conditions
    def _iv_atom(self, aid, depth):
        r = self._ivc.get(aid)
        if r is not None:
            return r
        a = P.ATOMS[aid]
        inf = float("inf")
        r = (-inf, inf)
        if a.kind == "var":
            b = self.vbounds.get(aid)
            if b is not None:
                r = (float(b[0]), float(b[1]))
        elif a.kind == "sqrt":
            lo, hi = self._iv(a.poly, depth + 1)
            r = (math.sqrt(max(lo, 0)), math.sqrt(hi) if 0 <= hi < inf else inf)
        elif a.kind == "poly":
            r = self._iv(a.poly, depth + 1)
        elif a.fname == "Phi":
            r = (0.0, 1.0)
        elif a.fname == "exp":
            r = (0.0, inf)
        self._ivc[aid] = r
        return r

    @staticmethod
    def _iv_pow(b, e):
        lo, hi = b
        inf = float("inf")
        if e < 0:
            if lo > 0 or hi < 0:
                lo, hi = 1 / hi, 1 / lo
                e = -e
            else:
                return (0.0, inf) if (e % 2 == 0 or lo >= 0) else (-inf, inf)
        if e == 1:
            return lo, hi
        try:
            a, b2 = lo ** e, hi ** e
        except OverflowError:
            return -inf, inf
        if e % 2 == 0:
            return (0.0 if lo <= 0 <= hi else min(a, b2)), max(a, b2)
        return a, b2

    def _iv(self, p, depth=0):
        inf = float("inf")
        if depth > 4 or len(p) > 400:
            return -inf, inf
        L = U = 0.0
        for m, c in p.items():
            l = u = 1.0
            for aid, e in m:
                bl, bu = self._iv_pow(self._iv_atom(aid, depth), e)
                xs = [x if x == x else 0.0 for x in (l * bl, l * bu, u * bl, u * bu)]
                l, u = min(xs), max(xs)
            c = float(c)
            l, u = (l * c, u * c) if c >= 0 else (u * c, l * c)
            L += l
            U += u
            if L != L or U != U:
                return -inf, inf
        s = 1e-9 * (1 + (abs(L) if abs(L) < inf else 0) + (abs(U) if abs(U) < inf else 0))
        return L - s, U + s

    def _is_nn_atom(self, aid):
        """atom known to be >= 0 by construction"""
        a = P.ATOMS[aid]
        if a.kind == "sqrt" or (a.kind == "uf" and a.fname in ("exp", "Phi")):
            return True
        if a.kind == "poly":
            if self.nn_pending:
                for q in self.nn_pending:
                    i = P.inv(q)
                    # inv(q) = c * monomial * atom^-1: the atom has the sign of c as q >= 0 if the monomial is even/positive
                    if len(i) == 1:
                        (m, c), = i.items()
                        rest = [(x, e) for x, e in m if P.ATOMS[x].kind != "poly"]
                        polys = [(x, e) for x, e in m if P.ATOMS[x].kind == "poly"]
                        if len(polys) == 1 and c > 0 and polys[0][1] % 2 and \
                                all(e % 2 == 0 or self._is_nn_atom(x) for x, e in rest):
                            self.nn_polys.add(polys[0][0])
                self.nn_pending = []
            return aid in self.nn_polys
        return aid in self.nonneg_atoms

    def sign(self, p):
        """1 / -1 if every monomial has that sign and one is strict, 2 / -2 if only weak, 0 unknown"""
        s = 0
        strict = False
        for m, c in p.items():
            st = True
            for aid, e in m:
                if not (e % 2 == 0 or self._is_nn_atom(aid)):
                    return 0
                if e > 0:
                    a = P.ATOMS[aid]
                    if not (a.kind == "uf" or (a.kind == "var" and self.vbounds.get(aid, (0, 0))[0] > 0)):
                        st = False
            g = 1 if c > 0 else -1
            if s and s != g:
                return 0
            s = g
            strict = strict or st
        return s if strict else 2 * s

    def interval(self, b):
        """True/False if the comparison is decided by the input ranges alone, else None"""
        if b.op not in ("lt", "le", "eq"):
            return None
        if len(b.a) > 400:
            return None
        sg = self.sign(b.a)
        if sg in (1, -1):
            return False if b.op == "eq" else sg == -1
        if sg == 2 and b.op == "lt":
            return False
        if sg == -2 and b.op == "le":
            return True
        self._ivc = {}
        lo, hi = self._iv(b.a)
        if b.op in ("lt", "le"):
            if hi < 0:
                return True
            if lo > 0:
                return False
        elif lo > 0 or hi < 0:
            return False
        return None

    def _begin(self):
        self.pos = 0
        self.pc = []  # list of SymBool, path constraints + assumptions
        self.known = {}
        self._atc = {}
        self.pool = []
        self.pk = 0

    # --- z3 conversion -------------------------------------------------------------------------------------------
    def zvar(self, aid):
        v = self.z3vars.get(aid)
        if v is None:
            a = P.ATOMS[aid]
            if a.kind == "var":
                v = z3.Real(a.name)
            elif a.kind == "poly":
                v = z3.Real("inv_%d" % aid)
            else:
                v = z3.Real("%s_%d" % (a.kind, aid))
            self.z3vars[aid] = v
        return v

    def _raw(self, ast):
        z3.Z3_inc_ref(self._zc, ast)
        return ast

    def _znum(self, c):
        a = self._znc.get(c)
        if a is None:
            a = self._znc[c] = self._raw(z3.Z3_mk_numeral(self._zc, str(c), self._zreal))
        return a

    def _zatom(self, aid, e):
        k = (aid, e < 0)
        a = self._zat.get(k)
        if a is None:
            if e < 0 and P.ATOMS[aid].kind != "poly":
                v = z3.Real("rec_%d" % aid)
            else:
                v = self.zvar(aid)
            self._zkeep.append(v)
            a = self._zat[k] = v.as_ast()
        return a

    def zpoly(self, p):
        key = id(p)
        r = self._zpc.get(key)
        if r is not None and r[0] is p:
            return r[1]
        c_, Ast = self._zc, z3.Ast
        terms = []
        for m, c in p.items():
            if not m:
                terms.append(self._znum(c))
                continue
            t = self._zmono.get(m)
            if t is None:
                fs = []
                for aid, e in m:
                    fs.extend([self._zatom(aid, e)] * abs(e))
                if len(fs) == 1:
                    t = fs[0]
                else:
                    t = self._raw(z3.Z3_mk_mul(c_, len(fs), (Ast * len(fs))(*fs)))
                self._zmono[m] = t
            if c != 1:
                t = self._raw(z3.Z3_mk_mul(c_, 2, (Ast * 2)(self._znum(c), t)))
            terms.append(t)
        if not terms:
            r = z3.RealVal(0)
        elif len(terms) == 1:
            r = z3.ArithRef(terms[0])
        else:
            r = z3.ArithRef(z3.Z3_mk_add(c_, len(terms), (Ast * len(terms))(*terms)))
        self._zpc[key] = (p, r)
        return r

    def zbool(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        if b.op == "raw":
            return b.a
        if b.op in ("lt", "le", "eq"):
            e = self.zpoly(b.a)
            return e < 0 if b.op == "lt" else (e <= 0 if b.op == "le" else e == 0)
        if b.op == "not":
            return z3.Not(self.zbool(b.a[0]))
        xs = [self.zbool(x) for x in b.a]
        return z3.And(*xs) if b.op == "and" else z3.Or(*xs)

    def polys_of(self, b, acc):
        if isinstance(b, bool) or b.op == "raw":
            return acc
        if b.op in ("lt", "le", "eq"):
            acc.append(b.a)
        else:
            for x in b.a:
                self.polys_of(x, acc)
        return acc

    def axioms(self, polys):
        """definitions of all atoms reachable from polys"""
        acc = set()
        for p in polys:
            P.vars_of(p, acc=acc)
        out = []
        ufs = {}
        recs = set()

        def note(p):
            for m in p:
                for aid, e in m:
                    if e < 0 and P.ATOMS[aid].kind in ("var", "sqrt", "uf"):
                        recs.add(aid)

        for p in polys:
            note(p)
        for aid in acc:
            a = P.ATOMS[aid]
            if a.poly is not None:
                note(a.poly)
            for x in a.args or ():
                if isinstance(x, dict):
                    note(x)
        for aid in sorted(acc):
            a = P.ATOMS[aid]
            if a.kind == "poly":
                out.append(self.zpoly(a.poly) * self.zvar(aid) == 1)
            elif a.kind == "sqrt":
                v = self.zvar(aid)
                out.append(v >= 0)
                out.append(v * v == self.zpoly(a.poly))
            elif a.kind == "uf":
                ufs.setdefault(a.fname, []).append(a)
                v = self.zvar(aid)
                if a.fname in ("exp",):
                    out.append(v > 0)
                elif a.fname == "Phi":
                    out.append(v > 0)
                    out.append(v < 1)
                    x = self.zpoly(a.args[0])
                    out.append((x > 0) == (v > z3.Q(1, 2)))
                    out.append((x < 0) == (v < z3.Q(1, 2)))
                elif a.fname == "ppf":
                    q = self.zpoly(a.args[0])
                    out.append((q > z3.Q(1, 2)) == (v > 0))
                    out.append((q < z3.Q(1, 2)) == (v < 0))
                elif a.fname == "log":
                    x = self.zpoly(a.args[0])
                    out.append((x > 1) == (v > 0))
                    out.append((x < 1) == (v < 0))
        for aid in recs:
            out.append(self.zvar(aid) * z3.Real("rec_%d" % aid) == 1)
        for f, lst in ufs.items():
            mono = f in ("Phi", "ppf", "exp", "log")
            for i in range(len(lst)):
                for j in range(i):
                    x, y = lst[i], lst[j]
                    if mono:
                        ax, ay = self.zpoly(x.args[0]), self.zpoly(y.args[0])
                        vx, vy = self.zvar(x.id), self.zvar(y.id)
                        out.append((ax < ay) == (vx < vy))
                        out.append((ax == ay) == (vx == vy))
                        if f == "Phi":  # against the reflected argument
                            out.append((ax < -ay) == (vx < 1 - vy))
                            out.append((ax == -ay) == (vx == 1 - vy))
                        if f == "ppf":
                            out.append((ax < 1 - ay) == (vx < -vy))
                            out.append((ax == 1 - ay) == (vx == -vy))
                    else:  # congruence
                        eqs = []
                        ok = len(x.args) == len(y.args)
                        if ok:
                            for s, t in zip(x.args, y.args):
                                if isinstance(s, dict) and isinstance(t, dict):
                                    if P.key(s) != P.key(t):
                                        eqs.append(self.zpoly(s) == self.zpoly(t))
                                elif s != t:
                                    ok = False
                                    break
                        if ok:
                            out.append(z3.Implies(z3.And(*eqs) if eqs else z3.BoolVal(True),
                                                  self.zvar(x.id) == self.zvar(y.id)))
        return out

    def check(self, extra, timeout_ms=None, want_model=False, more=()):
        """satisfiability of path condition and extra (SymBools / z3 terms)"""
        if self.deadline and time.time() > self.deadline:
            raise Budget("deadline")
        ebs = [b for b in extra if isinstance(b, (SymBool, bool))]
        raw = [b for b in extra if not isinstance(b, (SymBool, bool))] + list(more)
        if raw or want_model or not ebs:
            bs = list(self.pc) + ebs
        else:
            # the path condition is satisfiable: only the part that shares atoms with the question matters
            bs = self._cone(ebs) + ebs
        polys = []
        for b in bs:
            self.polys_of(b, polys)
        s = z3.Solver()
        s.set("timeout", int(timeout_ms or self.timeout_ms))
        for b in bs:
            s.add(self.zbool(b))
        for a in self.axioms(polys):
            s.add(a)
        used = set(self.vbounds) if raw or want_model else set()
        if not used:
            for p in polys:
                P.vars_of(p, acc=used)
        for aid in used:
            b = self.vbounds.get(aid)
            if b is not None:
                v = self.zvar(aid)
                s.add(v >= z3.RealVal(str(b[0])), v <= z3.RealVal(str(b[1])))
        for r in raw:
            s.add(r)
        t = time.time()
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if DEBUG:
            print("QUERY %s %.2fs extra=%d raw=%d polys=%s" % (r, time.time() - t, len(ebs), len(raw), sorted(len(x) for x in polys)[-8:]))
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        if want_model:
            return r, (s.model() if r == z3.sat else None)
        return r

    def _atoms_of(self, b):
        k = id(b)
        r = self._atc.get(k)
        if r is None:
            acc = set()
            for p in self.polys_of(b, []):
                P.vars_of(p, acc=acc)
            r = (acc, b)
            self._atc[k] = r
        return r[0]

    def _cone(self, ebs):
        seen = set()
        for b in ebs:
            seen |= self._atoms_of(b)
        rest = [b for b in self.pc if isinstance(b, SymBool)]
        out = []
        grew = True
        while grew:
            grew = False
            nxt = []
            for b in rest:
                at = self._atoms_of(b)
                if at & seen:
                    out.append(b)
                    if not at <= seen:
                        seen |= at
                        grew = True
                else:
                    nxt.append(b)
            rest = nxt
        return out

    # --- decisions -------------------------------------------------------------------------------------------------
    def known_nonneg(self, aid):
        return aid in self.nonneg_atoms

    def note_side(self, why):
        self.sides[why] = self.sides.get(why, 0) + 1

    def side(self, cond, why):
        """domain side condition: the claim is restricted to inputs where it holds"""
        self.sides[why] = self.sides.get(why, 0) + 1
        if cond is True or (isinstance(cond, np.bool_) and cond):
            return
        if cond is False:
            raise PathAbort(why)
        k = cond.key()
        if self.known.get(k) is True:
            return
        if cond.op == "not" and cond.a[0].op == "eq" and self.interval(cond.a[0]) is False or \
                self.interval(cond) is True:
            self.known[k] = True
            return
        self.known[k] = True
        self.known[b_not(cond).key()] = False
        if cond.op == "not" and len(cond.a[0].a) > 30:
            return  # a large denominator: stated, and implied by the defining equation of its inverse
        self.pc.append(cond)

    def assume(self, cond):
        if isinstance(cond, np.ndarray):
            for c in cond.ravel():
                self.assume(c)
            return
        if isinstance(cond, np.bool_):
            cond = bool(cond)
        if cond is True:
            return
        if cond is False:
            raise PathAbort("assume")
        if cond.op == "and":
            for x in cond.a:
                self.assume(x)
            return
        self.known[cond.key()] = True
        self.known[b_not(cond).key()] = False
        if cond.op == "lt" and len(cond.a) == 1:
            (m, c), = cond.a.items()
            if len(m) == 1 and m[0][1] == 1 and c < 0:
                self.nonneg_atoms.add(m[0][0])
        self.pc.append(cond)

    def decide(self, b):
        k = b.key()
        v = self.known.get(k)
        if v is not None:
            return v
        if b.op == "and":
            return bool(b.a[0]) and bool(b.a[1])
        if b.op == "or":
            return bool(b.a[0]) or bool(b.a[1])
        if b.op == "not":
            return not bool(b.a[0])
        nb = b_not(b)
        v = self.interval(b)
        if v is not None:
            self.interval_decided += 1
            self.known[k] = v
            self.known[nb.key()] = not v
            return v
        if self.pos < len(self.stack):
            val = self.stack[self.pos][0]
            forced = self.stack[self.pos][2]
        else:
            t, f = self.both_sides(b)
            big = self.polys_of(b, [])
            ms = self.branch_ms if sum(len(p) for p in big) < 150 else min(400, self.branch_ms)
            if t and f:
                val, other = True, True
            elif t:
                val, other = True, self.check([nb], ms) != z3.unsat
            elif f:
                val, other = False, self.check([b], ms) != z3.unsat
            elif self.check([b], ms) == z3.unsat:
                val, other = False, False
            else:
                val, other = True, self.check([nb], ms) != z3.unsat
            forced = not other
            if DEBUG:
                import sys
                fr = sys._getframe(1)
                while fr and ("symx" in fr.f_code.co_filename or "numpy" in fr.f_code.co_filename):
                    fr = fr.f_back
                print("DECIDE %s terms=%s t=%s f=%s -> %s other=%s at %s:%d" % (b.op, [len(x) for x in big], t, f, val, other,
                      fr.f_code.co_filename[-40:], fr.f_lineno), [[(tuple((P.ATOMS[i].name, e) for i, e in m), str(c)) for m, c in x.items()] for x in big if len(x) < 4])
            self.stack.append([val, not other, forced])
        self.pos += 1
        if not forced:
            self.pc.append(b if val else nb)
        self.known[k] = val
        self.known[nb.key()] = not val
        return val

    # --- points of the current path (fast evidence that a side of a branch is feasible)
    def _new_point(self, k):
        from .evalp import Evaluator, _h01

        def lazy(aid, name):
            lo, hi = self.vbounds.get(aid, (Fraction(-4), Fraction(4)))
            g = (32, 1009, 64)[k % 3]
            j = 1 + int(_h01(name, k) * (g - 1))
            if k % 7 == 5:  # clustered near the centre of the range
                return lo + (hi - lo) * (Fraction(1, 2) + Fraction(2 * j - g, 16 * g))
            return lo + (hi - lo) * Fraction(j, g)
        return Evaluator(lazy=lazy)

    def _ok_point(self, ev):
        try:
            while ev.upto < len(self.pc):
                b = self.pc[ev.upto]
                if not ev.holds(b, 0 if isinstance(b, (bool, SymBool)) and getattr(b, "op", "") in ("eq", "not") else 1e-6):
                    return False
                ev.upto += 1
        except (ZeroDivisionError, ValueError, OverflowError):
            return False
        return True

    def points(self, tries):
        """points satisfying the path condition: the pool, then fresh ones"""
        good = []
        for ev in self.pool:
            if self._ok_point(ev):
                good.append(ev)
        self.pool = good
        for ev in list(good):
            yield ev
        for _ in range(max(0, tries - len(good))):
            self.pk += 1
            ev = self._new_point(self.pk)
            if self._ok_point(ev):
                self.pool.append(ev)
                yield ev

    def both_sides(self, b):
        t = f = False
        for n, ev in enumerate(self.points(12 if self.pool else 40)):
            try:
                if ev.holds(b, 1e-6):
                    t = True
                elif b.op in ("lt", "le") and ev.holds(b_not(b), 1e-6) or b.op == "eq" and not ev.holds(b):
                    f = True
            except (ZeroDivisionError, ValueError, OverflowError):
                continue
            if (t and f) or n > 24:
                break
        return t, f

    def choose(self, n, tag):
        """nondeterministic integer in range(n), enumerated path by path"""
        if self.pos < len(self.stack):
            val = self.stack[self.pos][0]
        else:
            val = 0
            self.stack.append([0, ("choice", n), True])
        self.pos += 1
        return val

    def _backtrack(self):
        while self.stack:
            e = self.stack[-1]
            if isinstance(e[1], tuple):
                if e[0] + 1 < e[1][1]:
                    e[0] += 1
                    return True
                self.stack.pop()
                continue
            if not e[1]:
                e[0] = not e[0]
                e[1] = True
                return True
            self.stack.pop()
        return False

    def paths(self):
        """generator: run the body once per yielded path index"""
        n = 0
        self.complete = False
        while True:
            self._begin()
            yield n
            n += 1
            del self.stack[self.pos:]
            if not self._backtrack():
                self.complete = True
                return
            if n >= self.max_paths:
                return


_CUR = [None]


def EX():
    if _CUR[0] is None:
        raise RuntimeError("no explorer active")
    return _CUR[0]


def set_explorer(e):
    _CUR[0] = e


def real(name):
    return SymReal(P.var(name))

"""Scenarios: one body, run symbolically over all paths (solver decides) and concretely (replay of counterexamples)."""
import collections
import hashlib
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import env, poly as P, sym as S
from .evalp import Evaluator, _h01
from .nparr import NP, SymArray, as_sym, obj, plain
from .sym import SymBool, SymReal
from .z3load import z3

CUR = [None]  # active harness


def H_():
    return CUR[0]


class Violated(Exception):
    """concrete mode: an obligation failed"""


class Skip(Exception):
    """concrete mode: the values do not satisfy an assumption"""


class Obl:
    __slots__ = ("label", "kind", "cond", "lhs", "rhs")

    def __init__(self, label, kind, cond, lhs=None, rhs=None):
        self.label, self.kind, self.cond, self.lhs, self.rhs = label, kind, cond, lhs, rhs


class H:
    """mode 'sym' or 'conc'"""

    def __init__(self, mode, ex=None, values=None, choices=None, seed=0):
        self.mode, self.ex, self.values = mode, ex, values or {}
        self.choices = choices or []
        self.seed = seed
        self.rel = 1e-6
        self.absl = 1e-7
        self.begin()

    @property
    def sym(self):
        return self.mode == "sym"

    @property
    def np(self):
        return NP if self.sym else np

    def begin(self):
        self.obl = []
        self.observed = []
        self.bounds = {}
        self.fits = []
        self.ci = 0
        self.used_choices = []
        self.failures = []
        self.cache = {}
        self.notes = []

    # ---- inputs
    def real(self, name, lo=-4, hi=4, integer_nz=False):
        if name in self.cache:
            return self.cache[name]
        lo_, hi_ = S.frac(lo), S.frac(hi)
        self.bounds[name] = (lo_, hi_)
        if self.sym:
            v = S.real(name)
            self.ex.set_bounds(v, lo_, hi_)
        else:
            if name in self.values:
                v = float(Fraction(self.values[name])) if isinstance(self.values[name], str) else float(self.values[name])
            else:
                v = float(lo_) + (float(hi_) - float(lo_)) * (0.04 + 0.92 * _h01(name, self.seed))
            if not float(lo_) - 1e-12 <= v <= float(hi_) + 1e-12:
                raise Skip("bounds of " + name)
        self.cache[name] = v
        return v

    def reals(self, name, shape, lo=-4, hi=4):
        if isinstance(shape, int):
            shape = (shape,)
        r = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            r[ix] = self.real("%s[%s]" % (name, ",".join(map(str, ix))), lo, hi)
        return r.view(SymArray) if self.sym else r.astype(float)

    def choose(self, n, tag=""):
        if self.sym:
            v = self.ex.choose(n, tag)
        else:
            v = self.choices[self.ci] if self.ci < len(self.choices) else 0
            self.ci += 1
        self.used_choices.append(v)
        return v

    def pick(self, options, tag=""):
        options = list(options)
        return options[self.choose(len(options), tag)] if len(options) > 1 else options[0]

    def binary(self, name, n, accept=None, patterns=None):
        """0/1 float vector, every pattern (that `accept` admits) is a path"""
        if patterns is None:
            patterns = []
            for k in range(1 << n):
                b = [(k >> i) & 1 for i in range(n)]
                if accept is None or accept(b):
                    patterns.append(b)
        return np.array(self.pick(patterns, name), dtype=float)

    def assume(self, cond):
        if self.sym:
            self.ex.assume(cond)
        elif not np.all(cond):
            raise Skip("assumption")

    def arr(self, x):
        """list of values as an array of the mode"""
        return as_sym(obj(list(x) if not isinstance(x, np.ndarray) else x)) if self.sym else np.array(
            np.asarray(x, dtype=float))

    # ---- obligations
    def _pairs(self, a, b):
        a, b = np.broadcast_arrays(obj(a), obj(b))
        return a, b

    def eq(self, lhs, rhs, label):
        A, B = obj(lhs), obj(rhs)
        if A.shape != B.shape and A.ndim and B.ndim:
            self.fail(label + ": shape %s vs %s" % (A.shape, B.shape))
            return
        A, B = np.broadcast_arrays(A, B)
        for ix in np.ndindex(A.shape):
            self._eq1(A[ix], B[ix], label + (str(list(ix)) if ix else ""))

    def either(self, lhs, alts, label):
        """lhs equals one of the alternatives (entry by entry the same one): used to pin a known deviation exactly"""
        A = obj(lhs)
        for B in alts:
            X, Y = np.broadcast_arrays(A, obj(B))
            if all(self._same(x, y) for x, y in zip(X.ravel(), Y.ravel())):
                self.eq(lhs, B, label)
                return
        self.eq(lhs, alts[0], label)

    def _same(self, x, y):
        if self.sym and (isinstance(x, SymReal) or isinstance(y, SymReal)):
            if not (_finite(x) and _finite(y)):
                return False
            d = P.add(SymReal.of(x).p, SymReal.of(y).p, -1)
            if d:
                d = P.clear_denominators(d)
            if d:  # constants that were rounded differently
                e = P.clear_denominators(SymReal.of(x).p)
                big = max((abs(c) for c in e.values()), default=0) if e else 0
                return all(abs(c) <= big * Fraction(1, 10 ** 9) for c in d.values())
            return d is not None and not d
        return _close(x, y, self.rel, self.absl)

    def _eq1(self, a, b, label):
        if isinstance(a, SymBool):
            a = int(a)
        if isinstance(b, SymBool):
            b = int(b)
        self.observed.append((label, a))
        if self.sym:
            sa, sb = isinstance(a, SymReal), isinstance(b, SymReal)
            if not sa and not sb:
                ok = _close(a, b, self.rel, self.absl)
                self.obl.append(Obl(label, "eq", True if ok else False, a, b))
                return
            if (not sa and not _finite(a)) or (not sb and not _finite(b)):
                self.obl.append(Obl(label, "eq", False, a, b))
                return
            self.obl.append(Obl(label, "eq", None, SymReal.of(a), SymReal.of(b)))
        else:
            if not _close(a, b, self.rel, self.absl):
                self.failures.append("%s: got %r expected %r" % (label, a, b))

    def _ineq(self, a, b, label, strict):
        A, B = np.broadcast_arrays(obj(a), obj(b))
        for ix in np.ndindex(A.shape):
            x, y = A[ix], B[ix]
            lab = label + (str(list(ix)) if ix else "")
            self.observed.append((lab, x))
            if S.is_nan(x) or S.is_nan(y):
                self.fail(lab + ": nan")
                continue
            if self.sym:
                c = (x < y) if strict else (x <= y)
                self.obl.append(Obl(lab, "cond", c if isinstance(c, SymBool) else bool(c), x, y))
            else:
                if x > y + self.absl + self.rel * max(abs(x), abs(y)):
                    self.failures.append("%s: %r <= %r does not hold" % (lab, x, y))
                elif strict and x == y:
                    self.failures.append("%s: %r < %r does not hold" % (lab, x, y))

    def le(self, a, b, label):
        self._ineq(a, b, label, False)

    def lt(self, a, b, label):
        self._ineq(a, b, label, True)

    def true(self, cond, label):
        """a condition that needs no numeric tolerance"""
        if isinstance(cond, np.ndarray):
            for e in obj(cond).ravel():
                self.true(e, label)
            return
        if self.sym:
            self.obl.append(Obl(label, "cond", cond if isinstance(cond, SymBool) else bool(cond)))
        elif not cond:
            self.failures.append("%s: does not hold" % label)

    def fail(self, label):
        self.true(False, label)

    def observe(self, name, v):
        v = obj(v)
        for ix in np.ndindex(v.shape):
            self.observed.append((name + (str(list(ix)) if ix else ""), v[ix]))

    def raises(self, fn, exc, label):
        """fn() must raise exc"""
        try:
            fn()
        except exc:
            self.true(True, label)
            return True
        except Exception as e:
            if isinstance(e, (S.Unsupported, Violated, Skip)):
                raise
            self.fail(label + ": raised %s instead" % type(e).__name__)
            return False
        self.fail(label + ": not rejected")
        return False


def _finite(x):
    return not (isinstance(x, (float, np.floating)) and not math.isfinite(x))


def _close(a, b, rel, absl):
    if isinstance(a, SymReal) and a.is_const:
        a = float(a)
    if isinstance(b, SymReal) and b.is_const:
        b = float(b)
    if isinstance(a, (str, bytes, type(None))) or isinstance(b, (str, bytes, type(None))):
        return type(a) is type(b) and a == b
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= absl + rel * max(abs(a), abs(b))


# ---- one scenario ---------------------------------------------------------------------------------------------------
# the library's own documented rejections of degenerate inputs end a path (recorded as side conditions)
DOMAIN = ((ValueError, "sensitivity_elements sigma2 and nu2 have to be positive"),)


class Scenario:
    def __init__(self, name, fn, patches=None, max_paths=4000, budget=60, thorough=False, bounds="", known=None,
                 rel=None, witness=True, domain=DOMAIN):
        self.name, self.fn, self.patches, self.max_paths = name, fn, patches, max_paths
        self.budget, self.thorough, self.bounds, self.known, self.rel = budget, thorough, bounds, known, rel
        self.witness = witness
        self.domain = domain


class Trace:
    """which functions of the implementation were executed symbolically (sys.monitoring, no overhead after first call)"""

    def __init__(self):
        self.fn = {}
        self.on = False

    def __enter__(self):
        m = sys.monitoring
        self.id = 4
        try:
            m.use_tool_id(self.id, "symx")
        except ValueError:
            return self
        self.on = True
        root = os.path.realpath(env.REPO) + os.sep

        def start(code, off):
            f = code.co_filename
            if f.startswith(root) and "tests" not in f:
                self.fn[f[len(root):] + ":" + code.co_qualname] = code.co_firstlineno
            return m.DISABLE
        m.register_callback(self.id, m.events.PY_START, start)
        m.set_events(self.id, m.events.PY_START)
        m.restart_events()
        return self

    def __exit__(self, *a):
        if self.on:
            m = sys.monitoring
            m.set_events(self.id, 0)
            m.free_tool_id(self.id)


def run_conc(sc, values, choices, seed=0):
    """the unpatched code; returns (status, detail, observed) with status in ok/violated/skip/error"""
    h = H("conc", values=values, choices=choices, seed=seed)
    if sc.rel:
        h.rel = sc.rel
    CUR[0] = h
    np.random.seed(3141)
    random.seed(3141)
    try:
        with np.errstate(all="ignore"), env.concrete(sc.patches(h) if sc.patches else None):
            sc.fn(h)
    except Skip as e:
        return "skip", str(e), h
    except Violated as e:
        return "violated", str(e), h
    except Exception as e:
        return "violated", "exception %s: %s | %s" % (type(e).__name__, e, _tb(e)), h
    finally:
        CUR[0] = None
    if h.failures:
        return "violated", "; ".join(h.failures[:6]), h
    return "ok", "", h


def _tb(e):
    fs = traceback.extract_tb(e.__traceback__)
    return " <- ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(fs[-6:]))


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.aborted = 0
        self.obligations = 0
        self.discharged = 0
        self.inconclusive = []
        self.candidates = []  # dicts: label, values, choices
        self.witness = None
        self.functions = {}
        self.complete = False
        self.queries = 0
        self.unsat = self.sat = self.unknown = 0
        self.solver_s = 0.0
        self.sides = {}
        self.wall = 0.0
        self.error = None
        self.notes = []
        self.samples = 0
        self.bounds = ""
        self.vars = 0

    def json(self):
        return dict(self.__dict__)


def sample_point(ex, h, extra=None, tries=300):
    """rational values satisfying the path condition (and extra(ev) if given), else None"""
    for ev in ex.points(tries):
        try:
            if extra is not None and not extra(ev):
                continue
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        return point_values(ex, h, ev), ev
    if extra is None:
        r, m = ex.check([], 8000, want_model=True)  # ask the solver
        if m is not None:
            vals = model_values(ex, h, m)
            return vals, Evaluator({n: float(v) for n, v in vals.items()})
    return None


def point_values(ex, h, ev):
    for n in h.bounds:
        if n not in ev.v:
            ev.poly(S.real(n).p)
    return {n: ev.exact[n] for n in h.bounds}


def model_values(ex, h, m):
    vals = {}
    for n, (lo, hi) in h.bounds.items():
        v = m.eval(z3.Real(n), model_completion=False)
        if z3.is_rational_value(v):
            vals[n] = Fraction(v.numerator_as_long(), v.denominator_as_long())
        elif z3.is_algebraic_value(v):
            a = v.approx(20)
            vals[n] = Fraction(a.numerator_as_long(), a.denominator_as_long())
        else:
            vals[n] = lo + (hi - lo) * Fraction(int(1 + 1007 * _h01(n, 5)), 1009)
    return vals


def pin(vals):
    return [z3.Real(n) == z3.RealVal(str(v)) for n, v in vals.items()]


def run_scenario(sc, tier="quick", seed=1):
    res = Result(sc.name)
    res.bounds = sc.bounds
    t0 = time.time()
    budget = sc.budget * (6 if tier == "thorough" else 1)
    P.reset()
    ex = S.Explorer(max_paths=sc.max_paths, timeout_ms=10000 if tier == "quick" else 60000, deadline=t0 + budget)
    S.set_explorer(ex)
    h = H("sym", ex=ex)
    if sc.rel:
        h.rel = sc.rel
    tr = Trace()
    broken = None
    try:
        with tr:
            for i in ex.paths():
                h.begin()
                CUR[0] = h
                np.random.seed(3141)
                random.seed(3141)
                exc = None
                try:
                    with np.errstate(all="ignore"), env.symbolic(sc.patches(h) if sc.patches else None):
                        sc.fn(h)
                except S.PathAbort:
                    res.aborted += 1
                    continue
                except S.Unsupported as e:
                    broken = "unsupported: %s | %s" % (e, _tb(e))
                except Exception as e:
                    exc = e
                finally:
                    CUR[0] = None
                res.paths += 1
                res.vars = max(res.vars, len(h.bounds))
                if broken:
                    res.inconclusive.append(broken)
                    probe(sc, h, ex, res, "engine: " + broken)
                    broken = None
                    if len(res.inconclusive) > 20 or res.candidates:
                        break
                    continue
                if exc is not None and any(isinstance(exc, t) and msg in str(exc) for t, msg in sc.domain):
                    k = "documented rejection: " + str(exc)[:60]
                    ex.sides[k] = ex.sides.get(k, 0) + 1
                    res.aborted += 1
                    res.paths -= 1
                    continue
                if exc is not None:
                    det = "exception %s: %s | %s" % (type(exc).__name__, exc, _tb(exc))
                    res.inconclusive.append(det)
                    probe(sc, h, ex, res, det)
                    if len(res.inconclusive) > 20 or res.candidates:
                        break
                    continue
                decide_path(sc, h, ex, res, first=res.witness is None, tier=tier)
                if len(res.candidates) >= 3:
                    break
        res.complete = getattr(ex, "complete", False)
    except S.Budget:
        res.inconclusive.append("time budget of %ds used up after %d paths" % (budget, res.paths))
        if not res.candidates and not res.samples:
            probe(sc, h, ex, res, "budget", n=6)
    except S.PathAbort as e:
        res.inconclusive.append("path abort outside a path: %s" % e)
    if not res.complete and not res.inconclusive and not res.candidates:
        res.inconclusive.append("path limit %d reached" % sc.max_paths)
    res.functions = tr.fn
    st = ex.stats
    res.queries, res.unsat, res.sat, res.unknown, res.solver_s = st.queries, st.unsat, st.sat, st.unknown, st.solver_s
    res.sides = dict(ex.sides)
    res.wall = time.time() - t0
    S.set_explorer(None)
    return res


def probe(sc, h, ex, res, why, n=12):
    """the path could not be encoded: decide it with every variable pinned (reported as inconclusive unless it fails)"""
    ch = list(h.used_choices)
    for k in range(n):
        st, det, hh = run_conc(sc, {}, ch, seed=100 + k)
        res.samples += 1
        if st == "violated":
            res.candidates.append({"label": why, "detail": det, "values": {}, "choices": ch, "seed": 100 + k})
            return


def decide_path(sc, h, ex, res, first, tier):
    res.obligations += len(h.obl)
    if not h.obl:
        res.inconclusive.append("a path without obligations")
        return
    terms = []
    pend = []
    polys = []
    nterm = 0
    for o in h.obl:
        if o.kind == "eq" and o.cond is None:
            d = P.add(o.lhs.p, o.rhs.p, -1)
            if d and negligible(d, o.lhs.p, o.rhs.p):
                d = {}
            if d:
                n = P.clear_denominators(d)
                if n is None:
                    res.inconclusive.append("too large: " + o.label)
                    pend.append((o, None))
                    continue
                d = n
            if not d:
                if nterm < 4000 and len(o.lhs.p) < 400:
                    # identical normal forms: still handed to the solver
                    nterm += len(o.lhs.p)
                    terms.append(ex.zpoly(o.lhs.p) != ex.zpoly(o.rhs.p)
                                 if P.key(o.lhs.p) == P.key(o.rhs.p) else z3.BoolVal(False))
                res.discharged += 1
                continue
            pend.append((o, d))
        else:
            c = o.cond
            if c is True:
                res.discharged += 1
                continue
            if c is not False and ex.known.get(c.key()) is True:
                res.discharged += 1
                continue
            pend.append((o, c))
    if terms:
        r = ex.check([], more=[z3.Or(terms)])
        if r != z3.unsat:
            res.inconclusive.append("normal-form obligations: solver said %s" % r)
    for o, d in pend:
        if d is None:
            extra = lambda ev, o=o: not _close(ev.val(o.lhs), ev.val(o.rhs), 1e-4, 1e-4)
            neg = None
        elif o.kind == "eq" and o.cond is None:
            b = SymReal(d) == 0
            neg = S.b_not(b)
            if neg is False:
                res.discharged += 1
                continue
            extra = lambda ev, o=o: not _close(ev.val(o.lhs), ev.val(o.rhs), 1e-4, 1e-4)
        elif d is False:
            neg = True
            extra = lambda ev: True
        else:
            neg = S.b_not(d)
            if neg is False:
                res.discharged += 1
                continue
            extra = lambda ev, neg=neg: ev.holds(neg, 1e-3)
        verdict = None
        # 1. a point of the path where the obligation fails clearly (decided by the solver with the inputs pinned)
        pt = sample_point(ex, h, extra, tries=60)
        if pt is None and neg is not None:
            # 2. the general query
            r, m = ex.check([neg] if neg is not True else [], want_model=True)
            if r == z3.unsat:
                res.discharged += 1
                continue
            if r == z3.sat:
                verdict = "sat"
                vals = model_values(ex, h, m)
                # prefer a robust point
                pt2 = sample_point(ex, h, extra, tries=600)
                if pt2 is not None:
                    vals = pt2[0]
                pt = (vals, None)
            else:
                pt = sample_point(ex, h, extra, tries=1500)
                if pt is None:
                    res.inconclusive.append("unknown: " + o.label)
                    continue
        if pt is None:
            res.inconclusive.append("undecided: " + o.label)
            continue
        vals, ev = pt
        if verdict is None and neg is not None and d is not False:
            r = ex.check([neg], 15000, more=pin(vals))
            verdict = str(r)
            if r == z3.unsat:
                res.inconclusive.append("pinned point refuted: " + o.label)
                continue
        res.candidates.append({"label": o.label, "verdict": verdict,
                               "detail": "", "values": {k: str(v) for k, v in vals.items()},
                               "choices": list(h.used_choices), "seed": 0})
        if len(res.candidates) >= 3:
            return
    if first and not res.candidates:
        do_witness(sc, h, ex, res)


def negligible(d, a, b):
    """the coefficients differ by floating point rounding of the constants in the code only"""
    tol = Fraction(1, 10 ** 9)
    eps = Fraction(1, 10 ** 11)
    for m, c in d.items():
        if abs(c) > eps + tol * max(abs(a.get(m, 0)), abs(b.get(m, 0))):
            return False
    return True


def do_witness(sc, h, ex, res):
    """reachability: the path condition is satisfiable, and the encoding agrees with the code at that point"""
    pt = sample_point(ex, h, None, tries=300)
    if pt is None:
        res.inconclusive.append("no witness point found for a path")
        return
    vals, ev = pt
    r = ex.check([], 10000, more=pin(vals))
    w = {"solver": str(r), "choices": list(h.used_choices)}
    if not sc.witness:
        res.witness = w
        return
    st, det, hc = run_conc(sc, {k: str(v) for k, v in vals.items()}, list(h.used_choices))
    w["concrete"] = st
    res.samples += 1
    if st == "skip":
        w["detail"] = det
    CUR[0] = None
    if st == "ok":
        a = h.observed
        b = hc.observed
        w["compared"] = 0
        if [x[0] for x in a] != [x[0] for x in b]:
            w["mismatch"] = "different observations"
        else:
            for (l, x), (_, y) in zip(a, b):
                try:
                    xv = ev.val(x)
                except (ValueError, ZeroDivisionError, OverflowError):
                    continue
                if has_uf(x):
                    continue
                w["compared"] += 1
                if not _close(xv, y, 1e-5, 1e-6):
                    w["mismatch"] = "%s: encoding %r code %r" % (l, xv, y)
                    break
        if "mismatch" in w:
            res.inconclusive.append("translator validation: " + w["mismatch"])
    elif st == "violated":
        w["detail"] = det
        res.candidates.append({"label": "witness", "detail": det, "values": {k: str(v) for k, v in vals.items()},
                               "choices": list(h.used_choices), "seed": 0})
    res.witness = w


def has_uf(x):
    if not isinstance(x, SymReal):
        return False
    return any(P.ATOMS[i].kind == "uf" and P.ATOMS[i].fname not in ("Phi", "ppf", "exp", "log") for i in P.vars_of(x.p))

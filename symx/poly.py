"""Canonical Laurent polynomials over rationals and atoms.

A value is a dict {monomial: Fraction}; a monomial is a sorted tuple of (atom id, exponent).  Atoms are hash-consed:
 - var     a symbolic input (a z3 Real)
 - poly    a named polynomial P; it only ever occurs with a negative exponent (1/P)
 - sqrt    sqrt(P), exponents are reduced to +-1
 - uf      an uninterpreted application f(args), args being canonical keys or opaque hashables
"""
from fractions import Fraction

ONE = ()


class Atom:
    __slots__ = ("id", "kind", "name", "poly", "args", "fname")

    def __init__(self, id_, kind, name, poly=None, fname=None, args=None):
        self.id, self.kind, self.name, self.poly, self.fname, self.args = id_, kind, name, poly, fname, args


ATOMS = []
_INDEX = {}


def reset():
    ATOMS.clear()
    _INDEX.clear()


def _new(key, kind, name, **kw):
    a = _INDEX.get(key)
    if a is None:
        a = Atom(len(ATOMS), kind, name, **kw)
        ATOMS.append(a)
        _INDEX[key] = a
    return a


def key(p):
    return tuple(sorted(p.items()))


def const(c):
    c = Fraction(c)
    return {ONE: c} if c else {}


def var(name):
    a = _new(("v", name), "var", name)
    return {((a.id, 1),): Fraction(1)}


def is_const(p):
    return not p or (len(p) == 1 and ONE in p)


def const_val(p):
    return p.get(ONE, Fraction(0))


def add(p, q, s=1):
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        n = r.get(m, 0) + (c if s == 1 else -c)
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def iadd(r, q):
    """r += q, in place (r must not be shared)"""
    for m, c in q.items():
        n = r.get(m)
        if n is None:
            r[m] = c
        else:
            n = n + c
            if n:
                r[m] = n
            else:
                del r[m]
    return r


def scale(p, c):
    if not c:
        return {}
    if c == 1:
        return p
    return {m: v * c for m, v in p.items()}


def _mm(a, b):
    """merge monomials; returns (monomial, needs_reduction)"""
    if not a:
        return b, False
    if not b:
        return a, False
    r = []
    i = j = 0
    red = False
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] < y[0]:
            r.append(x)
            i += 1
        elif x[0] > y[0]:
            r.append(y)
            j += 1
        else:
            e = x[1] + y[1]
            if e:
                r.append((x[0], e))
                k = ATOMS[x[0]].kind
                if (k == "sqrt" and not -1 <= e <= 1) or (k == "poly" and e > 0):
                    red = True
            i += 1
            j += 1
    if i < la:
        r.extend(a[i:])
    if j < lb:
        r.extend(b[j:])
    return tuple(r), red


def mul(p, q):
    if not p or not q:
        return {}
    if len(p) > len(q):
        p, q = q, p
    r = {}
    pend = []
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, red = _mm(m1, m2)
            c = c1 * c2
            if red:
                pend.append((m, c))
                continue
            n = r.get(m)
            if n is None:
                r[m] = c
            else:
                n += c
                if n:
                    r[m] = n
                else:
                    del r[m]
    for m, c in pend:
        iadd(r, _reduce(m, c))
    return r


def _reduce(m, c):
    res = {ONE: c}
    rest = []
    for aid, e in m:
        a = ATOMS[aid]
        if a.kind == "sqrt" and not -1 <= e <= 1:
            k = int(e / 2)  # towards zero
            res = mul(res, ipow(a.poly, k))
            if e - 2 * k:
                rest.append((aid, e - 2 * k))
        elif a.kind == "poly" and e > 0:
            res = mul(res, ipow(a.poly, e))
        else:
            rest.append((aid, e))
    return mul(res, {tuple(rest): Fraction(1)})


def lead(p):
    return max(p.items(), key=lambda t: (len(t[0]), t[0]))


def gcd_monomial(p):
    """largest Laurent monomial dividing every term (minimal exponents)"""
    exps = None
    for m in p:
        d = dict(m)
        if exps is None:
            exps = d
        else:
            for k in list(exps):
                e = min(exps[k], d.get(k, 0))
                if e:
                    exps[k] = e
                else:
                    del exps[k]
            for k, e in d.items():
                if k not in exps and e < 0:
                    exps[k] = e
    return tuple(sorted(exps.items()))


def inv(p):
    """1/p for a non-zero p (the caller has assumed p != 0)"""
    if not p:
        raise ZeroDivisionError
    if len(p) == 1:
        (m, c), = p.items()
        r = {ONE: 1 / c}
        t = []
        for aid, e in m:
            t.append((aid, -e))
        out = {tuple(t): Fraction(1)}
        if any(ATOMS[i].kind == "poly" and e > 0 for i, e in t):
            out = _reduce(tuple(t), Fraction(1))
        return mul(r, out)
    g = gcd_monomial(p)
    ginv = tuple((i, -e) for i, e in g)
    if g:
        if any(ATOMS[i].kind == "poly" and e > 0 for i, e in ginv):
            q = mul(p, _reduce(ginv, Fraction(1)))
        else:
            q = mul(p, {ginv: Fraction(1)})
    else:
        q = p
    if is_const(q):
        base = {ONE: 1 / const_val(q)}
    else:
        c = lead(q)[1]
        mon = scale(q, 1 / c)
        a = _new(("p", key(mon)), "poly", "P%d" % len(ATOMS), poly=mon)
        base = {((a.id, -1),): 1 / c}
    if g:
        if any(ATOMS[i].kind == "poly" and e > 0 for i, e in ginv):
            return mul(base, _reduce(ginv, Fraction(1)))
        return mul(base, {ginv: Fraction(1)})
    return base


def ipow(p, k):
    if k < 0:
        return ipow(inv(p), -k)
    r = {ONE: Fraction(1)}
    b = p
    while k:
        if k & 1:
            r = mul(r, b)
        k >>= 1
        if k:
            b = mul(b, b)
    return r


def _isqrt_frac(f):
    from math import isqrt
    if f < 0:
        return None
    a, b = isqrt(f.numerator), isqrt(f.denominator)
    if a * a == f.numerator and b * b == f.denominator:
        return Fraction(a, b)
    return None


def sqrt(p):
    if not p:
        return {}
    a = _new(("s", key(p)), "sqrt", "sqrt%d" % len(ATOMS), poly=p)
    return {((a.id, 1),): Fraction(1)}


def uf(fname, args):
    """args: tuple of polys (dict) or hashables"""
    k = tuple(("P", key(x)) if isinstance(x, dict) else ("H", x) for x in args)
    a = _new(("u", fname, k), "uf", "%s_%d" % (fname, len(ATOMS)), fname=fname, args=tuple(args))
    return {((a.id, 1),): Fraction(1)}


def clear_denominators(p, rounds=6):
    """multiply p by (non-zero) atoms until no var/poly/sqrt atom occurs with a negative exponent"""
    for _ in range(rounds):
        need = {}
        for m in p:
            for aid, e in m:
                if e < 0:
                    need[aid] = max(need.get(aid, 0), -e)
        if not need:
            return p
        # deepest poly atoms (created last) first; one at a time keeps intermediate size small
        for aid in sorted(need, reverse=True):
            a = ATOMS[aid]
            k = need[aid]
            out = {}
            base = a.poly if a.kind == "poly" else {((aid, 1),): Fraction(1)}
            powers = {}
            for m, c in p.items():
                d = dict(m)
                e = d.get(aid, 0)
                if len(out) > 60000:
                    return None
                if a.kind == "poly":
                    rest = tuple((i, x) for i, x in m if i != aid)
                    kk = k + e
                    if kk not in powers:
                        powers[kk] = ipow(base, kk)
                    iadd(out, mul({rest: c}, powers[kk]) if kk else {rest: c})
                else:
                    mm, red = _mm(m, ((aid, k),))
                    iadd(out, _reduce(mm, c) if red else {mm: c})
            p = out
            if len(p) > 60000:
                return None
    return None


def vars_of(p, seen=None, acc=None):
    """all atom ids reachable from p"""
    if acc is None:
        acc = set()
    for m in p:
        for aid, _ in m:
            if aid not in acc:
                acc.add(aid)
                a = ATOMS[aid]
                if a.poly is not None:
                    vars_of(a.poly, acc=acc)
                if a.args is not None:
                    for x in a.args:
                        if isinstance(x, dict):
                            vars_of(x, acc=acc)
    return acc

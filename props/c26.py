"""data backend: which column plays which role"""
import itertools

import pandas as pd
from symx.nparr import SymArray, has_sym

from props.common import *

COLS = list("cafbed")  # the order of the columns in the data frame


def frame(h, n=2, cols=COLS, vals=None, lo=1.5, hi=4):
    c = {}
    for k in cols:
        v = h.reals(k, n, lo, hi) if vals is None or k not in vals else vals[k]
        c[k] = v
    if h.sym:
        return c, pd.DataFrame({k: pd.Series([e for e in obj(v)], dtype=object) for k, v in c.items()})
    return c, pd.DataFrame({k: np.asarray(v, float) for k, v in c.items()})


def L(v):
    return [] if v is None else ([v] if isinstance(v, str) else list(v))


def mat(h, c, names):
    n = len(next(iter(c.values())))
    r = np.empty((n, len(names)), dtype=object)
    for j, k in enumerate(names):
        r[:, j] = list(obj(c[k]))
    return r


def check(h, o, c, y, d, x, z=None, t=None, s=None, cl=None, other=True, tag="", active=None):
    """everything the backend reports, for every treatment in turn"""
    d, z, n = L(d), L(z), len(next(iter(c.values())))
    if x is None:
        used = {y, t, s} | set(d) | set(z) | set(L(cl))
        x = [k for k in COLS if k not in used]
    x = L(x)
    h.true(o.y_col == y and list(o.d_cols) == d and list(o.x_cols) == x and o.t_col == t and o.s_col == s and L(o.z_cols) == z, tag + "names of the roles")
    h.true(o.n_obs == n and o.n_treat == len(d) and o.n_coefs == len(d) and o.n_instr == len(z), tag + "counts")
    h.true(sorted(o.all_variables) == sorted(c), tag + "variables")
    one = lambda got, k, w: h.true(got is None, tag + w) if k is None else h.eq(obj(got), obj(c[k]), tag + w)
    order = [None] + d[::-1] + [d[0]]
    for k in order:
        if k is not None:
            o.set_x_d(k)
        k = (active or d[0]) if k is None else k
        want = x + [e for e in d if e != k] if other else x
        one(o.d, k, "treatment %s" % k)
        h.true(obj(o.x).shape == (n, len(want)), tag + "covariates for %s" % k)
        if obj(o.x).shape == (n, len(want)):
            h.eq(obj(o.x), mat(h, c, want), tag + "covariates for %s" % k)
        one(o.y, y, "outcome")
        one(o.t, t, "time")
        one(o.s, s, "selection")
        if z:
            h.eq(obj(o.z), mat(h, c, z), tag + "instruments")
        else:
            h.true(o.z is None, tag + "instruments")
        if cl is not None:
            h.eq(obj(o.cluster_vars), mat(h, c, L(cl)), tag + "clusters")
            h.true(o.n_cluster_vars == len(L(cl)) and list(o.cluster_cols) == L(cl), tag + "cluster names")
    for k, v in c.items():
        h.eq(obj(o.data[k].values), obj(v), tag + "data unchanged %s" % k)


def make(df, y, d, x=None, z=None, t=None, s=None, cl=None, other=True):
    kw = dict(y_col=y, d_cols=d, x_cols=x, z_cols=z, t_col=t, s_col=s, use_other_treat_as_covariate=other)
    return dml.DoubleMLData(df, **kw) if cl is None else dml.DoubleMLClusterData(df, cluster_cols=cl, **kw)


def roles(ways):
    """optional roles present or absent; treatments, instruments and covariates as names or lists; the rest are covariates"""
    def f(h):
        c, df = frame(h, cols=COLS + ["g", "i", "j", "k"])
        pool = list("badcfegijk")
        take = lambda: pool.pop(0)
        y = take()
        d = h.pick([1, 2], "treatments")
        d = [take() for _ in range(d)]
        if len(d) == 1 and h.pick([True, False], "as name"):
            d = d[0]
        z = h.pick([0, 1, 2], "instruments")
        z = None if not z else (take() if z == 1 else [take(), take()])
        t = take() if h.pick([False, True], "time") else None
        s = take() if h.pick([False, True], "selection") else None
        cl = [take() for _ in range(ways)] if ways else None
        x = h.pick([None, "list"], "covariates")
        x = None if x is None or not pool else pool[:2][::-1]
        other = h.pick([True, False], "other") if len(L(d)) == 2 else True
        o = make(df, y, d, x, z, t, s, cl, other)
        if x is None:
            used = {y, t, s} | set(L(d)) | set(L(z)) | set(L(cl))
            x = [k for k in df.columns if k not in used]
        check(h, o, c, y, d, x, z, t, s, cl, other)
    return f


BASE = dict(y="a", d=["b"], x=["c"], z=["d"], t="e", s="f", cl=None)


def clash(cluster):
    """no column may play two roles, at construction or later"""
    def f(h):
        cols = COLS + (["g", "h"] if cluster else ["g"])
        c, df = frame(h, cols=cols)
        base = dict(BASE, cl=["h"] if cluster else None)
        names = ["y", "d", "x", "z", "t", "s"] + (["cl"] if cluster else [])
        a, b = h.pick(list(itertools.permutations(names, 2)), "pair")
        bad = dict(base)
        v = L(base[b])[0]
        bad[a] = (L(base[a])[:1] if h.choose(2, "both") and a in ("d", "x", "z", "cl") else []) + [v] if a in ("d", "x", "z", "cl") else v
        h.raises(lambda: make(df, **bad), ValueError, "%s also as %s" % (b, a))
        o = make(df, **base)
        attr = {"y": "y_col", "d": "d_cols", "x": "x_cols", "z": "z_cols", "t": "t_col", "s": "s_col", "cl": "cluster_cols"}[a]
        h.raises(lambda: setattr(o, attr, bad[a]), ValueError, "%s set to the column of %s" % (a, b))
    return f


def setters(cluster):
    """a role can be given to another column later: as if the object had been made that way"""
    def f(h):
        c, df = frame(h, cols=COLS + ["g", "h", "i"])
        base = dict(BASE, d=["b", "g"], cl=["h"] if cluster else None)
        o = make(df, **base)
        active = None
        if h.choose(2, "treatment"):
            o.set_x_d("g")
            active = "g"
        what = h.pick(["y", "d", "d2", "x", "x0", "z", "z2", "z0", "t", "t0", "s", "s0", "other"] + (["cl"] if cluster else []), "role")
        new = dict(base)
        other = True
        if what == "y":
            o.y_col = new["y"] = "i"
        elif what == "d":
            o.d_cols = "g"
            new["d"] = ["g"]
        elif what == "d2":
            o.d_cols = ["i", "b"]
            new["d"] = ["i", "b"]
        elif what == "x":
            o.x_cols = ["i", "c"]
            new["x"] = ["i", "c"]
        elif what == "x0":
            o.x_cols = None
            new["x"] = [k for k in df.columns if k in ("c", "i") or (k == "h" and not cluster)]
        elif what in ("z", "z2", "z0"):
            new["z"] = {"z": "i", "z2": ["i", "d"], "z0": None}[what]
            o.z_cols = new["z"]
        elif what in ("t", "t0"):
            o.t_col = new["t"] = "i" if what == "t" else None
        elif what in ("s", "s0"):
            o.s_col = new["s"] = "i" if what == "s" else None
        elif what == "other":
            o.use_other_treat_as_covariate = other = False
        else:
            o.cluster_cols = ["i", "h"]
            new["cl"] = ["i", "h"]
        if what in ("d", "d2", "x", "x0", "other"):
            active = None  # back to the first treatment
        check(h, o, c, other=other, tag=what + ": ", active=active, **new)
        p = make(df, other=other, **new)
        h.true(bool(o.binary_outcome) == bool(p.binary_outcome) and list(o.binary_treats.index) == list(p.binary_treats.index)
               and [bool(b) for b in o.binary_treats] == [bool(b) for b in p.binary_treats], "binary indicators")
    return f


INTS = (-1, 0, 1, 2)


def kind_of(real):
    """contract of scikit-learn's type_of_target on numbers in [-1, 2]: binary = integers with at most two distinct values"""
    def type_of_target(y, *a, **k):
        v = y.values if hasattr(y, "values") else y
        if not has_sym(v):
            return real(y, *a, **k)
        seen = []
        for e in obj(v).ravel():
            for i in INTS:
                if bool(e == float(i)):
                    seen.append(i)
                    break
            else:
                return "continuous"
        return "binary" if len(set(seen)) <= 2 else "multiclass"
    return type_of_target


def numbers(real):
    """where the binary indicators are not looked at: numbers of no particular kind"""
    return lambda y, *a, **k: "continuous" if has_sym(y.values if hasattr(y, "values") else y) else real(y, *a, **k)


def binary(which):
    """binary means: every value is zero or one"""
    def f(h):
        n = 3
        c, df = frame(h, n=n, cols=["y", "d1", "d2", "x"], vals={k: num3(i, n) for i, k in enumerate(["y", "d1", "d2", "x"]) if k not in which}, lo=-1, hi=2)
        o = dml.DoubleMLData(df, "y", ["d1", "d2"], "x")
        for k in ("y", "d1", "d2"):
            got = o.binary_outcome if k == "y" else o.binary_treats[k]
            got = bool(got)
            want = all(bool((e == 0.0) | (e == 1.0)) if isinstance(e, S.SymReal) else e in (0.0, 1.0) for e in obj(c[k]))
            h.true(got == want, "%s is binary" % k)
        h.true(list(o.binary_treats.index) == ["d1", "d2"], "names of the treatments")
    return f


def num3(i, n):
    return np.array([[0.0, 1.0, 1.0], [1.0, 2.0, 0.0], [0.0, 0.0, 1.0], [0.5, 0.25, 1.0]][i][:n])


def arrays(cluster):
    """from_arrays: the columns of the arrays keep their order and content"""
    def f(h):
        n = 2
        kx, kd, kz = h.pick([1, 2], "x"), h.pick([1, 2], "d"), h.pick([0, 1, 2], "z")
        flat = h.choose(2, "flat") == 1
        mk = lambda k, m: h.reals(k, (n, m), 1.5, 4) if m > 1 or not flat else h.reals(k, n, 1.5, 4)
        x, d, z = mk("X", kx), mk("D", kd), (mk("Z", kz) if kz else None)
        y = h.reals("Y", n, 1.5, 4)
        t = h.reals("T", n) if h.choose(2, "t") else None
        s = h.reals("S", n) if h.choose(2, "s") else None
        other = kd == 1 or not flat
        kw = dict(z=z, t=t, s=s, use_other_treat_as_covariate=other)
        if cluster:
            kc = h.pick([1, 2], "clusters")
            g = mk("G", kc)
            o = dml.DoubleMLClusterData.from_arrays(x, y, d, g, **kw)
        else:
            o = dml.DoubleMLData.from_arrays(x, y, d, **kw)
        c = {"y": y}
        two = lambda v: obj(v).reshape(n, -1)
        nm = lambda p, m: [p] if m == 1 else ["%s%d" % (p, i + 1) for i in range(m)]
        xn, dn, zn = ["X%d" % (i + 1) for i in range(kx)], nm("d", kd), (nm("z", kz) if kz else None)
        for names, v in ((xn, x), (dn, d), (zn, z)) + (((nm("cluster_var", kc), g),) if cluster else ()):
            for j, k in enumerate(names or []):
                c[k] = two(v)[:, j]
        if t is not None:
            c["t"] = t
        if s is not None:
            c["s"] = s
        check(h, o, c, "y", dn, xn, zn, "t" if t is not None else None, "s" if s is not None else None, nm("cluster_var", kc) if cluster else None, other)
    return f


NAN, INF = float("nan"), float("inf")


def finite(h):
    """missing and infinite values: refused everywhere, in the covariates as asked for"""
    role = h.pick(["y", "d", "d2", "z", "t", "s", "x", "cl", "none"], "role")
    v = h.pick([NAN, INF], "value")
    row = h.choose(3, "row")
    pol = h.pick([True, "allow-nan", False], "policy")
    c = {k: np.arange(3) + 0.5 * i for i, k in enumerate(["y", "d", "d2", "z", "t", "s", "x", "cl"])}
    if role != "none":
        c[role][row] = v
    df = pd.DataFrame(c)
    kw = dict(y_col="y", d_cols=["d", "d2"], x_cols=["x"], z_cols="z", t_col="t", s_col="s", force_all_x_finite=pol)
    ok = role in ("none", "cl") or (role == "x" and (pol is False or (pol == "allow-nan" and v != INF)))
    mk = lambda: dml.DoubleMLData(df, **kw)
    mc = lambda: dml.DoubleMLClusterData(df, cluster_cols="cl", **kw)
    for f, good in ((mk, ok), (mc, ok and role != "cl")):
        if good:
            o = f()
            h.eq(o.y, c["y"], "accepted outcome")
            if role == "x":
                h.true(bool(((o.x[:, 0] == c["x"]) | (np.isnan(o.x[:, 0]) & np.isnan(c["x"]))).all()), "accepted covariates")
        else:
            h.raises(f, ValueError, "%s: %s in %s" % (pol, v, role))


def refuse(h):
    c, df = frame(h, cols=COLS)
    base = dict(BASE, s=None)
    o = make(df, **base)
    attr = {"y": "y_col", "d": "d_cols", "x": "x_cols", "z": "z_cols", "t": "t_col", "s": "s_col"}
    bad = [(k, v, TypeError) for k in ("d", "x", "z") for v in (1, ("f",))] + [(k, v, TypeError) for k in ("y", "t", "s") for v in (1, ["f"])]
    bad += [(k, "zz", ValueError) for k in attr] + [(k, ["f", "zz"], ValueError) for k in ("d", "x", "z")] + [(k, ["f", "f"], ValueError) for k in ("d", "x", "z")]
    bad += [("y", None, TypeError), ("d", None, TypeError)]
    for k, v, e in bad:
        h.raises(lambda: make(df, **dict(base, **{k: v})), e, "%s = %r" % (k, v))
        h.raises(lambda: setattr(make(df, **base), attr[k], v), e, "%s set to %r" % (k, v))
    h.raises(lambda: o.set_x_d("a"), ValueError, "not a treatment")
    h.raises(lambda: o.set_x_d(["b"]), TypeError, "not a name")
    h.raises(lambda: dml.DoubleMLData(df.values, "a", "b"), TypeError, "no data frame")
    dup = df.copy()
    dup.columns = list("caabed")
    h.raises(lambda: dml.DoubleMLData(dup, "c", "b"), ValueError, "duplicate names")
    h.raises(lambda: make(df, other=1, **base), TypeError, "use_other_treat_as_covariate")
    for v, e in (("x", ValueError), (1, TypeError), (None, TypeError)):
        h.raises(lambda: dml.DoubleMLData(df, "a", "b", force_all_x_finite=v), e, "force_all_x_finite = %r" % v)
    for v, e in ((1, TypeError), ("zz", ValueError), (["f", "f"], ValueError)):
        h.raises(lambda: make(df, **dict(base, cl=v)), e, "cluster_cols = %r" % (v,))
    check(h, o, c, **base)


def scenarios(tier):
    out = []

    def add(name, fn, patches={"type_of_target": numbers}, **kw):
        out.append(Scenario(name, fn, patches=(lambda h: patches if h.sym else {}) if patches else None, bounds=str(kw)))
    for w in (0, 1, 2):
        add("roles-%d" % w, roles(w))
    for w in (False, True):
        add("clash" + "-cluster" * w, clash(w))
        add("setters" + "-cluster" * w, setters(w))
        add("arrays" + "-cluster" * w, arrays(w))
    add("binary-treatment", binary(["d1"]), {"type_of_target": kind_of})
    add("binary-second", binary(["d2"]), {"type_of_target": kind_of})
    add("binary-outcome", binary(["y"]), {"type_of_target": kind_of})
    add("finite", finite)
    add("refuse", refuse)
    return out

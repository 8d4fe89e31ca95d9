"""contour plots of the sensitivity analysis"""
import re

from props.c20 import IDLE, Res  # noqa: F401
from props.c38 import tokens
from props.fw import *


class Trace:
    def __init__(self, kind, kw):
        self.kind, self.kw = kind, kw

    def __getattr__(self, k):
        try:
            return self.__dict__["kw"][k]
        except KeyError:
            raise AttributeError(k)


class Anything:
    def __getattr__(self, k):
        return lambda *a, **kw: self


class Figure(Anything):
    def __init__(self, data=None, layout=None, **k):
        self.data, self.layout = list(data or []), {}

    def add_trace(self, t, *a, **k):
        self.data.append(t)
        return self

    def add_traces(self, ts, *a, **k):
        self.data += list(ts)
        return self

    def add_contour(self, **k):
        return self.add_trace(Trace("Contour", k))

    def add_scatter(self, **k):
        return self.add_trace(Trace("Scatter", k))

    def update_layout(self, *a, **k):
        self.layout.update(k)
        return self


class Go(Anything):
    """plotly's graph objects: records what is drawn"""
    Figure = Figure

    def __getattr__(self, k):
        return lambda *a, **kw: Trace(k, kw)


def drawn(fig, name):
    hit = [t for t in fig.data if getattr(t, "name", None) == name]
    return hit[0] if len(hit) == 1 else None


def number(t):
    """the value shown by the text of a marker"""
    m = re.search(r"Bound.*?:\s*(@\d+@|-?\d+\.?\d*(?:e-?\d+)?)", t.hovertemplate)
    return m.group(1) if m else None


def close(h, got, want, tag):
    if isinstance(got, S.SymReal) and not got.is_const or isinstance(want, S.SymReal) and not want.is_const:
        h.true(got == want, tag)
    else:
        h.true(abs(float(got) - float(want)) < 6e-4, tag)


def single(o):
    return [(o.thetas, o.sensitivity_analysis, o.sensitivity_params, lambda **k: o.sensitivity_plot(**k))]


SCEN = dict(cf_y=0.25, cf_d=0.125, rho=-0.5, level=0.75)


def plot(nt, idx, value, side, rho=1.0, level=0.9, bounds=(0.3, 0.6), size=10, include=True, bench=None, nrep=1, fill=True, model=None, default_null=False):
    def f(h):
        if model is None:
            o, d = framework(h, nt=nt, nrep=nrep, n=2, sens=True, psi=False, ses=None)
            o2 = DoubleMLFramework(copyd(d))
            plotting = o
        else:
            m, e, _ = build(h, model, 8, nrep, 2, nt, None, ycol=h.arr([h.real("y0", -1, 1)] + list(num(3, 7, -1, 2))))
            h.cache["free_rows"] = ()
            m.fit(external_predictions=e)
            plotting, o2 = m, m.framework
            import copy
            o2 = copy.deepcopy(m.framework)
        th = o2.thetas[idx]
        null = h.real("null", -4, 4) if not default_null else 0.0
        if side is not None:
            h.assume(null > th if side == "upper" else null <= th)
        up = bool(null > th)
        bound = "upper" if up else "lower"
        nulls = np.array([-9.0, 9.0, -9.0][:nt])  # the direction of the earlier analysis is another one
        plotting.sensitivity_analysis(null_hypothesis=nulls, **SCEN)
        kw = dict(idx_treatment=idx, value=value, rho=rho, level=level, include_scenario=include, fill=fill, grid_bounds=bounds, grid_size=size, benchmarks=bench)
        if not default_null:
            kw["null_hypothesis"] = null
        with tokens(h) as read:
            fig = plotting.sensitivity_plot(**kw)
            c = drawn(fig, "Contour")
            h.true(c is not None and c.kind == "Contour", "one contour")
            x, y, z = np.asarray(c.x, float), np.asarray(c.y, float), np.array(plain(obj(c.z)), dtype=object)
            if getattr(c, "transpose", False):
                z = z.T
            ax = {k: fig.layout.get(k) for k in ("xaxis_title", "yaxis_title")}
            h.true("cf_d" in str(ax["xaxis_title"]) and "cf_y" in str(ax["yaxis_title"]), "axes")
            h.eq(x, np.linspace(0, bounds[0], size), "grid of cf_d")
            h.eq(y, np.linspace(0, bounds[1], size), "grid of cf_y")
            h.true(z.shape == (size, size), "a value at every grid point")
            for j, i in ((0, 0), (0, size - 1), (size - 1, 0), (2, 7), (7, 2), (size - 1, size - 1), (3, 3)):
                h.eq(z[j, i], at(o2, float(y[j]), float(x[i]), rho, level)[value][bound][idx], "value at cf_d = x[%d], cf_y = y[%d]" % (i, j))
            s = drawn(fig, "Scenario")
            h.true((s is not None) == include, "scenario drawn if asked for")
            if s is not None:
                h.true(list(s.x) == [SCEN["cf_d"]] and list(s.y) == [SCEN["cf_y"]], "place of the scenario")
                p = at(o2, **SCEN)
                close(h, read(number(s)), p[value][bound][idx], "value of the scenario")
            u = drawn(fig, "Unadjusted")
            h.true(u is not None and list(u.x) == [0] and list(u.y) == [0], "place of the unadjusted estimate")
            if value == "theta":
                close(h, read(number(u)), th, "unadjusted estimate")
            b = drawn(fig, "Benchmarks")
            h.true((b is not None) == (bench is not None), "benchmarks drawn if given")
            if b is not None:
                h.true(list(b.x) == list(bench["cf_d"]) and list(b.y) == list(bench["cf_y"]), "places of the benchmarks")
                h.true(len(b.text) == len(bench["name"]) and all(nm in t for nm, t in zip(bench["name"], b.text)), "names of the benchmarks")
                v = np.array(plain(obj(b.customdata)), dtype=object).ravel()
                h.true(len(v) == len(bench["name"]), "one value per benchmark")
                for k in range(len(v)):
                    h.eq(v[k], at(o2, bench["cf_y"][k], bench["cf_d"][k], SCEN["rho"], SCEN["level"])[value][bound][idx], "value of benchmark %d" % k)
                h.true("value" not in bench, "the benchmarks given stay unchanged")
        h.eq(plotting.sensitivity_params["input"]["cf_y"], SCEN["cf_y"], "the last analysis stays")
        h.eq(plotting.sensitivity_params["input"]["rho"], SCEN["rho"], "the last analysis stays")
    return f


def at(o, cf_y, cf_d, rho, level):
    o.sensitivity_analysis(cf_y=cf_y, cf_d=cf_d, rho=rho, level=level)
    return o.sensitivity_params


def refused(h):
    """arguments"""
    o, d = framework(h, nt=2, nrep=1, n=2, sens=True, psi=False, ses=None)
    T_, V = TypeError, ValueError
    h.raises(lambda: o.sensitivity_plot(), V, "no analysis yet")
    o.sensitivity_analysis(**SCEN)
    v = h.real("bound", -0.5, 1.5)
    which = h.choose(2, "axis")
    gb = (v, 0.25) if which == 0 else (0.25, v)
    if not (bool(v > 0) and bool(v < 1)):
        h.raises(lambda: o.sensitivity_plot(grid_bounds=gb, grid_size=10), V, "grid outside (0, 1)")
        return
    bad = [dict(idx_treatment=2), dict(idx_treatment=-1), dict(idx_treatment=0.0), dict(value="both"), dict(value=1), dict(null_hypothesis=1), dict(include_scenario=1), dict(fill=1), dict(grid_size=9), dict(grid_size=10.0),
           dict(benchmarks=[1]), dict(benchmarks={"cf_y": [0.1], "cf_d": [0.1]}), dict(benchmarks={"cf_y": [0.1], "cf_d": [0.1, 0.2], "name": ["a"]}), dict(benchmarks={"cf_y": [1.0], "cf_d": [0.1], "name": ["a"]}),
           dict(benchmarks={"cf_y": [0.5], "cf_d": [-0.1], "name": ["a"]}), dict(benchmarks={"cf_y": [0.5], "cf_d": [0.1], "name": [2]}), dict(rho=1.5), dict(level=1.0), dict(rho=1), dict(grid_bounds=(1.0, 0.5)), dict(grid_bounds=(0.5, 0.0))]
    b = h.pick(bad, "argument")
    h.raises(lambda: o.sensitivity_plot(**b), (T_, V), "refused: %s" % b)


def mark(real):
    """rounding for display: the value itself"""
    def r(x, *a):
        return x if isinstance(x, S.SymReal) and not x.is_const else real(x, *a)
    return r


def scenarios(tier):
    out = []
    patches = lambda h: dict({"go": lambda real: Go()}, **(dict(IDLE, round=mark) if h.sym else {}))

    def add(name, fn, **kw):
        out.append(Scenario(name, fn, patches=patches, bounds=name, **kw))
    B = {"cf_y": [0.125, 0.5], "cf_d": [0.25, 0.0625], "name": ["first", "second"]}
    for value in ("theta", "ci"):
        for side in ("lower", "upper"):
            add("plot-%s-%s" % (value, side), plot(2, 1, value, side, bench=B))
        add("null-%s" % value, plot(1, 0, value, None))
    add("first-of-two", plot(2, 0, "theta", None, rho=0.5, include=False, bounds=(0.6, 0.3)))
    add("default-null", plot(2, 1, "theta", None, default_null=True, bench=B, fill=False))
    add("two-reps", plot(2, 1, "theta", "upper", nrep=2, rho=-0.25))
    add("two-reps-ci", plot(2, 1, "ci", "lower", nrep=2, rho=0.0, level=0.6))
    add("grid-12", plot(1, 0, "theta", "lower", size=12, bounds=(0.9, 0.1)))
    for m in ("PLR", "IRM", "DID"):
        add("model-" + m, plot(1, 0, "theta", "lower", model=m, bench=B))
    add("refused", refused)
    return out

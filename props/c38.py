"""summaries and printed results carry the numbers of the object they summarise, each under its label"""
import contextlib
import re

from props.c15 import two
from props.c20 import IDLE
from props.fw import *

COLS = ["coef", "std err", "t", "P>|t|"]


def summary(h, o, T, s, pv, names, tag, df=None):
    """one row per parameter"""
    df = o.summary if df is None else df
    ci = o.confint()
    h.true(list(df.columns) == COLS + ["2.5 %", "97.5 %"], tag + " columns")
    h.true(list(df.index) == list(names), tag + " rows")
    if df.shape != (len(T), 6):
        return h.fail(tag + " shape")
    for i in range(len(T)):
        h.eq(df.iloc[i, 0], T[i], tag + " estimate %d" % i)
        h.eq(df.iloc[i, 1], s[i], tag + " error %d" % i)
        h.eq(df.iloc[i, 2] * s[i], T[i], tag + " ratio %d" % i)
        h.eq(df.iloc[i, 3], pv[i], tag + " p-value %d" % i)
        h.eq(df.iloc[i, 4], ci.iloc[i, 0], tag + " lower limit %d" % i)
        h.eq(df.iloc[i, 5], ci.iloc[i, 1], tag + " upper limit %d" % i)


@contextlib.contextmanager
def tokens(h):
    """solver variables print as numbered tokens: read() turns a printed token back into the value"""
    table = []

    def show(self, *a):
        if self.is_const:
            return str(float(self.const()))
        table.append(self)
        return "@%d@" % (len(table) - 1)
    R = S.SymReal
    old = R.__str__, R.__repr__, R.__format__
    R.__str__ = R.__repr__ = R.__format__ = show

    def read(t):
        m = re.fullmatch(r"@(\d+)@", t)
        return table[int(m.group(1))] if m else float(t)
    try:
        yield read
    finally:
        R.__str__, R.__repr__, R.__format__ = old


def same(h, got, want, tag):
    """a printed number: up to the digits that are printed"""
    if any(isinstance(x, S.SymReal) and not x.is_const for x in (got, want)):
        h.true(got == want, tag)
    else:
        h.true(abs(float(got) - float(want)) <= 2e-5 * (1 + abs(float(want))), tag)


def table(text, after, cols, read):
    """rows of the table printed behind the line `after`: [(label, values)]"""
    part = text.split(after)[1]
    lines = [ln for ln in part.split("\n")[1:]]
    while lines and not lines[0].strip():
        lines.pop(0)
    head = lines.pop(0)
    ok = head.split() == " ".join(cols).split()
    rows = []
    for ln in lines:
        if not ln.strip() or ln.startswith("---"):
            break
        w = ln.split()
        rows.append((" ".join(w[:-len(cols)]), [read(t) for t in w[-len(cols):]]))
    return ok, rows


def fw(nt, nrep, names=None):
    def f(h):
        d = raw(h, nt=nt, nrep=nrep, n=2, psi=False, free=True, ses=None)
        if names:
            d["treatment_names"] = names
        o = DoubleMLFramework(copyd(d))
        summary(h, o, d["thetas"], d["ses"], o.pvals, names or range(nt), "framework")
    return f


def mdl(name, nt=1, nrep=1):
    def f(h):
        m, e, dd = build(h, name, nrep=nrep, ntreat=nt)
        df = m.summary
        h.true(list(df.columns) == COLS and len(df) == 0, "empty before the fit")
        m.fit(external_predictions=e)
        summary(h, m, m.coef, m.se, [two(h, m.coef[i] / m.se[i]) for i in range(nt)], dd.d_cols, name)
        h.eq(m.framework.thetas, m.coef, "estimates of the framework")
        h.eq(m.framework.ses, m.se, "errors of the framework")
        h.eq(m.framework.all_thetas, m.all_coef, "repetitions of the framework")
        h.eq(m.framework.all_ses, m.all_se, "errors of the repetitions of the framework")
    return f


D3 = np.array([0, 1, 2, 1, 0, 2, 2, 0, 1, 0, 1, 2, 1, 2, 0, 0, 1, 2], float)


def levels(lv, nrep=1):
    def f(h):
        n = 18
        y = h.arr([float(v) for v in num(11, n, -1, 2)])
        y[0], y[1], y[2] = h.real("y0"), h.real("y1"), h.real("y2")
        m = dml.DoubleMLAPOS(data(y, D3), StubReg("g"), StubClf("m"), treatment_levels=lv, n_folds=2, n_rep=nrep, draw_sample_splitting=False)
        m.set_sample_splitting(splits(n, 2, nrep, "mod"))
        h.true(list(m.summary.columns) == COLS and len(m.summary) == 0, "empty before the fit")
        e = {l: {k: num(int(3 * l) + q, (n, nrep), -1, 1.5) if k != "ml_m" else num(int(l), (n, nrep), 0.3, 0.7)
                 for q, k in enumerate(("ml_g_d_lvl0", "ml_g_d_lvl1", "ml_m"))} for l in lv}
        m.fit(external_predictions=e)
        for i, l in enumerate(lv):
            h.eq(m.coef[i], m.modellist[i].coef[0], "level %s estimate" % l)
            h.eq(m.se[i], m.modellist[i].se[0], "level %s error" % l)
            h.true(m.modellist[i].treatment_level == l, "level %s model" % l)
        summary(h, m, m.coef, m.se, m.framework.pvals, lv, "levels")
        c = m.causal_contrast(reference_levels=[lv[0]])
        want = ["%s vs %s" % (l, lv[0]) for l in lv[1:]]
        summary(h, c, c.thetas, c.ses, c.pvals, want, "contrast")
        for i, l in enumerate(lv[1:]):
            for r in range(nrep):
                h.eq(c.all_thetas[i, r], m.all_coef[i + 1, r] - m.all_coef[0, r], "contrast %s" % l)
    return f


def effects(h, m):
    h.true(list(m.summary.columns) == COLS and len(m.summary) == 0, "empty before the fit")
    m.fit()
    for i, q in enumerate(m.quantiles):
        h.eq(m.coef[i], m.framework.thetas[i], "estimate at %g" % q)
    summary(h, m, m.coef, m.se, m.framework.pvals, [0.5, 0.25], "effects")


def sens(kind, names=None):
    """the printed sensitivity results"""
    def f(h):
        if kind == "framework":
            o, d = framework(h, nt=2, nrep=1, n=2, sens=True, psi=False, ses=None)
            if names:
                o.treatment_names = names
            lab = names or ["0", "1"]
            th, nl = o.thetas, np.array([0.25, -0.5])
        else:
            y = h.arr([float(v) for v in num(11, 10 if kind == "APO" else 8, -1, 2)])
            y[1] = h.real("y1")
            o, e, dd = build(h, kind, ntreat=2 if kind == "PLR" else 1, ycol=y)
            h.raises(lambda: o.sensitivity_summary, ValueError, "before the fit")
            o.fit(external_predictions=e)
            lab, th, nl = list(dd.d_cols), o.coef, np.array([0.25, -0.5][:len(dd.d_cols)])
        text = o.sensitivity_summary
        h.true("Apply sensitivity_analysis()" in text, "before the analysis")
        o.sensitivity_analysis(cf_y=0.25, cf_d=0.2, rho=0.5, level=0.9, null_hypothesis=nl)
        with tokens(h) as read:
            text = o.sensitivity_summary
            h.true("level=0.9\n" in text and "cf_y=0.25;" in text and "cf_d=0.2," in text and "rho=0.5\n" in text, "scenario printed")
            ok, rows = table(text, "Bounds with CI    ---", ["CI lower", "theta lower", "theta", "theta upper", "CI upper"], read)
            par = o.sensitivity_params
            h.true(ok and [r for r, _ in rows] == [str(x) for x in lab], "rows of the bounds")
            if not ok or len(rows) != len(lab):
                return
            for i, (_, v) in enumerate(rows):
                for x, w, t in zip(v, (par["ci"]["lower"][i], par["theta"]["lower"][i], th[i], par["theta"]["upper"][i], par["ci"]["upper"][i]),
                                   ("lower limit", "lower bound", "estimate", "upper bound", "upper limit")):
                    same(h, x, w, "printed %s %d" % (t, i))
            ok, rows = table(text, "Robustness Values ---", ["H_0", "RV (%)", "RVa (%)"], read)
            h.true(ok and [r for r, _ in rows] == [str(x) for x in lab] and len(rows) == len(lab), "rows of the robustness values")
            for i, (_, v) in enumerate(rows):
                for x, w, t in zip(v, (nl[i], 100 * par["rv"][i], 100 * par["rva"][i]), ("null", "robustness value", "robustness value of the limit")):
                    same(h, x, w, "printed %s %d" % (t, i))
    return f


def rvs(real):
    """different robustness values for different calls, so that rows and columns cannot be exchanged unseen"""
    from props.c20 import Res
    k = [0]

    def solver(fun, *a, args=(), **kw):
        k[0] += 1
        return Res([0.25, 0.5, 0.125, 0.75][k[0] % 4])
    return solver


SEEN = {"minimize_scalar": rvs, "root_scalar": rvs}


def printed(name, cluster=False, nrep=1):
    """str(model): folds, repetitions, learners' losses and the summary"""
    def f(h):
        n = 8
        y = h.arr([float(v) for v in num(11, 10 if name == "APO" else n, -1, 2)])
        y[1] = h.real("y1")
        kw = {}
        if cluster:
            from props.c13 import C1, FOLD1, csplit
            sp = csplit([C1[:14]], [FOLD1[0]], [2])
            y = h.arr([float(v) for v in num(11, 14, -1, 2)])
            y[1] = h.real("y1")
            kw = dict(n=14, cluster=[np.array(C1[:14])], sm=[sp[0]], smc=[sp[1]])
        m, e, dd = build(h, name, ycol=y, nrep=nrep, **kw)
        m.fit(external_predictions=e)
        with tokens(h) as read:
            text = str(m)
            fit = text.split("Fit summary       ---")[1]
            ok, rows = table(text, "Fit summary       ---", COLS + ["2.5 %", "97.5 %"], read)
            ci = m.confint()
            h.true(ok and [r for r, _ in rows] == list(dd.d_cols), "rows of the fit summary")
            if not ok or len(rows) != 1:
                return
            for x, w, t in zip(rows[0][1], (m.coef[0], m.se[0], m.t_stat[0], m.pval[0], ci.iloc[0, 0], ci.iloc[0, 1]), COLS + ["lower", "upper"]):
                same(h, x, w, "printed " + t)
            h.true("No. folds: %d\n" % m.n_folds in text and "No. repeated sample splits: %d\n" % nrep in text, "folds and repetitions")
            h.true(("No. folds per cluster: 2\n" in text) == cluster, "folds per cluster")
            h.true("Score function: %s\n" % m.score in text and "No. Observations: %d\n" % dd.n_obs in text, "score and observations")
            body = text.split("Out-of-sample Performance:\n")[1].split("---")[0]
            reg = body.split("Classification:\n")[0]
            cla = body.split("Classification:\n")[1] if "Classification:\n" in body else ""
            for k, v in m.nuisance_loss.items():
                clf = k.split("_")[1] in ("m", "r0", "r1", "pi") and name not in ("PLR", "PLIV", "PLR-IV")
                mt = re.search(r"Learner %s (RMSE|Log Loss): \[(.*?)\]\]\n|Learner %s (RMSE|Log Loss): \[(.*?)\]\n" % (k, k), cla if clf else reg, re.S)
                h.true(mt is not None and (mt.group(1) or mt.group(3)) == ("Log Loss" if clf else "RMSE"), "loss of %s is printed under its kind" % k)
                if mt:
                    got = [read(t) for t in re.findall(r"@\d+@|nan|-?\d+\.?\d*(?:e[+-]?\d+)?", mt.group(0).split(":", 1)[1].replace("float64", ""))]
                    h.true(len(got) == obj(v).size, "losses of %s" % k)
                    for x, w in zip(got, obj(v).ravel()):
                        if not (isinstance(w, S.SymReal)) and w != w:
                            h.true(x != x, "loss of %s" % k)
                        else:
                            same(h, x, w, "loss of %s" % k)
    return f


def scenarios(tier):
    out = []

    def add(name, fn, patches=IDLE, **kw):
        out.append(Scenario(name, fn, patches=(lambda h: patches if h.sym else {}), bounds=str(kw)))
    add("framework-1rep", fw(2, 1))
    add("framework-2rep", fw(2, 2, ["b", "a"]))
    add("framework-3rep", fw(1, 3))
    for nm in NAMES:
        add(nm, mdl(nm))
    add("PLR-2treat-2rep", mdl("PLR", 2, 2))
    add("IRM-2rep", mdl("IRM", 1, 2))
    add("levels", levels([0.0, 1.0, 2.0]))
    add("levels-order", levels([2.0, 0.0, 1.0]))
    add("levels-2rep", levels([1.0, 0.0], 2))
    from props.c09 import qte, solvers
    out.append(Scenario("effects", qte("CVaR", quants=(0.5, 0.25), then=effects), patches=solvers, bounds="QTE, CVaR score"))
    add("sensitivity-framework", sens("framework"), SEEN)
    add("sensitivity-names", sens("framework", ["b", "a"]), SEEN)
    for nm in ("PLR", "IRM", "APO", "DID"):
        add("sensitivity-" + nm, sens(nm), SEEN)
    for nm in ("PLR", "PLIV", "IRM", "APO", "IIVM", "DID", "DIDCS"):
        add("printed-" + nm, printed(nm))
    add("printed-IRM-2rep", printed("IRM", nrep=2))
    add("printed-cluster", printed("PLR", cluster=True))
    return out

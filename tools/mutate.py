#!/usr/bin/env python3
"""Mutation testing of the checks: random syntactic changes of /repo in scratch copies; a change no check reports is listed.
mutate.py OUT.jsonl N SEED WORKERS [file-substring]   (checks are taken from the directory this file lies in)"""
import ast
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SRC = os.environ.get("VERIF_REPO", "/repo")
SKIP = ("tests", "datasets", "_plots.py", "__init__.py", "conftest")
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&"}
NAME = {"mean": "median", "median": "mean", "max": "min", "min": "max", "amax": "amin", "any": "all", "all": "any", "square": "abs", "zeros": "ones", "ones": "zeros", "logical_and": "logical_or",
        "train_index": "test_index", "test_index": "train_index", "maximum": "minimum", "minimum": "maximum", "zeros_like": "ones_like", "ones_like": "zeros_like", "sum": "mean"}
import re
PAIR = [("d0", "d1"), ("d1", "d0"), ("g_hat0", "g_hat1"), ("g_hat1", "g_hat0"), ("lvl0", "lvl1"), ("lvl1", "lvl0"), ("t0", "t1"), ("t1", "t0"), ("lower", "upper"), ("upper", "lower"), ("theta", "ci"), ("r_hat0", "r_hat1"), ("coef", "se"), ("left", "right"),
        ("n_rep", "n_folds"), ("i_rep", "i_fold"), ("i_treat", "i_rep"), ("cf_y", "cf_d"), ("g0", "g1"), ("g1", "g0"), ("ml_g", "ml_m"), ("ml_m", "ml_l")]


def candidates(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def add(s, e, new, kind, node):
        out.append((s, e, new, kind, node.lineno))

    def walk(node, stack):
        if isinstance(node, ast.Raise):
            return
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            if node.name in ("__str__", "_summary_str") or "plot" in node.name:
                return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if isinstance(node, ast.JoinedStr):
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            l, r = pos(node.left), pos(node.comparators[0])
            op = type(node.ops[0])
            if op in CMP:
                add(l[1], r[0], (" " + CMP[op] + " ").encode(), "cmp", node)
        if isinstance(node, ast.BinOp) and type(node.op) in BIN and not isinstance(node.left, (ast.JoinedStr,)) and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            l, r = pos(node.left), pos(node.right)
            mid = b[l[1]:r[0]]
            import re as _r
            sym = {ast.Add: b"+", ast.Sub: b"-", ast.Mult: b"*", ast.Div: b"/", ast.BitAnd: b"&", ast.BitOr: b"|"}[type(node.op)]
            if mid.count(sym) == 1:
                add(l[1], r[0], mid.replace(sym, BIN[type(node.op)].encode()), "bin", node)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            s, e = pos(node)
            o = pos(node.operand)
            add(s, o[0], b"", "unary", node)
        if isinstance(node, (ast.If, ast.IfExp)):
            s, e = pos(node.test)
            add(s, e, b"not (" + b[s:e] + b")", "if", node)
        if isinstance(node, ast.Constant) and not isinstance(node.value, str) and node.value is not None:
            s, e = pos(node)
            v = node.value
            if isinstance(v, bool):
                add(s, e, str(not v).encode(), "const", node)
            elif isinstance(v, int):
                add(s, e, str({0: 1, 1: 0}.get(v, v + 1)).encode(), "const", node)
            elif isinstance(v, float):
                add(s, e, repr(v * 0.5).encode(), "const", node)
        if isinstance(node, ast.Attribute) and node.attr in NAME:
            s, e = pos(node)
            add(e - len(node.attr), e, NAME[node.attr].encode(), "name", node)
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
            s, e = pos(node)
            if node.id in NAME:
                add(s, e, NAME[node.id].encode(), "name", node)
            for a, c in PAIR:
                if a in node.id:
                    add(s, e, node.id.replace(a, c).encode(), "pair", node)
                    break
        if isinstance(node, ast.Constant) and isinstance(node.value, str) and b[pos(node)[0]:pos(node)[0] + 1] in (b'"', b"'") and len(node.value) < 20:
            s, e = pos(node)
            for a, c in PAIR:
                if a in node.value:
                    add(s, e, b[s:e].replace(a.encode(), c.encode()), "key", node)
                    break
        if isinstance(node, ast.Call):
            for kw in node.keywords:
                if kw.arg and len(node.keywords) + len(node.args) > 1:
                    s, e = pos(kw)
                    rest = b[e:]
                    m = re.match(rb"\s*,\s*", rest)
                    if m:
                        add(s, e + m.end(), b"", "kwdrop", node)
        if isinstance(node, (ast.Assign, ast.AugAssign)) and isinstance(node.targets[0] if isinstance(node, ast.Assign) else node.target, (ast.Subscript, ast.Attribute)):
            s, e = pos(node)
            add(s, e, b"pass", "drop", node)
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            s, e = pos(node)
            add(s, e, b"pass", "drop", node)
        for c in ast.iter_child_nodes(node):
            walk(c, stack)
    walk(tree, [])
    good = []
    for s, e, new, kind, ln in out:
        t = b[:s] + new + b[e:]
        if t == b:
            continue
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        good.append((s, e, new, kind, ln))
    return b, good


def plan():
    """file -> properties, cheapest first"""
    import glob
    ps = [json.loads(l) for l in open(V + "/properties.jsonl")]
    claimed = {c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
    return {p["id"]: p["anchors"]["files"] for p in ps if p["id"] in claimed}


COV = os.environ.get("COVDIR")  # COVDIR/Cxx: lines "file:number" executed by the check; COVDIR/times.txt: seconds


def order(rel, files, lines=()):
    """checks to run: those that execute the changed lines, the ones anchored in the file and the quick ones first"""
    if not COV:
        hit = [p for p, fs in files.items() if rel in fs]
        return sorted(hit) + [p for p in sorted(files) if p not in hit]
    cost = {a.split()[0]: int(a.split()[1]) for a in open(COV + "/times.txt")}
    want = {"%s:%d" % (rel[len("doubleml/"):], n) for n in lines}
    run = [p for p in files if os.path.exists(COV + "/" + p) and want & set(open(COV + "/" + p).read().split())]
    return sorted(run, key=lambda p: (cost[p] + 1) * (1 if rel in files[p] else 3))


def work(job):
    i, rel, s, e, new, kind, ln, line = job
    w = "/tmp/mut/w%d" % (mp.current_process()._identity[0])
    if not os.path.exists(w):
        os.makedirs(w)
        shutil.copytree(SRC + "/doubleml", w + "/doubleml", ignore=shutil.ignore_patterns("__pycache__"))
        for f in ("pyproject.toml", "setup.py"):
            if os.path.exists(SRC + "/" + f):
                shutil.copy(SRC + "/" + f, w)
    p = os.path.join(w, rel)
    b = open(os.path.join(SRC, rel), "rb").read()
    t = b[:s] + new + b[e:]
    open(p, "wb").write(t)
    res = dict(i=i, file=rel, line=ln, kind=kind, old=line, new=t.decode().splitlines()[ln - 1].strip(), caught=None, codes={})
    t0 = time.time()
    first = b[:s].count(b"\n") + 1
    span = range(min(ln, first), first + b[s:e].count(b"\n") + 1)
    todo = order(rel, plan(), span)
    res["ran"] = todo
    for prop in todo:
        try:
            r = subprocess.run([PY, V + "/check.py", prop, "-j", "2"], capture_output=True, text=True, timeout=600,
                               env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE="/tmp/mut/ev%s" % w[-1], VERIF_SCRATCH="1"))
            rc = r.returncode
            if rc == 0 and "INCONCLUSIVE" in r.stdout:
                res["codes"][prop] = "inconclusive"
            elif rc not in (0, 1):
                res["codes"][prop] = (r.stdout + r.stderr)[-150:]
        except subprocess.TimeoutExpired:
            res["codes"][prop] = "timeout"
            continue
        if rc == 1:
            res["caught"] = prop
            break
    open(p, "wb").write(b)
    res["sec"] = round(time.time() - t0)
    return res


if __name__ == "__main__":
    out, n, seed, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    sub = sys.argv[5] if len(sys.argv) > 5 else ""
    jobs = []
    for d, _, fs in os.walk(SRC + "/doubleml"):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, SRC)
            if not f.endswith(".py") or any(k in rel for k in SKIP) or sub not in rel:
                continue
            b, c = candidates(p)
            ls = b.decode().splitlines()
            jobs += [(rel, *m, ls[m[4] - 1].strip()) for m in c]
    print(len(jobs), "candidates")
    random.Random(seed).shuffle(jobs)
    jobs = [(i, *j) for i, j in enumerate(jobs[:n])]
    with open(out, "a") as fo, mp.Pool(workers) as pool:
        for r in pool.imap_unordered(work, jobs):
            fo.write(json.dumps(r) + "\n")
            fo.flush()
    shutil.rmtree("/tmp/mut", ignore_errors=True)

"""Run one property's scenarios in parallel, replay counterexamples on the unpatched code, write evidence."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")


def known_findings():
    """lines 'finding: property=<id> key=<key> <what fails>' (a key names one specific deviating behaviour)"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding:"):
                f = dict(p.split("=", 1) for p in l.split()[1:3])
                out[(f["property"], f["key"])] = " ".join(l.split()[3:])
    return out


def load(pid):
    return importlib.import_module("props.%s" % pid.lower())


def _work(args):
    pid, idx, tier, seed = args
    from symx import harness
    try:
        mod = load(pid)
        sc = mod.scenarios(tier)[idx]
        return harness.run_scenario(sc, tier, seed).json()
    except Exception as e:  # engine failure
        return {"name": "?%d" % idx, "error": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())}


def _child(conn, args):
    try:
        conn.send(_work(args))
    finally:
        conn.close()


def run_all(jobs, nproc):
    """one fresh forked process per scenario (symbol tables start empty)"""
    ctx = mp.get_context("fork")
    pend = list(jobs)
    act = {}
    res = {}
    while pend or act:
        while pend and len(act) < nproc:
            j = pend.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(b, j))
            p.start()
            b.close()
            act[a] = (p, j)
        for c in mp.connection.wait(list(act), timeout=1):
            p, j = act.pop(c)
            try:
                res[j[1]] = c.recv()
            except EOFError:
                res[j[1]] = {"name": "?%d" % j[1], "error": "worker died"}
            c.close()
            p.join()
    return [res[j[1]] for j in jobs]


def replay_file(path):
    """exit status 1 when the recorded inputs break the property on the code as it is"""
    d = json.load(open(path))
    from symx import harness
    mod = load(d["property"])
    scs = [s for s in mod.scenarios(d.get("tier", "quick")) if s.name == d["scenario"]]
    if not scs:
        print("scenario not found")
        return 3
    st, det, h = harness.run_conc(scs[0], d["values"], d["choices"], d.get("seed", 0))
    print("replay %s/%s: %s %s" % (d["property"], d["scenario"], st, det))
    return {"violated": 1, "ok": 0, "skip": 0}.get(st, 3)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--only", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    if a.replay:
        return replay_file(a.replay)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = load(a.pid)
    scs = mod.scenarios(tier)
    names = [s.name for s in scs]
    assert len(set(names)) == len(names), "duplicate scenario names"
    idx = [i for i, s in enumerate(scs) if a.only is None or a.only in s.name]
    if a.list:
        print("\n".join(names[i] for i in idx))
        return 0
    # the long ones first
    idx.sort(key=lambda i: -scs[i].budget)
    results = run_all([(a.pid, i, tier, seed) for i in idx], a.j)
    known = known_findings()
    nviol, errors, printed = 0, 0, set()
    rdir = os.path.join(HERE, "replay")
    allfn = {}
    agg = {k: 0 for k in ("paths", "obligations", "discharged", "queries", "unsat", "sat", "unknown", "samples", "aborted")}
    solver_s = 0.0
    sides = {}
    inconc = []
    per = []
    nwit = 0
    for r in results:
        if r.get("error"):
            print("ENGINE-ERROR %s: %s" % (r["name"], r["error"]))
            errors += 1
            continue
        sc = [s for s in scs if s.name == r["name"]][0]
        for k in agg:
            agg[k] += r[k]
        solver_s += r["solver_s"]
        allfn.update(r["functions"])
        for k, v in r["sides"].items():
            sides[k] = sides.get(k, 0) + v
        inconc += ["%s: %s" % (r["name"], x) for x in r["inconclusive"]]
        if r["witness"] and r["witness"].get("concrete") == "ok":
            nwit += 1
        per.append({"scenario": r["name"], "paths": r["paths"], "obligations": r["obligations"], "discharged": r["discharged"],
                    "queries": r["queries"], "solver_s": round(r["solver_s"], 2), "wall_s": round(r["wall"], 2),
                    "inputs": r["vars"], "witness": r["witness"], "bounds": r["bounds"],
                    "exhausted": r["complete"], "inconclusive": len(r["inconclusive"])})
        if a.v:
            print("%-46s paths %4d obl %5d/%5d q %4d solver %.1fs wall %.1fs wit %s cand %d inc %d" % (
                r["name"], r["paths"], r["discharged"], r["obligations"], r["queries"], r["solver_s"], r["wall"],
                r["witness"], len(r["candidates"]), len(r["inconclusive"])))
            for x in r["inconclusive"][:4]:
                print("     inc:", x[:400])
        done = False
        bad = []
        for c in r["candidates"]:
            if done or nviol >= 4:
                break
            os.makedirs(rdir, exist_ok=True)
            tag = hashlib.sha256((r["name"] + c["label"]).encode()).hexdigest()[:8]
            path = os.path.join(rdir, "%s-%s.json" % (a.pid, tag))
            json.dump({"property": a.pid, "scenario": r["name"], "label": c["label"], "values": c["values"],
                       "choices": c["choices"], "seed": c.get("seed", 0), "tier": tier}, open(path, "w"), indent=1)
            pr = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "--replay", path], capture_output=True,
                                text=True, timeout=300)
            if pr.returncode == 1:
                done = True
                msg = pr.stdout.strip().splitlines()[-1] if pr.stdout.strip() else ""
                key = sc.known
                if key and (a.pid, key) in known:
                    if key not in printed:
                        print("KNOWN-FINDING: property=%s %s" % (a.pid, known[(a.pid, key)]))
                        printed.add(key)
                else:
                    nviol += 1
                    print("counterexample %s [%s] %s" % (r["name"], c["label"], msg[:600]))
                    print("VIOLATION property=%s replay=%s" % (a.pid, path))
            else:
                bad.append((c, pr))
        if bad and not done:
            c, pr = bad[0]
            inconc.append("%s: counterexample for '%s' did not reproduce (%s)" % (r["name"], c["label"],
                                                                                  pr.stdout.strip()[-200:]))
            print("NOT-REPRODUCED %s [%s] %s %s" % (r["name"], c["label"], pr.stdout.strip()[-400:], pr.stderr.strip()[-800:]))
            if c.get("verdict") == "sat":
                errors += 1
    for x in inconc[:10]:
        print("INCONCLUSIVE " + x[:300])
    from symx.z3load import z3
    ev = {
        "property": a.pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Symbolic execution of the real functions (dynamic, path by path, re-executed from the working tree) with "
                           "every real input a solver variable; each obligation is decided by z3 for all values on the path.",
            "scenarios": len(per), "scenarios_exhausted": sum(1 for p in per if p["exhausted"]),
            "paths": agg["paths"], "paths_cut_by_assumptions": agg["aborted"],
            "obligations": agg["obligations"], "obligations_discharged": agg["discharged"],
            "solver_queries": agg["queries"], "unsat": agg["unsat"], "sat": agg["sat"], "unknown": agg["unknown"],
            "solver_s": round(solver_s, 2), "solver": "z3 " + z3.get_version_string(),
            "witnesses_replayed_on_unpatched_code": nwit, "concrete_runs": agg["samples"],
            "functions_encoded": sorted(allfn), "inconclusive": inconc[:60], "inconclusive_count": len(inconc),
            "side_conditions": sides, "per_scenario": per,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "floating point numbers are read as exact reals",
            "side conditions listed under side_conditions (non-zero denominators, non-negative radicands) hold",
            "numpy/pandas/scipy operations behave as their documented contracts",
        ],
        "violations": nviol, "wall_s": round(time.time() - t0, 2),
    }
    if a.only is None:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", a.pid + ".json"), "w"), indent=1, default=str)
    print("%s %s: %d scenarios, %d paths, %d/%d obligations, %d queries, %d inconclusive, %d violations, %.1fs" % (
        a.pid, tier, len(per), agg["paths"], agg["discharged"], agg["obligations"], agg["queries"], len(inconc), nviol,
        time.time() - t0))
    if nviol:
        return 1
    if errors:
        return 3
    return 0


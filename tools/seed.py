#!/usr/bin/env python3
"""Write and validate planted bugs.  seed.py make SPECFILE  |  seed.py test ID...  (scratch copies under /tmp)
A spec file defines SEEDS = {id: dict(prop, file, subs=[(old, new), ...], needs, breaks, demo)}"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for sid, s in ns["SEEDS"].items():
        d = os.path.join(V, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        w = "/tmp/seedmk"
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.check_call(["cp", "-a", "/repo", w])
        for f, old, new in s["subs"]:
            p = os.path.join(w, f)
            t = open(p).read()
            assert t.count(old) >= 1, (sid, old)
            if t.count(old) > 1:
                assert s.get("nth") is not None, (sid, "ambiguous", old)
                parts = t.split(old)
                k = s["nth"]
                t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            else:
                t = t.replace(old, new)
            open(p, "w").write(t)
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# run in the repository after the build\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" '
                                                    'OMP_NUM_THREADS=1\nexec %s -W ignore "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        shutil.rmtree(w)
        print("made", sid)


def test(sid, tests=True, jobs="4"):
    d = os.path.join(V, "seeded", sid)
    w = "/tmp/seedt_" + sid
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", w])
    out = {}
    out["demo-clean"] = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True).returncode
    subprocess.check_call(["git", "-C", w, "apply", d + "/patch.diff"])
    r = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
    out["demo-patched"], out["msg"] = r.returncode, (r.stdout + r.stderr)[-200:]
    prop = json.load(open(d + "/meta.json"))["property"]
    r = subprocess.run([PY, V + "/check.py", prop], cwd=w, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE="/tmp/seedt_ev", VERIF_SCRATCH="1"))
    out["check"] = r.returncode
    out["check-out"] = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "INCONCL" in l][:3] or (r.stdout + r.stderr)[-600:]
    if tests:
        base = set(json.load(open("/opt/vp/BASELINE.json"))["tests"]) if False else None
        env = dict(os.environ, PYTHONPATH="/opt/vp/plugins", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   MKL_NUM_THREADS="1", PYTHONHASHSEED="0")
        r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_pytest_plugin", "-n", jobs, "--timeout=300",
                            "--ignore=doubleml/plm/tests/test_plr_classifier.py", "doubleml"], cwd=w, capture_output=True, text=True, env=env)
        out["tests"] = [l for l in r.stdout.splitlines() if l.startswith("FAILED")][:6] + r.stdout.splitlines()[-1:]
    shutil.rmtree(w)
    print(sid, json.dumps(out, indent=1), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        for q in sys.argv[2:]:
            test(q, tests=sys.argv[1] == "test")

"""Planting tool (development only; no check uses it).

    mk(id, prop, edits, demo, needs, breaks)   write seeded/<id> from (file, old, new) edits of a scratch copy of /repo
    python3 tools/bugs.py test ID...           stable tests + demo + the property's quick check, each on a scratch copy
"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 CUDA_VISIBLE_DEVICES=
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def copy():
    d = tempfile.mkdtemp(prefix="bug.", dir="/tmp")
    subprocess.run(["cp", "-a", os.environ.get("BUG_BASE", "/repo") + "/.", d], check=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d, check=True)
    return d


def mk(id, prop, edits, demo, needs, breaks):
    d = copy()
    try:
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True, check=True).stdout
        assert diff.strip(), id
    finally:
        shutil.rmtree(d)
    o = os.path.join(SEED, id)
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, "patch.diff"), "w").write(diff)
    open(os.path.join(o, "demo.py"), "w").write(demo.strip() + "\n")
    open(os.path.join(o, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(o, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(o, "meta.json"), "w"), indent=1)


def sh(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ, **(env or {}))
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def stable(d):
    x = os.path.join(d, "junit.xml")
    sh([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=300", "-W", "ignore", "-o", "junit_family=xunit2", "--junitxml=" + x], d,
       dict(PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", CUDA_VISIBLE_DEVICES=""))
    out = os.path.join(d, "o.json")
    sh(["/usr/bin/python3", "/opt/vp/results.py", out, "junit:" + x], d)
    got = json.load(open(out))
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(got["passed"]))


def test(id, tests=True, props=None, tier="quick"):
    meta = json.load(open(os.path.join(SEED, id, "meta.json")))
    res = dict(id=id)
    demo = os.path.join(SEED, id, "demo.sh")
    d = copy()
    try:
        res["demo_clean"], o0 = sh(["bash", demo], d, timeout=300)
        rc, o = sh(["git", "apply", os.path.join(SEED, id, "patch.diff")], d)
        if rc: return dict(id=id, error=o)
        res["demo_bug"], o1 = sh(["bash", demo], d, timeout=300)
        res["demo_msg"] = o1.strip().splitlines()[-1:] if res["demo_clean"] == 0 else o0[-600:]
        if tests: res["broken_tests"] = stable(d)
        for p in props or [meta["property"]]:
            t = time.time()
            ev = tempfile.mkdtemp(prefix="bugev.", dir="/tmp")
            rc, o = sh([os.path.join(HERE, "bin/check"), p, tier], HERE, dict(VERIF_REPO=d, VERIF_EVIDENCE_DIR=ev))
            shutil.rmtree(ev)
            res[p] = (rc, round(time.time() - t), [l[:220] for l in o.splitlines() if l.startswith("  ")][:2])
    finally:
        shutil.rmtree(d)
    return res


if __name__ == "__main__":
    a = sys.argv[2:]
    tests = "--notests" not in a
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(SEED))
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda i: test(i, tests), ids):
            ok = r.get("demo_clean") == 0 and r.get("demo_bug") not in (0, 124, None) and not r.get("broken_tests")
            print("OK " if ok else "BAD", json.dumps(r), flush=True)

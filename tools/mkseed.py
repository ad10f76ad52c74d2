"""Author-side tool: plant a change in a scratch copy, confirm that it passes the tests and that its
demo tells it apart, and keep it under seeded/. Not used by any check.

spec module: SEEDS = [dict(id, prop, edits=[(file, old, new)...], needs, breaks, demo)]
usage: mkseed.py specfile [id ...] [--nocheck]
"""
import importlib.util, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = "/verif"
BASE = json.load(open("/opt/vp/BASELINE.json"))
PY = "/opt/venv/bin/python"


def stable():
    for k in ("passed", "stable", "tests", "stable_pass"):
        if k in BASE:
            v = BASE[k]
            return set(v if isinstance(v, list) else [t for t, s in v.items() if s in ("passed", "pass", True)])


def run(spec, check=True):
    i = spec["id"]
    sc = f"/tmp/seed_{i}"
    shutil.rmtree(sc, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", sc])
    try:
        for f, o, n in spec["edits"]:
            p = f"{sc}/{f}"
            s = open(p).read()
            if s.count(o) != 1:
                return i, f"BAD EDIT count={s.count(o)} {o!r}"
            open(p, "w").write(s.replace(o, n))
        diff = subprocess.check_output(["git", "-C", sc, "diff"], text=True)
        for f, o, n in spec["edits"]:
            orig = subprocess.check_output(["git", "-C", "/repo", "show", f"a14c71b:{f}"], text=True).splitlines()
            minus = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            bad = [m for m in minus if m not in orig and f in diff]
            if bad and len(spec["edits"]) == 1:
                print(i, "WARNING lines not original:", bad)
        env = dict(os.environ, PYTHONPATH=sc, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", LANG="C.UTF-8")
        d = f"/tmp/seedd_{i}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(f"{d}/demo.py", "w").write(spec["demo"])
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(f"{d}/demo.sh", 0o755)
        clean = subprocess.run(["bash", f"{d}/demo.sh"], cwd="/repo", env=env, capture_output=True, text=True)
        bad = subprocess.run(["bash", f"{d}/demo.sh"], cwd=sc, env=env, capture_output=True, text=True)
        if clean.returncode != 0:
            return i, "DEMO FAILS ON CLEAN\n" + clean.stderr[-1500:]
        if bad.returncode == 0:
            return i, "DEMO PASSES ON BUG"
        if "AssertionError" not in bad.stderr:
            print(i, "demo note:", bad.stderr[-300:])
        t = subprocess.run([PY, "-m", "pytest", "skada", "-q", "-n", "4", "-p", "no:cacheprovider", "--color=no", "--timeout=300",
                            *["--ignore=skada/datasets/tests/test_%s.py" % x for x in ("amazon_review", "mnist_usps", "office", "office_home")],
                            "-o", "junit_family=xunit2", f"--junitxml={d}/j.xml"], cwd=sc, env=env, capture_output=True, text=True)
        out = subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", f"{d}/o.json", f"junit:{d}/j.xml"], capture_output=True, text=True)
        o = json.load(open(f"{d}/o.json"))
        for k in ("passed", "stable", "tests", "stable_pass"):
            if k in o:
                v = o[k]
                po = set(v if isinstance(v, list) else [t for t, s in v.items() if s in ("passed", "pass", True)])
                break
        miss = sorted(stable() - po)
        if miss:
            return i, f"TESTS FAIL: {miss[:5]}"
        dst = f"{VERIF}/seeded/{i}"
        os.makedirs(dst, exist_ok=True)
        open(f"{dst}/patch.diff", "w").write(diff)
        for n in ("demo.py", "demo.sh"):
            shutil.copy(f"{d}/{n}", f"{dst}/{n}")
        json.dump(dict(property=spec["prop"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(f"{dst}/meta.json", "w"), indent=1)
        msg = "kept"
        if check:
            c = subprocess.run(["bash", f"{VERIF}/check.sh", spec["prop"]], env=dict(os.environ, VERIF_REPO=sc, VERIF_SEED="1", VERIF_TIER="quick"),
                               capture_output=True, text=True)
            v = [l for l in c.stdout.splitlines() if "VIOLATION" in l]
            tail = c.stdout.strip().splitlines()[-3:] if not v else []
            msg += f"; check exit {c.returncode} {v[:2]} {tail} {c.stderr[-300:] if c.returncode not in (0, 1) else ''}"
        return i, msg
    finally:
        shutil.rmtree(sc, ignore_errors=True)
        shutil.rmtree(f"/tmp/seedd_{i}", ignore_errors=True)


if __name__ == "__main__":
    sp = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    want = [a for a in sys.argv[2:] if not a.startswith("--")]
    todo = [s for s in m.SEEDS if not want or s["id"] in want]
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda s: run(s, "--nocheck" not in sys.argv), todo):
            print(*r, flush=True)

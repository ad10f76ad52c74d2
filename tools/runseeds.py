"""Run the check of each seeded change against a scratch copy of /repo with the change.

usage: runseeds.py [ids]   (author-side; no check uses it)
"""
import glob, json, os, shutil, subprocess, sys

FIRST = {"c18-lists-kept", "c05-st-request-of-source", "c03-names-by-count", "c13-tars-missing-class", "c22-snd-drop-masked", "c08-reused-map-first-row", "c09-kliep-gamma-kept", "c25-inplace-sample-idx", "c27-kmeans-fast-best", "c28-features-training-mode", "c28-cdan-random-bound", "c14-ls-nearest-l1", "c24-rng-kept", "c06-perdomain-unmasked", "c31-object-samples", "c28-coral-centered-lost", "c13-kliep-first-centers", "c04-frequency-wraps", "c15-tsl-divergence-sign"}  # missed by the checks as they were then
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
for d in sorted(glob.glob(f"{V}/seeded/*/")):
    i = os.path.basename(d.rstrip("/"))
    if want and not any(i.startswith(w) for w in want):
        continue
    prop = json.load(open(d + "meta.json"))["property"]
    sc = f"/tmp/rs_{os.getpid()}"
    shutil.rmtree(sc, ignore_errors=True)
    os.makedirs(sc)
    shutil.copytree("/repo/skada", f"{sc}/skada")
    try:
        r = subprocess.run(["git", "apply", "--unsafe-paths", f"--directory={sc}", d + "patch.diff"], cwd="/", capture_output=True, text=True)
        if r.returncode:
            print(i, "PATCH DOES NOT APPLY", r.stderr[-300:], flush=True)
            continue
        c = subprocess.run(["bash", f"{V}/check.sh", prop], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=sc, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick", VERIF_NOSHRINK="1"))
        v = [l for l in c.stdout.splitlines() if "VIOLATION" in l or l.startswith("facet")]
        f = f"{V}/tools/caught.json"
        known = json.load(open(f)) if os.path.exists(f) else {}
        known[i] = dict(property=prop, result=("caught" + (", after strengthening" if i in FIRST else "")) if c.returncode == 1 else "not caught")
        json.dump({k: v for k, v in sorted(known.items()) if os.path.exists(f"{V}/seeded/{k}")}, open(f, "w"), indent=1)
        print(i, prop, "exit", c.returncode, v[:2] or c.stdout.strip().splitlines()[-1:], flush=True)
    finally:
        shutil.rmtree(sc, ignore_errors=True)

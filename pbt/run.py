"""python -m pbt.run <property> [--replay FILE] [--facet NAME] [--n N]"""

import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

from . import core
from .registry import MODULES

KNOWN_FILE = os.path.join(core.VERIF, "known_findings.jsonl")


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get("property") == prop and d.get("status") == "known":
                out[d["id"]] = d["what"]
    return out


def _work(args):
    prop, i, tier, seed, shard, known = args
    return core.run_facet(core.FACETS[prop][i], tier, seed, shard, known)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--n", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    importlib.import_module("pbt.props." + MODULES[a.prop])
    facets = core.FACETS[a.prop]
    known = known_findings(a.prop)

    if a.replay:
        rep = json.load(open(a.replay))
        f = next(f for f in facets if f.name == rep["facet"])
        ctx, msg = core.run_case(f, rep["case"], known)
        print("labels:", ctx.labels)
        if msg is None:
            print("the case passes")
            return 0
        print(msg)
        print(f"VIOLATION property={a.prop} replay={os.path.abspath(a.replay)}")
        return 1

    tasks = []
    for i, f in enumerate(facets):
        if a.facet and f.name != a.facet:
            continue
        if a.n:
            f.quick = f.thorough = a.n
        shards = f.shards if tier == "quick" else max(f.shards, 4)
        for s in range(shards):
            tasks.append((a.prop, i, tier, seed, s, known))
    # longest first
    tasks.sort(key=lambda t: -facets[t[1]].quick / facets[t[1]].shards)
    results = []
    if a.jobs == 1:
        for t in tasks:
            t1 = time.time()
            results.append(_work(t))
            print(f"# {results[-1]['facet']}: {time.time()-t1:.1f}s", file=sys.stderr)
    else:
        ctx = mp.get_context("fork")
        with cf.ProcessPoolExecutor(a.jobs, mp_context=ctx) as ex:
            results = list(ex.map(_work, tasks))

    per = {}
    hard, distinct, evals = set(), set(), 0
    samples, failures, errors, hits = [], [], [], {}
    for r in results:
        p = per.setdefault(r["facet"], dict(evaluations=0, nontrivial=0, labels={}))
        p["evaluations"] += r["evals"]
        p["cpu_s"] = round(p.get("cpu_s", 0) + r["cpu"], 2)
        p["slowest_case_s"] = round(max(p.get("slowest_case_s", 0), r["slowest"]), 2)
        new = {(r["facet"], h) for h in r["hard"]}
        p["nontrivial"] += len(new - hard)
        for k, v in r["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + v
        hard |= new
        distinct |= {(r["facet"], h) for h in r["distinct"]}
        evals += r["evals"]
        if not any(s["facet"] == r["facet"] for s in samples):
            samples.extend(r["samples"][:1])
        if r["failure"]:
            failures.append((r["facet"], r["failure"]))
        if r["error"]:
            errors.append((r["facet"], r["error"]))
        for k, m in r["known"]:
            hits.setdefault(k, m)

    rule = "; ".join(
        f"{f.name}: {f.rule}" for f in facets if f.name in per
    )
    ev = dict(
        property=a.prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=evals,
            distinct_cases=len(distinct),
            distinct_nontrivial=len(hard),
            rule="Cases are drawn by Hypothesis generators, one per facet; "
            "non-trivial means - " + rule,
            samples=samples[:12],
            facets=per,
            known_findings_seen=hits,
        ),
        assumptions=[
            "generated inputs stay in each facet's documented domain",
            "numpy/scipy/scikit-learn/POT/torch as installed are trusted",
        ],
        wall_s=round(time.time() - t0, 2),
        violations=len(failures),
    )
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", a.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=core._jsonable)

    for k, m in sorted(hits.items()):
        print(f"KNOWN-FINDING: property={a.prop} {k}: {known[k]}")
    for name, p in per.items():
        print(
            f"  {a.prop}/{name}: {p['evaluations']} cases, {p['nontrivial']} non-trivial"
        )
    print(f"{a.prop}: {evals} cases, {len(hard)} non-trivial, {ev['wall_s']} s")
    if failures:
        os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
        seen = set()
        for name, f in failures:
            if name in seen:
                continue
            seen.add(name)
            path = os.path.join(core.VERIF, "replays", f"{a.prop}-{name}.json")
            with open(path, "w") as fh:
                json.dump(
                    dict(property=a.prop, facet=name, **f),
                    fh,
                    indent=1,
                    default=core._jsonable,
                )
            print(f"facet {name}: {f['message']}")
            print(f"  case: {core.canon(f['case'])[:1500]}")
            print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    if errors:
        for name, e in errors:
            print(f"ERROR in facet {name}: {e}", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)

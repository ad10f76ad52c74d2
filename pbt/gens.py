"""Shared generators. Every random choice comes from Hypothesis; numeric arrays
are a pure function of a drawn seed, so a case is a small JSON value."""

import numpy as np
from hypothesis import strategies as st

SEED = st.integers(0, 2**20)
BOOL = st.booleans()


def ints(lo, hi):
    return st.integers(lo, hi)


def pick(*xs):
    return st.sampled_from(xs)


def grid_floats(lo=-40, hi=40, den=8):
    """floats exactly representable, with ties likely"""
    return st.integers(lo, hi).map(lambda k: k / den)


def perm(draw, n):
    """A permutation of range(n), as a list."""
    return draw(st.permutations(range(n)))


def rng(seed, *salt):
    return np.random.RandomState(
        (seed * 1000003 + sum((i + 1) * (int(s) + 7919) for i, s in enumerate(salt)))
        % (2**31 - 1)
    )


# ---------------------------------------------------------------- DA problems


def gen_problem(
    draw,
    max_sources=2,
    max_targets=2,
    min_n=8,
    max_n=20,
    d=(2, 4),
    classes=(2, 3),
    task="classif",
    shuffle=True,
    common_idx=False,
    label_sets=None,
):
    """Structure of a domain-adaptation problem with labels in y.

    Conventions of the library: source labels > 0, target labels < 0.
    """
    ns = draw(ints(1, max_sources))
    nt = draw(ints(1, max_targets))
    pool = draw(st.permutations([1, 2, 3, 4, 5, 6, 7]))
    src = pool[:ns]
    tgt = [-k for k in (pool[:nt] if common_idx else pool[ns : ns + nt])]
    k = draw(ints(*classes)) if task == "classif" else 0
    lo = max(min_n, 3 * k)
    sizes = [draw(ints(lo, max(max_n, lo))) for _ in range(ns + nt)]
    case = dict(
        seed=draw(SEED),
        d=draw(ints(*d)),
        k=k,
        task=task,
        domains=[[int(l), int(n)] for l, n in zip(list(src) + tgt, sizes)],
        order=draw(pick("stacked", "shuffled", "target_first")) if shuffle else "stacked",
    )
    if label_sets:
        case["labels"] = draw(st.sampled_from(label_sets))
    return case


def make_problem(case):
    """X, y, sample_domain of a generated problem; y holds the true labels of
    every row, target rows included."""
    r = rng(case["seed"], 1)
    d, k = case["d"], case["k"]
    X, y, sd = [], [], []
    means = r.normal(size=(max(k, 1), d)) * 2.0
    w = r.normal(size=d)
    for label, n in case["domains"]:
        shift = r.normal(size=d) * (0.3 if label > 0 else 0.8)
        A = np.eye(d) + 0.25 * r.normal(size=(d, d))
        if k:
            yy = np.arange(n) % k
            Z = means[yy] + r.normal(size=(n, d))
        else:
            Z = r.normal(size=(n, d)) * 1.5
            yy = Z @ w + 0.1 * r.normal(size=n)
        X.append(Z @ A + shift)
        y.append(yy)
        sd.append(np.full(n, label))
    X, y, sd = np.concatenate(X), np.concatenate(y), np.concatenate(sd)
    if case.get("labels"):
        y = np.asarray(case["labels"])[y]
    n = len(X)
    if case["order"] == "stacked":
        p = np.arange(n)
    elif case["order"] == "target_first":
        p = np.argsort(sd >= 0, kind="stable")
    else:
        p = r.permutation(n)
    return X[p], y[p], sd[p].astype(int)


def mask_y(y, sd, task="classif"):
    y = np.array(y, dtype=float if task != "classif" else None)
    if task == "classif":
        y[sd < 0] = -1
    else:
        y[sd < 0] = np.nan
    return y


def describe_problem(case, ctx):
    labels = [l for l, _ in case["domains"]]
    ns = sum(l > 0 for l in labels)
    nt = len(labels) - ns
    ctx.label(f"sources={ns}", f"targets={nt}", f"order={case['order']}")
    return ns, nt

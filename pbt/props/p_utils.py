"""C01 domain validation, C02 split / merge."""

import numpy as np
from hypothesis import strategies as st

from skada.utils import (
    check_X_domain,
    check_X_y_domain,
    extract_domains_indices,
    extract_source_indices,
    per_domain_split,
    source_target_merge,
    source_target_split,
)

from ..core import facet
from ..gens import BOOL, SEED, grid_floats, ints, pick, rng

LABEL = ints(-4, 4)
FLAGS = [
    "allow_source",
    "allow_multi_source",
    "allow_target",
    "allow_multi_target",
    "allow_common_domain_idx",
]


def _labels(draw, lo=1, hi=10):
    side = draw(pick(LABEL, LABEL, ints(0, 4), ints(-4, -1)))
    pool = draw(st.lists(side, min_size=1, max_size=5, unique=True))
    return draw(st.lists(st.sampled_from(pool), min_size=lo, max_size=hi))


def _rejected(labels, flags):
    """The documented meaning of each flag."""
    s = {l for l in labels if l >= 0}
    t = {l for l in labels if l < 0}
    out = []
    if not flags["allow_source"] and s:
        out.append("allow_source")
    if not flags["allow_target"] and t:
        out.append("allow_target")
    if not flags["allow_multi_source"] and len(s) > 1:
        out.append("allow_multi_source")
    if not flags["allow_multi_target"] and len(t) > 1:
        out.append("allow_multi_target")
    if not flags["allow_common_domain_idx"] and any(-l in s for l in t):
        out.append("allow_common_domain_idx")
    return out


# -------------------------------------------------------------- C01


def gen_flags(draw):
    form = draw(pick("array", "array", "list", "scalar", "float", "int32"))
    labels = _labels(draw)
    if form == "scalar":
        labels = [labels[0]] * len(labels)
    which = draw(pick("X_y", "X"))
    flags = {f: draw(st.integers(0, 3)) != 0 for f in FLAGS}
    case = dict(
        labels=labels, form=form, flags=flags, which=which, d=draw(ints(1, 3)),
        seed=draw(SEED), ytype=draw(pick("int", "float", "nan")), wrong=draw(
            pick(0, 0, 0, 0, 1, -1)
        ),
        nd=draw(pick(False, False, True)), masks=draw(pick(True, True, False)),
    )
    if which == "X":
        case["allow_domains"] = draw(
            st.none()
            | pick(["inf"], ["-inf"], ["inf", "-inf"], ["inf", -1], ["-inf", 0])
            | st.lists(
                pick(*range(-4, 5), "inf", "-inf"), min_size=0, max_size=5, unique=True
            )
        )
    return case


def _X(case):
    r = rng(case["seed"], 3)
    n = len(case["labels"])
    shape = (n, case["d"], 2) if case.get("nd") else (n, case["d"])
    return np.round(r.normal(size=shape) * 4) / 4


def _y(case):
    r = rng(case["seed"], 4)
    n = len(case["labels"])
    if case["ytype"] == "int":
        return r.randint(-1, 3, size=n)
    y = r.normal(size=n)
    if case["ytype"] == "nan":
        y[r.rand(n) < 0.4] = np.nan
    return y


def _form(labels, form):
    if form == "scalar":
        return labels[0]
    if form == "list":
        return list(labels)
    return np.array(labels, dtype={"float": float, "int32": np.int32}.get(form, int))


@facet(
    "C01", "flags", gen_flags, 500, shards=2,
    rule="flags: at least two domains and at least one flag switched off or an "
    "allow_domains set given",
)
def flags(case, ctx):
    X = _X(case)
    labels = list(case["labels"])
    if case["wrong"] and case["form"] != "scalar":
        if case["wrong"] > 0:
            labels = labels + [labels[0]]
        elif len(labels) > 1:
            labels = labels[:-1]
    wrong = len(labels) != len(X)
    sd = _form(labels, case["form"])
    kw = dict(case["flags"])
    kw["allow_nd"] = case["nd"]
    bad = _rejected(labels, case["flags"])
    ctx.label(*[f"rejects:{b}" for b in bad], "form=" + case["form"])
    ctx.hard(
        len(set(labels)) > 1
        and (not all(case["flags"].values()) or bool(case.get("allow_domains")))
    )
    X0 = X.copy()
    if case["which"] == "X_y":
        y = _y(case)
        if not case["masks"]:
            kw["allow_label_masks"] = False
            if np.isnan(y).any():
                bad = bad + ["allow_label_masks"]
                ctx.label("rejects:allow_label_masks")

        def call():
            return check_X_y_domain(X, y, sd, **kw)
    else:
        ad = case["allow_domains"]
        if ad is not None:
            inf = {"inf": np.inf, "-inf": -np.inf}
            ad = {inf.get(a, a) for a in ad}
            unknown = [
                l
                for l in labels
                if l not in ad and (np.inf if l >= 0 else -np.inf) not in ad
            ]
            if unknown:
                bad = bad + ["allow_domains"]
                ctx.label("rejects:allow_domains")

        def call():
            return check_X_domain(X, sd, allow_domains=ad, **kw)

    if wrong or bad:
        ctx.label("length mismatch" if wrong else "rejected")
        ctx.raises(ValueError, call, f"must reject ({'length' if wrong else bad})")
        return
    ctx.label("accepted")
    out = call()
    ctx.same(out[0], X0, "X returned by validation")
    ctx.same(np.asarray(out[-1]), np.array(labels), "sample_domain returned")
    if case["which"] == "X_y":
        ctx.same(out[1], _y(case), "y returned by validation")


def gen_auto(draw):
    kind = draw(pick("class", "reg", "none"))
    n = draw(ints(1, 9))
    mask = draw(st.lists(BOOL, min_size=n, max_size=n))
    if kind == "class":
        vals = draw(st.lists(ints(0, 3), min_size=n, max_size=n))
        if draw(pick(False, False, False, True)):
            vals[draw(ints(0, n - 1))] = -2
    else:
        vals = draw(st.lists(grid_floats(), min_size=n, max_size=n))
        vals = [v + 0.0625 for v in vals]
    flags = {f: draw(st.integers(0, 4)) != 0 for f in FLAGS}
    return dict(
        kind=kind, vals=vals, mask=mask, allow=draw(pick(True, True, False)),
        flags=flags, asfloat=draw(BOOL),
    )


@facet(
    "C01", "auto_domain", gen_auto, 300,
    rule="auto_domain: some rows masked and some not",
)
def auto_domain(case, ctx):
    n = len(case["vals"])
    X = np.arange(n, dtype=float)[:, None]
    mask = np.array(case["mask"])
    ctx.hard(mask.any() and not mask.all())
    ctx.label(case["kind"])
    kw = dict(case["flags"])
    if case["kind"] == "none":
        labels = [-1] * n

        def call():
            return (*check_X_domain(
                X, None, allow_auto_sample_domain=case["allow"], **kw),)

        bad = _rejected(labels, kw) or not case["allow"]
    else:
        if case["kind"] == "class":
            y = np.array(case["vals"], dtype=float if case["asfloat"] else int)
            y[mask] = -1
            invalid = bool((y < -1).any()) or not mask.any()
        else:
            y = np.array(case["vals"], dtype=float)
            y[mask] = np.nan
            invalid = not mask.any()
        labels = [-2 if m else 1 for m in mask]
        bad = _rejected(labels, kw) or invalid or not case["allow"]

        def call():
            return check_X_y_domain(
                X, y, None, allow_auto_sample_domain=case["allow"], **kw
            )

    if bad:
        ctx.label("rejected")
        ctx.raises(ValueError, call, f"must reject {bad}")
        return
    out = call()
    ctx.same(out[-1], np.array(labels), "automatic sample_domain")
    ctx.same(out[0], X, "X")


def gen_labels(draw):
    return dict(labels=_labels(draw, 1, 14), form=draw(pick("array", "list", "float")))


@facet(
    "C01", "indices", gen_labels, 300,
    rule="indices: sources and targets both present, more than two domains",
)
def indices(case, ctx):
    labels = case["labels"]
    sd = _form(labels, case["form"])
    n = len(labels)
    ctx.hard(len(set(labels)) > 2 and min(labels) < 0 <= max(labels))
    src = np.asarray(extract_source_indices(sd))
    ctx.same(src, np.array([l >= 0 for l in labels]), "extract_source_indices")
    idx = extract_domains_indices(sd)
    ctx.expect(set(idx) == set(labels), f"domain keys {set(idx)} vs {set(labels)}")
    for l, rows in idx.items():
        want = [i for i in range(n) if labels[i] == l]
        ctx.same(rows, np.array(want), f"rows of domain {l}")
    s, t = extract_domains_indices(sd, split_source_target=True)
    ctx.expect(set(s) == {l for l in labels if l >= 0}, "source keys")
    ctx.expect(set(t) == {l for l in labels if l < 0}, "target keys")
    for part in (s, t):
        for l, rows in part.items():
            ctx.same(rows, idx[l], f"rows of domain {l} (split)")


# -------------------------------------------------------------- C02


def gen_split(draw):
    n_arr = draw(ints(1, 4))
    kinds = [draw(pick("X", "X3", "y", "yf", "str", "none")) for _ in range(n_arr)]
    if all(k == "none" for k in kinds):
        kinds[0] = "y"
    return dict(labels=_labels(draw, 2, 12), kinds=kinds, seed=draw(SEED))


def _arr(kind, n, seed, i=0):
    r = rng(seed, 11, i)
    if kind == "X":
        return r.normal(size=(n, 1 + (seed + i) % 3))
    if kind == "X3":
        return r.normal(size=(n, 2, 2)).astype(np.float32)
    if kind == "y":
        return r.randint(0, 4, size=n)
    if kind == "yf":
        return r.normal(size=n)
    if kind == "str":
        return np.array([f"row{j}" * (1 + j % 3) for j in range(n)])
    return None


@facet(
    "C02", "split", gen_split, 400,
    rule="split: at least one source and one target row, two or more arrays",
)
def split(case, ctx):
    labels = np.array(case["labels"])
    n = len(labels)
    arrs = [_arr(k, n, case["seed"], i) for i, k in enumerate(case["kinds"])]
    src = labels >= 0
    ctx.hard(src.any() and (~src).any() and len(arrs) > 1)
    out = source_target_split(*arrs, sample_domain=labels)
    ctx.expect(len(out) == 2 * len(arrs), "number of outputs")
    for i, a in enumerate(arrs):
        if a is None:
            ctx.expect(out[2 * i] is None and out[2 * i + 1] is None, "None pair")
        else:
            ctx.same(out[2 * i], a[src], f"source part of array {i}")
            ctx.same(out[2 * i + 1], a[~src], f"target part of array {i}")
    s, t = per_domain_split(*arrs, sample_domain=labels)
    ctx.expect(set(s) == set(labels[src]), "source domains of per_domain_split")
    ctx.expect(set(t) == set(labels[~src]), "target domains of per_domain_split")
    for part in (s, t):
        for l, arrays in part.items():
            ctx.expect(len(arrays) == len(arrs), "arrays per domain")
            for a, b in zip(arrs, arrays):
                if a is None:
                    ctx.expect(b is None, "None stays None")
                else:
                    ctx.same(b, a[labels == l], f"rows of domain {l}")
    # split then merge gives the arrays back, row by row
    pairs, want = [], []
    for a in arrs:
        if a is not None and a.dtype.kind != "U":
            pairs += [a[src], a[~src]]
            want.append(a)
    if want and src.any() and (~src).any():
        ctx.label("round trip")
        out = source_target_merge(*pairs, sample_domain=labels)
        ctx.expect(len(out) == len(want) + 1, "number of merged outputs")
        for a, b in zip(want, out):
            ctx.same(b, a, "merge of the split")
            ctx.expect(b.dtype == a.dtype, f"dtype {b.dtype} != {a.dtype}")
        ctx.same(out[-1], labels, "sample_domain of the merge")


def gen_merge(draw):
    labels = _labels(draw, 2, 12)
    return dict(
        labels=labels, seed=draw(SEED),
        sdt=draw(pick("int", "float")), tdt=draw(pick("int", "float")),
        d=draw(ints(0, 3)),
        infer=draw(BOOL),
        y=draw(pick("given", "no_target", "no_source", "none_pair")),
        ykind=draw(pick("class", "reg")), ydt=draw(pick("int64", "int64", "int32", "uint8", "bool", "float32")),
        empty=draw(pick("none", "zero")),
        more=[
            [draw(pick("class", "reg")), draw(pick("given", "no_target", "no_source"))]
            for _ in range(draw(ints(0, 2)))
        ],
        bad=draw(pick("", "", "", "odd", "features", "count")),
    )


@facet(
    "C02", "merge", gen_merge, 500,
    rule="merge: source and target both present and interleaved, or dtypes differ, "
    "or a part is inferred",
)
def merge(case, ctx):
    labels = np.array(case["labels"])
    src = labels >= 0
    ns, nt = int(src.sum()), int((~src).sum())
    if ns == 0 or nt == 0:
        ctx.label("one-sided")
        r = rng(case["seed"], 6)
        X = r.normal(size=(len(labels), max(case["d"], 1)))
        y = r.randint(0, 3, len(labels)) if case["ykind"] == "class" else r.normal(size=len(labels))
        empty = y[:0] if case["empty"] == "zero" else None
        part = [X[src], X[~src], y if ns else empty, y if nt else empty]
        out = source_target_merge(*part, sample_domain=labels)
        for what, a, b in zip(("X", "y", "sample_domain"), (X, y, labels), out):
            ctx.same(b, a, f"{what} of a merge whose other side has no row")
            ctx.expect(b.dtype == a.dtype, f"type of {what}: {b.dtype}")
        return
    r = rng(case["seed"], 5)

    def part(n, dt):
        shape = (n,) if case["d"] == 0 else (n, case["d"])
        v = r.normal(size=shape) * 5 + 0.25
        return np.round(v).astype(int) if dt == "int" else v

    Xs, Xt = part(ns, case["sdt"]), part(nt, case["tdt"])
    ys = r.randint(0, 3, ns) if case["ykind"] == "class" else r.normal(size=ns)
    yt = r.randint(0, 3, nt) if case["ykind"] == "class" else r.normal(size=nt)
    if case["ykind"] == "class":
        if case["ydt"] == "bool":
            ys, yt = ys % 2, yt % 2
        ys, yt = ys.astype(case["ydt"]), yt.astype(case["ydt"])
    elif case["ydt"] == "float32":
        ys, yt = ys.astype("float32"), yt.astype("float32")
    mask = -1 if case["ykind"] == "class" else np.nan
    sd = None if case["infer"] else labels
    order_src = np.flatnonzero(src)
    order_tgt = np.flatnonzero(~src)
    if case["infer"]:
        order_src, order_tgt = np.arange(ns), ns + np.arange(nt)
        want_sd = np.concatenate([np.full(ns, 1), np.full(nt, -2)])
    else:
        want_sd = labels
    ctx.hard(
        case["sdt"] != case["tdt"] or case["y"] != "given"
        or bool((np.diff(src.astype(int)) != 0).sum() > 1)
    )
    ctx.label(case["y"], case["bad"] or "valid", "infer" if case["infer"] else "given")
    none = None if case["empty"] == "none" else np.array([])

    if case["bad"] == "odd":
        ctx.raises(
            ValueError,
            lambda: source_target_merge(Xs, Xt, ys, sample_domain=sd), "odd arrays",
        )
        return
    if case["bad"] == "features" and case["d"] > 0:
        Xb = np.hstack([Xt, Xt[:, :1]])
        ctx.raises(
            ValueError, lambda: source_target_merge(Xs, Xb, sample_domain=sd),
            "inconsistent number of features",
        )
        return
    if case["bad"] == "count" and not case["infer"]:
        Xb = np.concatenate([Xt, Xt[:1]])
        ctx.raises(
            ValueError, lambda: source_target_merge(Xs, Xb, sample_domain=sd),
            "inconsistent number of samples",
        )
        return
    if case["y"] == "none_pair":
        ctx.raises(
            ValueError,
            lambda: source_target_merge(Xs, Xt, none, none, sample_domain=sd),
            "an empty pair",
        )
        return
    a_s, a_t, want_s, want_t = ys, yt, ys, yt
    if case["y"] == "no_target":
        a_t, want_t = none, np.full(nt, mask)
    elif case["y"] == "no_source":
        a_s, want_s = none, np.full(ns, mask)
    extra, extra_want = [], []
    for kind, given in case["more"]:
        e = [r.randint(0, 3, m) if kind == "class" else r.normal(size=m)
             for m in (ns, nt)]
        w = list(e)
        for side, name in ((1, "no_target"), (0, "no_source")):
            if given == name:
                e[side] = none
                w[side] = np.full((ns, nt)[side], -1 if kind == "class" else np.nan)
        extra += e
        extra_want.append(w)
    Xm, ym, *ms, sdm = source_target_merge(
        Xs, Xt, a_s, a_t, *extra, sample_domain=sd)
    ctx.expect(len(ms) == len(extra_want), "number of merged arrays")
    for i, (m, (w_s, w_t)) in enumerate(zip(ms, extra_want)):
        ctx.same(m[order_src], w_s, f"source rows of further array {i}")
        ctx.same(m[order_tgt], w_t, f"target rows of further array {i}")
    ctx.same(sdm, want_sd, "sample_domain")
    n = ns + nt
    ctx.expect(Xm.shape == (n,) + Xs.shape[1:], f"shape {Xm.shape}")
    ctx.same(Xm[order_src], Xs, "source rows of X")
    ctx.same(Xm[order_tgt], Xt, "target rows of X")
    ctx.expect(ym.shape == (n,), f"shape {ym.shape}")
    ctx.same(ym[order_src], want_s, "source rows of y")
    ctx.same(ym[order_tgt], want_t, "target rows of y")

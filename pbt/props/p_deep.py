"""C25 DeepDADataset histories, C26 samplers and loaders."""

import numpy as np
import torch
from hypothesis import strategies as st
from pandas import DataFrame
from skada.deep.base import (
    DeepDADataset,
    DomainBalancedDataLoader,
    DomainBalancedSampler,
    DomainOnlyDataLoader,
    DomainOnlySampler,
)

from ..core import facet
from ..gens import BOOL, SEED, ints, pick, rng

# ------------------------------------------------------------------- C25

FORMS = ("numpy", "torch", "list", "dict", "dict-torch", "frame", "dataset", "tuple", "one-dim")


def gen_block(draw, small=False):
    n = draw(ints(1, 5 if small else 9))
    return dict(
        n=n + (0 if small else 3),
        dom=draw(st.lists(pick(0, 1, 2, -1, -2, -5), min_size=1 if small else 2, max_size=4, unique=True)),
        form=draw(pick(*FORMS)),
        nd=draw(pick(1, 1, 1, 2)),
        y=draw(pick("int", "float", "partial", "none", "empty")),
        w=draw(pick("no", "no", "no", "yes", "yes", "zeros")),
        sd=draw(pick("array", "array", "list", "torch", "int", "none")),
        seed=draw(SEED),
    )


def gen_ops(draw):
    ops = []
    for _ in range(draw(ints(2, 7))):
        op = draw(pick("merge", "merge_in", "add", "src", "tgt", "dom", "lab", "selX", "sely", "seld", "selw", "split", "addw", "rmw", "rebuild", "index", "dict"))
        o = dict(op=op)
        if op in ("merge", "merge_in", "add"):
            o["block"] = gen_block(draw, small=True)
            o["keep"] = draw(BOOL)
        if op in ("dom", "selX", "sely", "seld", "selw", "addw", "index"):
            o["v"] = draw(ints(-5, 5))
        if op == "addw":
            o["w"] = draw(pick("ramp", "ramp", "zeros", "ones", "sparse"))
        if op in ("src", "tgt", "dom", "lab", "selX", "sely", "seld"):
            o["rw"] = draw(BOOL)
        ops.append(o)
    return ops


def gen_dataset(draw):
    return dict(first=gen_block(draw), nd=draw(pick(1, 1, 2)), ops=gen_ops(draw))


class Model:
    """Aligned rows, as plain arrays."""

    def __init__(self, X, y, d, w):
        self.X, self.y, self.d, self.w = X, y, d, w

    def take(self, idx, rw=True):
        return Model(self.X[idx], self.y[idx], self.d[idx], self.w[idx] if self.w is not None and rw else None)

    def idx(self):
        out, seen = [], {}
        for v in self.d:
            out.append(seen.get(v, 0))
            seen[v] = out[-1] + 1
        return np.array(out, dtype=int)


def make_block(b, nd, counter, force_w=None):
    r = rng(b["seed"], 8)
    n = b["n"]
    shape = (n, 2) if nd == 1 else (n, 2, 3)
    X = (np.arange(n * int(np.prod(shape[1:]))).reshape(shape) / 8 + 100 * counter).astype("float32")
    if b["form"] == "frame" and nd == 2:
        form = "dict"
    else:
        form = b["form"] if b["form"] != "one-dim" else "numpy"
    doms = np.array(b["dom"])[r.randint(len(b["dom"]), size=n)]
    if b["sd"] == "int":
        doms[:] = b["dom"][0]
        sd = int(b["dom"][0])
    elif b["sd"] == "none":
        doms[:] = 0
        sd = None
    else:
        sd = {"array": doms.copy(), "list": doms.tolist(), "torch": torch.tensor(doms)}[b["sd"]]
    y = r.randint(0, 3, size=n)
    if b["y"] == "partial":
        y = np.where(r.rand(n) < 0.5, -1, y)
    if b["y"] == "float":
        y = y + 0.5
    if b["y"] in ("none", "empty"):
        ym = np.full(n, -1)
        yin = None if b["y"] == "none" else []
    else:
        ym, yin = y, y.copy()
    has_w = (b["w"] != "no") if force_w is None else force_w
    w = np.round(r.rand(n) + 0.1, 3) * (b["w"] != "zeros") if has_w else None
    model = Model(X.astype(float), ym.astype(float), doms.astype(int), w)
    if form in ("numpy", "tuple"):
        args = (X.copy(), yin, sd, None if w is None else w.copy())
        built = args if form == "tuple" else DeepDADataset(*args)
    elif form == "torch":
        built = DeepDADataset(torch.tensor(X), None if yin is None else torch.tensor(np.asarray(yin)), sd, None if w is None else torch.tensor(w))
    elif form == "list":
        built = DeepDADataset(X.tolist(), None if yin is None else list(yin), sd, None if w is None else w.tolist())
    elif form in ("dict", "dict-torch", "dataset", "frame"):
        conv = torch.tensor if form == "dict-torch" else (lambda v: v)
        d = dict(X=conv(X) if form != "frame" else X.tolist())
        if yin is not None and len(yin):
            d["y"] = conv(np.asarray(yin))
        if sd is not None and not isinstance(sd, int):
            d["sample_domain"] = sd
        if isinstance(sd, int):
            d["sample_domain"] = np.full(n, sd)
        if w is not None:
            d["sample_weight"] = conv(w)
        if form == "frame":
            built = DeepDADataset(DataFrame({k: list(np.asarray(v)) if k != "X" else v for k, v in d.items()}))
        else:
            built = DeepDADataset(d) if form != "dataset" else DeepDADataset(DeepDADataset(d))
    return built, model


def compare(ctx, ds, m, what):
    ctx.expect(len(ds) == len(m.X), f"{what}: length {len(ds)} instead of {len(m.X)}")
    ctx.expect(ds.is_empty() == (len(m.X) == 0), f"{what}: is_empty")
    if not len(m.X):
        ctx.expect(ds.domains() == (), f"{what}: domains of an empty dataset")
        return
    num = lambda t: np.asarray(t, dtype=float)
    ctx.same(num(ds.X), m.X, f"{what}: X")
    ctx.same(num(ds.y), m.y, f"{what}: y")
    ctx.same(num(ds.sample_domain), m.d.astype(float), f"{what}: sample_domain")
    ctx.expect(ds.has_weights == (m.w is not None), f"{what}: has_weights {ds.has_weights}")
    if m.w is not None:
        ctx.close(ds.sample_weight, m.w, f"{what}: sample_weight", rtol=1e-6)
    ctx.expect(ds.domains() == tuple(sorted(set(m.d.tolist()))), f"{what}: domains {ds.domains()}")
    ctx.same(np.asarray(ds.has_y), m.y != -1, f"{what}: has_y")
    d = ds.as_dict()
    ctx.same(num(d["X"]), m.X, f"{what}: as_dict X")
    ctx.same(num(d["sample_idx"]), m.idx().astype(float), f"{what}: sample_idx")
    ctx.expect(("sample_weight" in d) == (m.w is not None), f"{what}: as_dict weights")
    ctx.expect("sample_idx" not in ds.as_dict(sample_indices=False), f"{what}: as_dict without indices")
    ctx.expect(len(ds.as_arrays()) == (3 if m.w is None else 4) and len(ds.as_arrays(return_weights=False)) == 3, f"{what}: as_arrays")
    for got, exp in zip(ds.as_arrays(), (m.X, m.y, m.d, m.w)):
        ctx.close(got, exp, f"{what}: as_arrays", rtol=1e-6)
    i = len(m.X) // 2
    item, lab = ds[i]
    ctx.same(num(item["X"]), m.X[i], f"{what}: item X")
    ctx.expect(float(lab) == m.y[i] and int(item["sample_domain"]) == m.d[i] and int(item["sample_idx"]) == m.idx()[i], f"{what}: item {i}")
    ctx.expect(("sample_weight" in item) == (m.w is not None), f"{what}: item weight")
    if m.w is not None:
        ctx.close(item["sample_weight"], m.w[i], f"{what}: item weight", rtol=1e-6)


@facet("C25", "histories", gen_dataset, 250, shards=4, rule="histories: at least two domains and at least two operations")
def dataset_histories(case, ctx):
    nd = case["nd"]
    ds, m = make_block(case["first"], nd, 0)
    if isinstance(ds, tuple):
        ds = DeepDADataset(*ds)
    ctx.label("form=" + case["first"]["form"], *["op=" + o["op"] for o in case["ops"]])
    compare(ctx, ds, m, "construction")
    for k, o in enumerate(case["ops"]):
        op = o["op"]
        if not len(m.X):
            ds, m = full
        full = ds, m
        what = f"operation {k} ({op})"
        old, oldm = ds, m
        if op in ("merge", "merge_in", "add"):
            keep = o.get("keep") and op != "add"
            other, om = make_block(o["block"], nd, k + 1, force_w=(m.w is not None) if keep else None)
            if op == "add":
                ds = ds.add_domain(other)
            else:
                if isinstance(other, tuple):
                    other = DeepDADataset(*other)
                if op == "merge":
                    ds = ds.merge(other, keep_weights=keep)
                else:
                    ctx.expect(ds.merge(other, keep_weights=keep, out=False) is None, f"{what}: in place returns None")
                compare(ctx, other, om, f"{what}: the merged dataset")
            cat = lambda a, b: np.concatenate([a, b])
            m = Model(cat(m.X, om.X), cat(m.y, om.y), cat(m.d, om.d), cat(m.w, om.w) if keep and m.w is not None else None)
        elif op == "src":
            ds, m = ds.select_source(o["rw"]), m.take(m.d >= 0, o["rw"])
        elif op == "tgt":
            ds, m = ds.select_target(o["rw"]), m.take(m.d < 0, o["rw"])
        elif op == "dom":
            ds, m = ds.select_domain(o["v"], o["rw"]), m.take(m.d == o["v"], o["rw"])
        elif op == "lab":
            ds, m = ds.select_with_labels(o["rw"]), m.take(m.y != -1, o["rw"])
        elif op == "selX":
            c = float(np.median(m.X)) + o["v"] / 4
            f = lambda X: X.reshape(len(X), -1)[:, 0] <= c
            ds, m = ds.select(f, "X", o["rw"]), m.take(f(m.X), o["rw"])
        elif op == "sely":
            f = lambda y: y <= o["v"]
            ds, m = ds.select(f, "y", o["rw"]), m.take((m.y != -1) & f(m.y), o["rw"])
        elif op == "seld":
            f = lambda d: d >= o["v"]
            ds, m = ds.select(f, "sample_domain", o["rw"]), m.take(f(m.d), o["rw"])
        elif op == "selw":
            f = lambda w: w >= 0.6 + o["v"] / 10
            if m.w is None:
                ctx.raises(ValueError, lambda: ds.select(f, "sample_weight"), f"{what} without weights")
            else:
                # the dataset may hold the weights as float32
                near = np.abs(m.w - (0.6 + o["v"] / 10)) < 1e-5
                if near.any():
                    continue
                ds, m = ds.select(f, "sample_weight"), m.take(f(m.w))
            ctx.raises(ValueError, lambda: old.select(lambda v: v == v, "domain"), f"{what}: unknown field")
        elif op == "split":
            parts = ds.per_domain_split()
            ctx.expect(sorted(parts) == sorted(set(m.d.tolist())), f"{what}: domains {sorted(parts)}")
            for dom, part in parts.items():
                compare(ctx, part, m.take(m.d == dom), f"{what}: part {dom}")
        elif op == "addw":
            i = np.arange(len(m.X))
            w = {"ramp": (i + 1) / 8.0, "zeros": 0.0 * i, "ones": 0.0 * i + 1, "sparse": 1.0 * (i == 0)}[o.get("w", "ramp")]
            w = w if o["v"] % 2 else list(w)
            ctx.expect(ds.add_weights(w) is ds, f"{what}: returns the dataset")
            m = Model(m.X, m.y, m.d, np.asarray(w))
            if len(w) > 1:
                ctx.raises(AssertionError, lambda: DeepDADataset(ds).add_weights(np.asarray(w)[:-1]), f"{what}: too few weights")
        elif op == "rmw":
            ctx.expect(ds.remove_weights() is ds, f"{what}: returns the dataset")
            m = Model(m.X, m.y, m.d, None)
        elif op == "rebuild":
            ds = DeepDADataset(ds) if k % 2 else DeepDADataset(ds.as_dict())
        elif op == "index":
            idx = np.array([abs(o["v"]) % len(m.X), 0])
            for sel in (slice(1, None, 2), torch.tensor(idx)):
                item, lab = ds[sel]
                i = np.arange(len(m.X))[sel] if isinstance(sel, slice) else idx
                ctx.same(np.asarray(item["X"], dtype=float), m.X[i], f"{what}: X")
                ctx.same(np.asarray(lab, dtype=float), m.y[i], f"{what}: y")
                ctx.same(np.asarray(item["sample_idx"]), m.idx()[i], f"{what}: sample_idx")
        elif op == "dict":
            a = ds.as_arrays()
            ds = DeepDADataset(*a)
        compare(ctx, ds, m, what)
        if ds is not old and op not in ("merge_in",):
            compare(ctx, old, oldm, f"{what}: the dataset it was applied to")
    ctx.hard(len(set(make_block(case["first"], nd, 0)[1].d.tolist())) > 1 and len(case["ops"]) > 1)


def gen_refuse(draw):
    return dict(kind=draw(pick("y", "sd", "w", "type", "nokey", "merge", "2d")), n=draw(ints(2, 8)), cut=draw(ints(1, 3)), more=draw(BOOL))


@facet("C25", "refusals", gen_refuse, 60, rule="refusals: always")
def refusals(case, ctx):
    """Arguments of another length and other types are refused."""
    n, k = case["n"], case["kind"]
    m = n + case["cut"] if case["more"] else max(1, n - case["cut"])
    X, y, sd, w = np.ones((n, 2)), np.arange(n), np.arange(n), np.ones(n)
    if k == "y":
        ctx.raises(AssertionError, lambda: DeepDADataset(X, np.zeros(m), sd), "labels of another length")
    elif k == "sd":
        ctx.raises(AssertionError, lambda: DeepDADataset(X, y, np.ones(m, int)), "domains of another length")
    elif k == "w":
        ctx.raises(AssertionError, lambda: DeepDADataset(X, y, sd, np.ones(m)), "weights of another length")
    elif k == "type":
        ctx.raises(TypeError, lambda: DeepDADataset("abc"), "a string")
    elif k == "nokey":
        ctx.raises(ValueError, lambda: DeepDADataset(dict(x=X, y=y)), "a dict without X")
    elif k == "merge":
        ctx.raises(TypeError, lambda: DeepDADataset(X, y, sd).merge(dict(X=X)), "merging a dict")
    elif k == "2d":
        ctx.raises(AssertionError, lambda: DeepDADataset(X, np.zeros((n, 2)), sd), "two-dimensional labels")
    ctx.label(k)
    ctx.hard()


# ------------------------------------------------------------------- C26


def gen_sampler(draw):
    ns, nt = draw(ints(1, 14)), draw(ints(1, 14))
    return dict(
        ns=ns, nt=nt, bs=draw(ints(1, 6)),
        max_samples=draw(pick("max", "min", "source", "target")),
        zero=draw(BOOL), seed=draw(SEED), domains=draw(ints(1, 3)),
        weights=draw(BOOL), used=draw(pick("source", "target")),
    )


def make_samples(case):
    r = rng(case["seed"], 5)
    n = case["ns"] + case["nt"]
    sd = np.concatenate([
        r.randint(0 if case["zero"] else 1, 1 + case["domains"], size=case["ns"]) if case["zero"] else 1 + r.randint(case["domains"], size=case["ns"]),
        -1 - r.randint(case["domains"], size=case["nt"]),
    ])
    sd = sd[r.permutation(n)]
    X = np.stack([np.arange(n), r.normal(size=n)], axis=1).astype("float32")
    y = np.where(sd >= 0, np.arange(n) % 3, -1)
    w = (np.arange(n) / 16).astype("float32") if case["weights"] else None
    return X, y, sd, w, DeepDADataset(X, y, sd, w)


def rounded(n, bs):
    return (n // bs) * bs


def check_batches(ctx, case, loader, X, y, sd, w, per_batch, total, what):
    rows = []
    for xb, yb in loader:
        i = np.asarray(xb["X"][:, 0]).astype(int)
        ctx.expect(len(i) == per_batch, f"{what}: a batch of {len(i)} rows instead of {per_batch}")
        ctx.same(np.asarray(xb["X"]), X[i], f"{what}: X")
        ctx.same(np.asarray(xb["sample_domain"]), sd[i], f"{what}: sample_domain of each row")
        ctx.same(np.asarray(yb), y[i], f"{what}: labels of each row")
        if w is not None:
            ctx.close(xb["sample_weight"], w[i], f"{what}: weight of each row")
        rows.append(i)
    ctx.expect(sum(map(len, rows)) == total, f"{what}: {sum(map(len, rows))} rows instead of {total}")
    ctx.expect(len(loader) == len(rows), f"{what}: announces {len(loader)} batches and gives {len(rows)}")
    return rows


def cycles(ctx, seq, n, what):
    """Each run of n draws uses every row once."""
    for a in range(0, len(seq), n):
        part = seq[a : a + n]
        ctx.expect(len(set(part)) == len(part), f"{what}: a row is used twice before the others were used")


@facet("C26", "balanced", gen_sampler, 250, shards=2, rule="balanced: the sampler yields rows and the domains have different sizes")
def balanced(case, ctx):
    X, y, sd, w, ds = make_samples(case)
    bs = case["bs"]
    s, t = np.flatnonzero(sd >= 0), np.flatnonzero(sd < 0)
    a, b = rounded(len(s), bs), rounded(len(t), bs)
    num = dict(max=max(a, b), min=min(a, b), source=a, target=b)[case["max_samples"]]
    ctx.label("max_samples=" + case["max_samples"])
    sampler = DomainBalancedSampler(ds, bs, max_samples=case["max_samples"])
    ctx.expect(len(sampler) == 2 * num, f"length {len(sampler)} instead of {2 * num}")
    torch.manual_seed(case["seed"])
    seen, orders = set(), set()
    epochs = 40 if num else 1
    for _ in range(epochs):
        seq = list(sampler)
        ctx.expect(len(seq) == 2 * num, f"{len(seq)} indices instead of {2 * num}")
        src, tgt = seq[0::2], seq[1::2]
        ctx.expect(set(src) <= set(s.tolist()) and set(tgt) <= set(t.tolist()), "indices do not alternate between source and target")
        cycles(ctx, src, len(s), "source")
        cycles(ctx, tgt, len(t), "target")
        seen |= set(seq)
        orders.add(tuple(seq))
    if num:
        if num * 2 >= len(s) and num * 2 >= len(t):
            ctx.expect(len(seen) == len(sd), f"rows {sorted(set(range(len(sd))) - seen)} are never used in {epochs} epochs")
        if max(len(s), len(t)) > 4 and num > 2:
            ctx.expect(len(orders) > 5, "epochs are not shuffled")
    loader = DomainBalancedDataLoader(ds, batch_size=bs, max_samples=case["max_samples"])
    rows = check_batches(ctx, case, loader, X, y, sd, w, 2 * bs, 2 * num, "balanced loader")
    for i in rows:
        ctx.expect((sd[i] >= 0).sum() == bs, f"a batch has {(sd[i] >= 0).sum()} source rows instead of {bs}")
    ctx.hard(num > 0 and len(s) != len(t))


@facet("C26", "only", gen_sampler, 200, rule="only: the sampler yields rows and drops some")
def only(case, ctx):
    X, y, sd, w, ds = make_samples(case)
    bs, used = case["bs"], case["used"]
    keep = np.flatnonzero(sd >= 0 if used == "source" else sd < 0)
    num = rounded(len(keep), bs)
    sampler = DomainOnlySampler(ds, bs, domain_used=used)
    ctx.expect(len(sampler) == num, f"length {len(sampler)} instead of {num}")
    torch.manual_seed(case["seed"])
    seen, orders = set(), set()
    for _ in range(40 if num else 1):
        seq = list(sampler)
        ctx.expect(len(seq) == num and len(set(seq)) == num, "rows repeated or missing in an epoch")
        ctx.expect(set(seq) <= set(keep.tolist()), f"rows of the other side with domain_used={used}")
        seen |= set(seq)
        orders.add(tuple(seq))
    if num:
        if num * 2 >= len(keep):
            ctx.expect(seen == set(keep.tolist()), "some rows are never used")
        if len(keep) > 4 and num > 2:
            ctx.expect(len(orders) > 5, "epochs are not shuffled")
    loader = DomainOnlyDataLoader(ds, batch_size=bs, domain_used=used)
    rows = check_batches(ctx, case, loader, X, y, sd, w, bs, num, f"{used} loader")
    for i in rows:
        ctx.expect(set(i) <= set(keep.tolist()), "rows of the other side")
    ctx.raises(ValueError, lambda: DomainOnlySampler(ds, bs, domain_used="both"), "unknown domain_used")
    ctx.hard(0 < num < len(keep))

"""C03 DomainAwareDataset histories, C04 shifted data generators."""

import numpy as np
import torch
from hypothesis import strategies as st

from skada.datasets import (
    DomainAwareDataset,
    make_dataset_from_moons_distribution,
    make_shifted_blobs,
    make_shifted_datasets,
    make_variable_frequency_dataset,
    select_domain,
)
from skada.deep.base import DeepDADataset

from ..core import facet
from ..gens import BOOL, SEED, ints, pick, rng

NAMES = ["a", "bb", "s1", "_1", "_2", "_3", "t"]
DTYPES = {
    "i8": np.int64, "i4": np.int32, "i2": np.int16, "u1": np.uint8,
    "f8": np.float64, "f4": np.float32,
}


def _domain(draw):
    return dict(
        n=draw(pick(0, 1, 1, 2, 2, 3, 3, 4, 4)), labeled=draw(pick(True, True, True, False)), seed=draw(SEED)
    )


def gen_history(draw):
    kind = draw(pick("i8", "i8", "f8", "i4", "f4", "i2", "u1"))
    tensor = draw(pick(False, False, False, True))
    ops = []
    for _ in range(draw(ints(1, 7))):
        op = draw(pick("add", "add", "add", "merge", "pack", "pack", "lodo"))
        if op == "add":
            ops.append(["add", draw(st.sampled_from(NAMES) | st.none()), _domain(draw)])
        elif op == "merge":
            k = draw(ints(1, 3))
            doms = [
                [draw(st.sampled_from(NAMES) | st.none()), _domain(draw)]
                for _ in range(k)
            ]
            mapping = draw(
                st.none() | st.dictionaries(
                    st.sampled_from(NAMES), pick("m1", "m2", "a"), max_size=3)
            )
            ops.append(["merge", doms, mapping])
        elif op == "pack":
            ops.append([
                "pack", draw(st.lists(ints(0, 20), max_size=3)),
                draw(st.lists(ints(0, 20), max_size=3)), draw(BOOL),
                draw(pick("auto", "array", "Bunch", "tensor", "DeepDADataset")),
                draw(pick(None, None, None, -10, 0, 3, -1)),
                draw(pick(None, None, None, None, True, False)),
            ])
        else:
            ops.append([
                "lodo", draw(pick("auto", "array", "Bunch", "tensor")),
                draw(pick(None, None, True, False)),
            ])
    if not any(o[0] == "pack" for o in ops):
        ops.append(["pack", [0, 1], [1], True, "auto", None, None])
    return dict(
        kind=kind, tensor=tensor, d=draw(ints(1, 3)), ops=ops,
        init=draw(pick("none", "list", "dict", "tuples")),
        init_domains=[
            [draw(st.sampled_from(["p", "qq", "_2", "rrr"])), _domain(draw)]
            for _ in range(draw(ints(0, 3)))
        ],
    )


def _data(dom, case):
    r = rng(dom["seed"], 21)
    X = r.normal(size=(dom["n"], case["d"]))
    if case["kind"].startswith("f"):
        y = r.normal(size=dom["n"]).astype(DTYPES[case["kind"]])
    else:
        y = r.randint(0, 5, size=dom["n"]).astype(DTYPES[case["kind"]])
    if not dom["labeled"]:
        y = None
    if case["tensor"]:
        X = torch.from_numpy(X)
        y = None if y is None else torch.from_numpy(y)
    return X, y


class Model:
    """Ordered list of (name, X, y); ids are 1-based insertion positions."""

    def __init__(self):
        self.items = []

    def names(self):
        return [i[0] for i in self.items]

    def add(self, name, X, y):
        self.items.append((name, X, y))

    def get(self, name):
        i = self.names().index(name)
        return i + 1, self.items[i][1], self.items[i][2]


def _np(a):
    return a.detach().numpy() if isinstance(a, torch.Tensor) else np.asarray(a)


def _expected(model, src, tgt, mask, custom, kind):
    Xs, ys, sd, labels = [], [], [], {}
    for sign, names in ((1, src), (-1, tgt)):
        for nm in names:
            i, X, y = model.get(nm)
            X = _np(X)
            yy = np.full(len(X), -1.0) if y is None else _np(y).astype(float)
            if sign < 0 and mask:
                m = custom
                if m is None:
                    m = np.nan if kind.startswith("f") else -1
                yy = np.full(len(X), float(m))
            Xs.append(X)
            ys.append(yy)
            sd.append(np.full(len(X), sign * i))
            labels[nm] = sign * i
    return np.concatenate(Xs), np.concatenate(ys), np.concatenate(sd), labels


def _check_pack(ctx, out, rtype, want, tensor_data, what):
    Xw, yw, sdw, labels = want
    if rtype == "auto":
        rtype = "tensor" if tensor_data else "array"
    if rtype == "Bunch":
        X, y, sd = out.X, out.y, out.sample_domain
        ctx.expect(dict(out.domain_names) == labels, f"{what}: domain_names")
    elif rtype == "DeepDADataset":
        ctx.expect(isinstance(out, DeepDADataset), f"{what}: type")
        X, y, sd = out.X, out.y, out.sample_domain
    else:
        ctx.expect(isinstance(out, tuple) and len(out) == 3, f"{what}: tuple")
        X, y, sd = out
        t = torch.Tensor if rtype == "tensor" else np.ndarray
        ctx.expect(all(isinstance(o, t) for o in out), f"{what}: element types")
    ctx.same(_np(X), Xw, f"{what}: X")
    ctx.same(_np(y), yw, f"{what}: y")
    ctx.same(_np(sd).astype(int), sdw, f"{what}: sample_domain")
    return rtype


@facet(
    "C03", "history", gen_history, 400, shards=4,
    rule="history: a pack of several domains with masked targets or after a merge",
)
def history(case, ctx):
    model = Model()
    init = []
    seen = set()
    for nm, dom in case["init_domains"]:
        if nm in seen:
            continue
        seen.add(nm)
        init.append((nm, *_data(dom, case)))
    if case["init"] == "none":
        ds = DomainAwareDataset()
        init = []
    elif case["init"] == "dict":
        ds = DomainAwareDataset(
            {nm: (X,) if y is None else (X, y) for nm, X, y in init}
        )
    elif case["init"] == "list":
        ds = DomainAwareDataset([(X, y, nm) for nm, X, y in init])
    else:
        ds = DomainAwareDataset([(X,) if y is None else (X, y) for _, X, y in init])
        init = [(None, X, y) for _, X, y in init]
        for (nm, X, y), real in zip(init, list(ds.domain_names_)):
            model.add(real, X, y)
        ctx.expect(len(ds.domain_names_) == len(init), "one name per domain")
        init = []
    for nm, X, y in init:
        model.add(nm, X, y)
    packs = merged = 0
    for op in case["ops"]:
        if op[0] == "add":
            _, nm, dom = op
            X, y = _data(dom, case)
            if nm is not None and nm in model.names():
                ctx.label("duplicate name rejected")
                ctx.raises((AssertionError, ValueError),
                           lambda: ds.add_domain(X, y, nm), "duplicate name")
            else:
                got = ds.add_domain(X, y, nm)
                ctx.expect(got is ds, "add_domain returns the dataset")
                if nm is None:
                    new = [k for k in ds.domain_names_ if k not in model.names()]
                    ctx.expect(
                        len(new) == 1,
                        f"an unnamed domain got no name of its own: {ds.domain_names_}",
                    )
                    nm = new[0]
                    ctx.label("autogenerated name")
                model.add(nm, X, y)
        elif op[0] == "merge":
            _, doms, mapping = op
            other, om, names = DomainAwareDataset(), [], set()
            for nm, dom in doms:
                if nm in names:
                    continue
                X, y = _data(dom, case)
                other.add_domain(X, y, nm)
                real = list(other.domain_names_)[-1]
                names.add(real)
                om.append((real, X, y))
            final = [(mapping or {}).get(nm, nm) for nm, _, _ in om]
            if len(set(final)) < len(final) or set(final) & set(model.names()):
                ctx.label("merge with a clash skipped")
                continue
            got = ds.merge(other, names_mapping=mapping)
            ctx.expect(got is ds, "merge returns the dataset")
            for nm, (_, X, y) in zip(final, om):
                model.add(nm, X, y)
            ctx.expect(len(other.domain_names_) == len(om), "merged dataset unchanged")
            merged += 1
            ctx.label("merge")
        elif op[0] == "pack" and model.items:
            _, si, ti, mask, rtype, custom, old = op
            names = model.names()
            src = list(dict.fromkeys(names[i % len(names)] for i in si))
            tgt = list(dict.fromkeys(names[i % len(names)] for i in ti))
            if not src and not tgt:
                continue
            kw = {}
            if old is not None:
                kw["return_X_y"] = old
                rtype = "array" if old else "Bunch"
                if custom is None:
                    kw["train"] = mask
            else:
                kw["return_type"] = rtype
            if custom is not None and case["kind"].startswith("f"):
                custom = float(custom)
            unl = any(model.get(nm)[2] is None for nm in src + tgt)
            if unl and (case["kind"].startswith("f") and mask):
                # unlabeled and float targets together have no single mask
                ctx.label("unlabeled float skipped")
                continue
            out = ds.pack(
                as_sources=src, as_targets=tgt,
                mask_target_labels=(not mask) if "train" in kw else mask,
                mask=custom, **kw,
            )
            want = _expected(model, src, tgt, mask, custom, case["kind"])
            rt = _check_pack(ctx, out, rtype, want, case["tensor"], "pack")
            packs += 1
            ctx.label("return=" + rt, "masked" if mask else "unmasked",
                      "tensor data" if case["tensor"] else "numpy data")
            if mask and tgt and len(src + tgt) > 1:
                ctx.hard()
            if merged and len(src + tgt) > 1:
                ctx.hard()
            if rt in ("array", "Bunch"):
                lab = want[3]
                pick_ = [nm for nm in (src + tgt) if nm in lab][:2]
                got = select_domain(lab, want[2], pick_)
                ctx.same(
                    np.asarray(got), np.isin(want[2], [lab[p] for p in pick_]),
                    "select_domain",
                )
                only_src = [nm for nm in src if nm not in tgt]
                if only_src:
                    got = ds.select_domain(want[2], only_src[0])
                    ctx.same(
                        np.asarray(got), want[2] == model.get(only_src[0])[0],
                        "DomainAwareDataset.select_domain",
                    )
        elif op[0] == "lodo" and model.items:
            _, rtype, old = op
            if case["kind"].startswith("f") and any(i[2] is None for i in model.items):
                continue
            kw = dict(return_type=rtype)
            if old is not None:
                kw = dict(return_X_y=old)
                rtype = "array" if old else "Bunch"
            out = ds.pack_lodo(**kw)
            want = _expected(
                model, model.names(), model.names(), True, None, case["kind"]
            )
            _check_pack(ctx, out, rtype, want, case["tensor"], "pack_lodo")
            ctx.label("lodo")
        # invariant: every domain added so far is still there, unchanged
        ctx.expect(
            list(ds.domain_names_) == model.names(),
            f"names {list(ds.domain_names_)} expected {model.names()}",
        )
        for nm, X, y in model.items:
            got = ds.get_domain(nm)
            ctx.expect(len(got) == (1 if y is None else 2), f"get_domain({nm})")
            ctx.expect(got[0] is X or np.array_equal(_np(got[0]), _np(X)), "X kept")
            if y is not None:
                ctx.same(_np(got[1]), _np(y), f"y of {nm}")
    text = repr(ds)
    ctx.expect(f"Number of domains: {len(model.items)}" in text, "repr: domains")
    ctx.expect(
        f"Total size: {sum(len(i[1]) for i in model.items)}" in text, "repr: total size"
    )


def gen_text(draw):
    return dict(seed=draw(SEED), kind=draw(pick("str", "object", "bytes", "bool", "str")), sizes=[draw(ints(1, 5)) for _ in range(draw(ints(2, 4)))],
                ns=draw(ints(0, 2)), out=draw(pick("array", "Bunch")), mask=draw(pick(None, None, None, -5)), how=draw(pick("flag", "train", "pack_train")))


@facet("C03", "text_labels", gen_text, 150, shards=1, rule="text_labels: labels that are names, with targets")
def text_labels(case, ctx):
    """Labels that are names come back as they are, and are never given away when they are to be masked."""
    r = rng(case["seed"], 26)
    ds, parts = DomainAwareDataset(), []
    names = np.array(["bike", "mug", "a pen"])
    for i, n in enumerate(case["sizes"]):
        X, y = r.normal(size=(n, 2)), names[r.randint(3, size=n)]
        y = {"object": y.astype(object), "bytes": y.astype("S"), "bool": y == "mug"}.get(case["kind"], y)
        ds.add_domain(X, y, f"d{i}")
        parts.append((X, y))
    k = min(case["ns"], len(parts) - 1)
    src, tgt = [f"d{i}" for i in range(k)], [f"d{i}" for i in range(k, len(parts))]

    def pack(masked, **kw):
        out = ds.pack(src, tgt, masked, return_type=case["out"], **kw)
        return out if case["out"] == "array" else (out.X, out.y, out.sample_domain)

    X, y, sd = pack(False)
    ctx.same(X, np.concatenate([p[0] for p in parts]), "rows")
    ctx.same(y, np.concatenate([p[1] for p in parts]), "labels")
    ctx.hard(case["kind"] != "bool")
    try:
        if case["how"] == "pack_train":
            y = ds.pack_train(src, tgt, mask=case["mask"])[1]
        elif case["how"] == "train":
            y = pack(False, train=True, mask=case["mask"])[1]
        else:
            y = pack(True, mask=case["mask"])[1]
    except (ValueError, TypeError):
        ctx.expect(case["kind"] != "bool", "truth values can be masked")
        ctx.label("refused")
        return
    m = -1 if case["mask"] is None else case["mask"]
    t = sd < 0
    ctx.expect(all(v in (m, str(m), str(m).encode()) for v in y[t].tolist()), f"target labels {y[t].tolist()} after masking")
    ctx.expect([str(v) for v in y[~t].tolist()] == [str(v) for p in parts[:k] for v in p[1].tolist()] or case["kind"] == "bool", "source labels after masking")


# ------------------------------------------------------------------- C04


def gen_blobs(draw):
    d = draw(ints(1, 4))
    return dict(
        fn="blobs", n=draw(ints(3, 40)), d=d, seed=draw(SEED),
        shift=draw(pick(0.0, 0.1, -2.5, "vector")), centers=draw(pick(None, 2, 4, "array")),
        noise=draw(pick(None, None, 0.5, "pair")), std=draw(pick(0.1, 1.0, "list")),
        how=draw(pick("tuple", "bunch", "dataset", "state")),
    )


@facet(
    "C04", "blobs", gen_blobs, 250,
    rule="blobs: non-zero shift with several features or noise",
)
def blobs(case, ctx):
    n, d = case["n"], case["d"]
    shift = case["shift"]
    if shift == "vector":
        shift = np.arange(1, d + 1) * 0.75
    noise = [0.3, 0.0] if case["noise"] == "pair" else case["noise"]
    centers, k = case["centers"], case["centers"] or 3
    if centers == "array":
        k = 4
        centers = 20.0 * np.stack([np.arange(k)] * d, axis=1) - 7
    std = [0.05 * (i + 1) for i in range(k)] if case["std"] == "list" else case["std"]
    if case["std"] == "list" and centers is None:
        centers = k
    kw = dict(
        n_samples=n, n_features=d, shift=shift, noise=noise, centers=centers,
        cluster_std=std, random_state=case["seed"],
    )
    ctx.hard((d > 1 and np.any(np.asarray(shift) != 0)) or noise is not None)
    X, y, sd = _outputs(make_shifted_blobs, kw, case["how"], ctx)
    _two_domains(ctx, X, y, sd, n, n, d)
    s, t = sd > 0, sd < 0
    ctx.same(y[s], y[t], "labels carried over by the translation")
    ctx.expect(set(y[s]) <= set(range(k)), "labels name the centers")
    ctx.expect(np.ptp(np.bincount(y[s], minlength=k)) <= 1, "balanced clusters")
    if isinstance(centers, np.ndarray) and noise is None:
        far = np.abs(X[s] - centers[y[s]]) / np.broadcast_to(std, k)[y[s], None]
        ctx.expect(far.max() < 9, f"a row is {far.max():.1f} deviations from its center")
    if noise is None:
        ctx.close(X[t], X[s] + shift, "target is the shifted source", rtol=1e-12)
    elif case["noise"] == "pair":
        clean = make_shifted_blobs(**{**kw, "noise": None})
        ctx.close(X[t], clean[0][clean[2] < 0], "no noise on the target", rtol=1e-12)
        ctx.expect(not np.allclose(X[s], clean[0][clean[2] > 0]), "noise on the source")


def _outputs(fn, kw, how, ctx):
    """The three output forms agree, and a second call gives the same data."""
    X, y, sd = fn(return_X_y=True, **kw)
    X2, y2, sd2 = fn(return_X_y=True, **kw)
    ctx.same(X, X2, "same seed, same X")
    ctx.same(y, y2, "same seed, same y")
    ctx.same(sd, sd2, "same seed, same sample_domain")
    if how == "state":
        # a generator object is as good as a seed, and is used up by the call
        def state():
            return np.random.RandomState(kw["random_state"])

        g = state()
        one, two, other = fn(**{**kw, "random_state": g}), fn(**{**kw, "random_state": state()}), fn(**{**kw, "random_state": g})
        for a, b, ref, what in zip(one, two, (X, y, sd), ("X", "y", "sample_domain")):
            ctx.same(a, b, f"same state, same {what}")
            ctx.expect(np.shape(a) == np.shape(ref), f"{what} of shape {np.shape(a)} with a generator")
        ctx.expect(not np.array_equal(one[0], other[0]), "a second call with the same generator gives other rows")
    if how == "bunch":
        b = fn(return_X_y=False, **kw)
        ctx.same(b.X, X, "bunch X")
        ctx.same(b.y, y, "bunch y")
        ctx.same(b.sample_domain, sd, "bunch sample_domain")
        ctx.expect(set(b.domain_names.values()) == set(np.unique(sd)), "domain names")
    elif how == "dataset":
        ds = fn(return_dataset=True, **kw)
        ctx.expect(isinstance(ds, DomainAwareDataset), "dataset type")
        names = {abs(v): k for k, v in ds.domain_names_.items()}
        for l in np.unique(sd):
            Xd, yd = ds.get_domain(names[abs(l)])
            ctx.same(Xd, X[sd == l], "dataset X")
            ctx.same(yd, y[sd == l], "dataset y")
    return np.asarray(X), np.asarray(y), np.asarray(sd)


def _two_domains(ctx, X, y, sd, ns, nt, d):
    ctx.expect(X.shape == (ns + nt, d), f"X shape {X.shape}, want {(ns + nt, d)}")
    ctx.expect(y.shape == (ns + nt,) and sd.shape == (ns + nt,), "y / domain shape")
    ctx.expect(np.isfinite(X).all(), "finite X")
    ctx.expect((sd > 0).sum() == ns, f"{(sd > 0).sum()} source rows, want {ns}")
    ctx.expect((sd < 0).sum() == nt, f"{(sd < 0).sum()} target rows, want {nt}")


def gen_shifted(draw):
    return dict(
        ns=draw(ints(1, 12)), nt=draw(ints(1, 12)),
        shift=draw(pick("covariate_shift", "target_shift", "conditional_shift",
                        "subspace", "bogus")),
        label=draw(pick("binary", "multiclass", "regression", "bogus")),
        noise=draw(pick(None, None, 0.2, "pair")),
        ratio=draw(pick(0.0, 0.1, 0.5, 0.9, 1.0, 0.33)),
        mean=draw(pick(0, 1, -2.5)), sigma=draw(pick(0.7, 1.0, 2.0)),
        gamma=draw(pick(2, 0.5, 8)), std=draw(pick(False, False, True)),
        center=draw(pick(None, [0, 2], [2, 2], [1, 0], [-1, 3])),
        mu=draw(pick(None, 0, 1)), scale=draw(pick(27, 1, 4.5)),
        seed=draw(SEED), how=draw(pick("tuple", "bunch", "dataset", "state")),
    )


@facet(
    "C04", "shifted", gen_shifted, 120, shards=2,
    rule="shifted: a valid shift / label pair with different source and target sizes",
)
def shifted(case, ctx):
    ns, nt = case["ns"], case["nt"]
    noise = [0.0, 0.3] if case["noise"] == "pair" else case["noise"]
    kw = dict(
        n_samples_source=ns, n_samples_target=nt, shift=case["shift"], noise=noise,
        label=case["label"], ratio=case["ratio"], mean=case["mean"],
        sigma=case["sigma"], gamma=case["gamma"], random_state=case["seed"],
        standardize=case["std"],
    )
    if case["center"] is not None:
        kw["center_cov_shift"] = tuple(case["center"])
    if case["label"] == "regression":
        kw["regression_scaling_constant"] = case["scale"]
        if case["mu"] is not None and case["shift"] == "subspace":
            mu, cov = 0.5 * case["mu"], 1.0 + case["mu"]
            kw.update(mu_regression=mu, sigma_regression=cov)
        elif case["mu"] is not None:
            mu, cov = np.array([case["mu"], -0.5]), np.array([[1.5, 0.3], [0.3, 1.0 + case["mu"]]])
            kw.update(mu_regression=mu, sigma_regression=cov)
        else:
            mu, cov = (0.0, 1.0) if case["shift"] == "subspace" else (np.zeros(2), np.eye(2))
    ctx.label(case["shift"], case["label"])
    if "bogus" in (case["shift"], case["label"]):
        ctx.raises(ValueError, lambda: make_shifted_datasets(**kw), "bogus option")
        return
    ctx.hard(ns != nt)
    X, y, sd = _outputs(make_shifted_datasets, kw, case["how"], ctx)
    s, t = sd > 0, sd < 0
    per = 4 if case["shift"] == "subspace" else 8
    _two_domains(ctx, X, y, sd, per * ns, per * nt, 2)
    ctx.expect(len(np.unique(X[t], axis=0)) == per * nt, "target rows are drawn without replacement")
    if case["label"] == "binary":
        ctx.expect(set(np.unique(y)) <= {0, 1}, f"binary labels {np.unique(y)}")
        ctx.expect((y[s] == 0).sum() == (y[s] == 1).sum(), "balanced source")
    elif case["label"] == "multiclass":
        ctx.expect(set(np.unique(y)) <= {0, 1, 2, 3, 4}, "five classes")
        ctx.expect(y.dtype.kind == "i", "integer classes")
        if case["shift"] != "subspace":
            ctx.same(
                np.bincount(y[s], minlength=5), np.array([4 * ns] + [ns] * 4),
                "source class sizes",
            )
    else:
        ctx.expect((y >= 0).all(), "regression values are scaled densities")
    if case["shift"] == "target_shift" and case["label"] != "regression":
        want = int(8 * nt * case["ratio"])
        ctx.expect((y[t] == 0).sum() == want,
                   f"{(y[t] == 0).sum()} target rows of class 0, want {want}")
    if case["std"]:
        ctx.close(X.mean(0), np.zeros(2), "standardized mean", atol=1e-8)
        ctx.close(X.std(0), np.ones(2), "standardized deviation", atol=1e-8)
    elif noise is None:
        if case["shift"] == "conditional_shift":
            base = make_shifted_datasets(**{**kw, "mean": 0, "sigma": 1})
            ctx.same(base[0][s], X[s], "source untouched by the shift")
            ctx.close(X[t], base[0][t] * case["sigma"] + case["mean"],
                      "affine conditional shift", rtol=1e-12)
            ctx.same(base[1], y, "labels untouched by the shift")
        if case["shift"] in ("covariate_shift", "target_shift"):
            # no target row is drawn twice
            ctx.expect(len(np.unique(X[t], axis=0)) == per * nt, "distinct target rows")
        if case["label"] == "regression":
            from scipy.stats import multivariate_normal

            Z = X.copy()
            if case["shift"] == "conditional_shift":
                Z[t] = (Z[t] - case["mean"]) / case["sigma"]
            if case["shift"] == "subspace":
                Z = np.where(t[:, None], -Z, Z).mean(1)
            want = multivariate_normal(mu, cov).pdf(Z) * case["scale"]
            ctx.close(y, want, "regression values follow X", rtol=1e-8, atol=1e-14)
        if case["shift"] == "covariate_shift":
            far = ((X - kw.get("center_cov_shift", (0, 2))) ** 2).sum(1)
            lim = {0.5: 4.0, 2: 2.5, 8: 1.2}[case["gamma"]]
            ctx.expect(far[t].mean() < lim, f"target rows at {far[t].mean():.2f} from the center of the shift (source {far[s].mean():.2f})")
        if case["shift"] == "subspace" and case["label"] == "binary" and min(ns, nt) >= 8:
            for c in (0, 1):
                m, q = X[s & (y == c)].mean(0), X[t & (y == c)].mean(0)
                # eight standard errors
                ctx.expect(np.abs(m + q).max() < 1.5 and np.abs(m).max() > 0.2, f"class {c} is around {m} in the source and {q} in the target")
    elif case["noise"] == "pair":
        base = make_shifted_datasets(**{**kw, "noise": None})
        ctx.same(X[s], base[0][s], "zero noise on the source")
        ctx.expect(not np.allclose(X[t], base[0][t]), "noise on the target")
        ctx.same(y, base[1], "noise leaves labels alone")


def gen_moons(draw):
    pos = pick(0.0, 0.1, 0.25, 0.5, 0.8, 0.99)
    return dict(
        ns=draw(pick(1, 2, 3, 5, 8, 20)), nt=draw(pick(1, 2, 3, 5, 8, 20)),
        ps=draw(pos | st.lists(pos, min_size=1, max_size=3)),
        pt=draw(pos | st.lists(pos, min_size=1, max_size=3)),
        noise=draw(pick(None, None, 0.2, "pair")), seed=draw(SEED),
        how=draw(pick("tuple", "bunch", "dataset")),
    )


@facet(
    "C04", "moons", gen_moons, 200,
    rule="moons: more than one source or target position",
)
def moons(case, ctx):
    noise = [0.0, 0.3] if case["noise"] == "pair" else case["noise"]
    kw = dict(
        n_samples_source=case["ns"], n_samples_target=case["nt"],
        pos_source=case["ps"], pos_target=case["pt"], noise=noise,
        random_state=case["seed"],
    )
    X, y, sd = _outputs(make_dataset_from_moons_distribution, kw, case["how"], ctx)
    ps = case["ps"] if isinstance(case["ps"], list) else [case["ps"]]
    pt = case["pt"] if isinstance(case["pt"], list) else [case["pt"]]
    ctx.hard(len(ps) + len(pt) > 2)
    ns, nt = case["ns"], case["nt"]
    _two_domains(ctx, X, y, sd, 2 * ns * len(ps), 2 * nt * len(pt), 2)
    s_lab = sorted(set(sd[sd > 0]))
    t_lab = sorted(set(sd[sd < 0]), reverse=True)
    ctx.expect(len(s_lab) == len(ps) and len(t_lab) == len(pt), "one domain per position")
    th = np.linspace(0, np.pi, 100)
    for labs, poss, n, scale in ((s_lab, ps, ns, 0.0), (t_lab, pt, nt, 0.3)):
        for l, p in zip(labs, poss):
            rows, yy = X[sd == l], y[sd == l]
            ctx.same(yy, np.r_[np.zeros(n), np.ones(n)], f"labels of domain {l}")
            a = th[int(p * 100)]
            c = np.array([[np.cos(a), np.sin(a)], [1 - np.cos(a), 0.5 - np.sin(a)]])
            extra = {None: 0.0, "pair": scale}.get(case["noise"], 0.2)
            # 8 standard deviations around the documented center
            lim = 8 * np.sqrt(0.01 + extra**2)
            dev = rows - c[yy.astype(int)]
            err = np.abs(dev).max()
            if dev.size >= 80:  # a chi-square with 80 degrees leaves these limits once in 10^10
                spread = (dev**2).mean() / (0.01 + extra**2)
                ctx.label("spread checked")
                ctx.expect(0.3 < spread < 2.5, f"the variance of domain {l} is {spread:.2f} times the documented one")
            ctx.expect(err < lim, f"domain {l} is {err:.2f} away from its center")


def gen_freq(draw):
    return dict(
        ns=draw(ints(1, 3)), nt=draw(ints(1, 3)), ch=draw(ints(1, 2)),
        k=draw(pick(1, 2, 3, 6)), nf=draw(ints(1, 2)), seed=draw(SEED),
        delta=draw(pick(None, 0.0, 3, 1.5, 8)), band=draw(pick(None, 2.0)), sigma=draw(pick(None, 0.0, 0.0)),
        noise=draw(pick(None, None, 0.1, "pair")), how=draw(pick("tuple", "bunch", "dataset", "state")),
    )


@facet(
    "C04", "frequency", gen_freq, 12,
    rule="frequency: several classes and different source and target sizes",
)
def frequency(case, ctx):
    noise = [0.0, 0.3] if case["noise"] == "pair" else case["noise"]
    kw = dict(
        n_samples_source=case["ns"], n_samples_target=case["nt"],
        n_channels=case["ch"], n_classes=case["k"], n_frequencies=case["nf"],
        noise=noise, random_state=case["seed"],
    )
    kw.update({a: case[b] for a, b in (("delta_f", "delta"), ("band_size", "band"), ("sigma_freq", "sigma")) if case[b] is not None})
    X, y, sd = _outputs(make_variable_frequency_dataset, kw, case["how"], ctx)
    k = case["k"]
    ctx.hard(k > 1 and case["ns"] != case["nt"])
    n = k * (case["ns"] + case["nt"])
    ctx.expect(X.shape == (n, case["ch"], 3000), f"shape {X.shape}")
    ctx.same(y[sd > 0], np.repeat(np.arange(k), case["ns"]), "source labels")
    ctx.same(y[sd < 0], np.repeat(np.arange(k), case["nt"]), "target labels")
    ctx.expect(np.isfinite(X).all(), "finite signals")
    if noise is None and case["sigma"] == 0 and case["nf"] == 1:
        # the power of each signal lies in the bands of its class, whose frequencies
        # are shifted by delta_f in the target
        band, delta = case["band"] or 1, 1 if case["delta"] is None else case["delta"]
        f = np.fft.rfftfreq(3000, 1 / 100)
        power = np.abs(np.fft.rfft(X[:, :, 500:], n=3000, axis=2)) ** 2
        power = power.sum(1) / power.sum((1, 2))[:, None]
        for c in range(k):
            ps, pt = power[(sd > 0) & (y == c)].mean(0), power[(sd < 0) & (y == c)].mean(0)
            low = round(float((ps * f).sum()) - band / 2)
            inside = [p[(f >= a - 0.3) & (f <= a + band + 0.3)].sum() for p, a in ((ps, low), (pt, low + delta))]
            ctx.expect(0 <= low < 15, f"class {c} has the frequency {low}")
            ctx.expect(min(inside) > 0.9, f"class {c}: {inside} of the power around {low} in the source and {low + delta} in the target")

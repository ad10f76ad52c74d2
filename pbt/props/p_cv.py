"""C23 cross-validation splitters, C24 subsamplers."""

import math
from collections import Counter

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, clone
from sklearn.linear_model import LogisticRegression
from sklearn.model_selection import cross_validate
from sklearn.preprocessing import StandardScaler

import skada
from skada import make_da_pipeline
from skada.metrics import SupervisedScorer
from skada.model_selection import (
    DomainShuffleSplit,
    LeaveOneDomainOut,
    SourceTargetShuffleSplit,
    StratifiedDomainShuffleSplit,
)
from skada.transformers import DomainSubsampler, StratifiedDomainSubsampler, Subsampler

from ..core import facet
from ..gens import BOOL, SEED, describe_problem, gen_problem, ints, make_problem, mask_y, pick, rng

# ------------------------------------------------------------------ C23


def sizes(draw):
    kind = draw(pick("none", "test", "train", "both", "test_int", "both_int"))
    out = dict(test_size=None, train_size=None)
    if kind in ("test", "both"):
        out["test_size"] = draw(pick(0.1, 0.25, 0.4, 0.5))
    if kind in ("train", "both"):
        out["train_size"] = draw(pick(0.2, 0.35, 0.5))
    if kind in ("test_int", "both_int"):
        out["test_size"] = draw(ints(1, 4))
    if kind == "both_int":
        out["train_size"] = draw(ints(1, 3))
    return out


def expected_sizes(n, test_size, train_size, default=0.1):
    if test_size is None and train_size is None:
        test_size = default
    n_test = None if test_size is None else (math.ceil(test_size * n) if isinstance(test_size, float) else test_size)
    n_train = None if train_size is None else (math.floor(train_size * n) if isinstance(train_size, float) else train_size)
    if n_test is None:
        n_test = n - n_train
    if n_train is None:
        n_train = n - n_test
    return n_train, n_test


def gen_split(draw):
    c = gen_problem(draw, max_sources=3, max_targets=3, min_n=8, max_n=20, label_sets=[[0, 1, 2], [7, 3, 5]])
    c.update(sizes(draw))
    c["n_splits"] = draw(ints(1, 6))
    c["rs"] = draw(pick(0, 1, 17, None))
    c["instance"] = draw(BOOL)
    c["zero"] = draw(ints(0, 3)) == 0
    c["x"] = draw(pick("array", "nd", "list"))
    c["yin"] = draw(pick("masked", "true"))
    return c


def split_data(case, ctx):
    X, y, sd = make_problem(case)
    describe_problem(case, ctx)
    if case["zero"]:
        sd = np.where(sd == sd.max(), 0, sd)
    truth = y
    if case["yin"] == "masked":
        y = mask_y(y, sd)
    Xin = X if case["x"] == "array" else (np.stack([X, X], axis=2) if case["x"] == "nd" else X.tolist())
    return X, Xin, y, truth, sd


def state(case):
    if case["rs"] is None:
        return None
    return np.random.RandomState(case["rs"]) if case["instance"] else case["rs"]


def kw(case):
    return dict(test_size=case["test_size"], train_size=case["train_size"], random_state=state(case))


def basic(ctx, cv, splits, n, X, y, sd, n_expected):
    """Facts every splitter guarantees; returns nothing."""
    ctx.expect(len(splits) == n_expected, f"{len(splits)} splits, expected {n_expected}")
    ctx.expect(cv.get_n_splits(X, y, sd) == len(splits), "get_n_splits is the number of splits")
    for tr, te in splits:
        tr, te = np.asarray(tr), np.asarray(te)
        for a in (tr, te):
            ctx.expect(a.ndim == 1 and a.dtype.kind == "i", "splits are arrays of row indices")
            ctx.expect(len(np.unique(a)) == len(a), "a row occurs twice")
            ctx.expect(len(a) and a.min() >= 0 and a.max() < n, "index out of range")
        ctx.expect(len(np.intersect1d(tr, te)) == 0, "train and test overlap")


def deterministic(ctx, case, cv, make, splits, Xin, y, sd):
    """The same seed gives the same splits; X plays no role."""
    if case["rs"] is None:
        return
    again = list(make().split(Xin, y, sd))
    other = list(make().split(np.zeros((len(sd), 1)), y, sd))
    for (a, b), (c, d), (e, f) in zip(splits, again, other):
        for u, v in ((a, c), (b, d), (a, e), (b, f)):
            ctx.same(u, v, "splits with the same random_state")
    if not case["instance"]:
        for (a, b), (c, d) in zip(splits, cv.split(Xin, y, sd)):
            ctx.same(a, c, "a second call of split")
            ctx.same(b, d, "a second call of split")


def shares(ctx, splits, parts, test_size, train_size, what):
    """Each part (index set) is split with the sizes asked for."""
    for tr, te in splits:
        for name, rows in parts.items():
            ntr, nte = expected_sizes(len(rows), test_size, train_size)
            ctx.expect(np.isin(tr, rows).sum() == ntr, f"{what}: {np.isin(tr, rows).sum()} training rows of {name}, expected {ntr}")
            ctx.expect(np.isin(te, rows).sum() == nte, f"{what}: {np.isin(te, rows).sum()} test rows of {name}, expected {nte}")
        allrows = np.concatenate(list(parts.values()))
        ctx.expect(np.isin(tr, allrows).all() and np.isin(te, allrows).all(), f"{what}: a row outside of the parts")


def covers(ctx, splits, rows, what):
    """Over many splits every row is used for training and for testing."""
    for i, name in ((0, "training"), (1, "testing")):
        used = np.unique(np.concatenate([s[i] for s in splits]))
        missing = np.setdiff1d(rows, used)
        ctx.expect(not len(missing), f"{what}: rows {missing[:5]} never used for {name} in {len(splits)} splits")


@facet("C23", "source_target", gen_split, 150, rule="source_target: at least two splits and both sides have at least two test rows")
def source_target(case, ctx):
    X, Xin, y, _, sd = split_data(case, ctx)
    make = lambda: SourceTargetShuffleSplit(n_splits=case["n_splits"], **kw(case))  # noqa: E731
    cv = make()
    splits = list(cv.split(Xin, y, sd))
    basic(ctx, cv, splits, len(X), X, y, sd, case["n_splits"])
    parts = dict(source=np.flatnonzero(sd >= 0), target=np.flatnonzero(sd < 0))
    shares(ctx, splits, parts, case["test_size"], case["train_size"], "SourceTargetShuffleSplit")
    deterministic(ctx, case, cv, make, splits, Xin, y, sd)
    ctx.hard(case["n_splits"] > 1 and all((sd[te] < 0).sum() > 1 for _, te in splits))


def gen_under(draw):
    c = gen_split(draw)
    c["under"] = draw(pick(0.5, 0.6, 0.8, 1.0))
    c["max_n"] = 0
    return c


@facet("C23", "domain", gen_under, 150, rule="domain: several domains and under-sampling")
def domain(case, ctx):
    X, Xin, y, _, sd = split_data(case, ctx)
    make = lambda: DomainShuffleSplit(n_splits=case["n_splits"], under_sampling=case["under"], **kw(case))  # noqa: E731
    kept = {l: int((sd == l).sum() * case["under"]) for l in np.unique(sd)}
    n_s = sum(v for l, v in kept.items() if l >= 0)
    n_t = sum(v for l, v in kept.items() if l < 0)
    for n in (n_s, n_t):
        ntr, nte = expected_sizes(n, case["test_size"], case["train_size"])
        if min(ntr, nte) < 1 or ntr + nte > n:
            return
    cv = make()
    splits = list(cv.split(Xin, y, sd))
    basic(ctx, cv, splits, len(X), X, y, sd, case["n_splits"])
    full = case["test_size"] is None or case["train_size"] is None
    for tr, te in splits:
        for side, n in ((sd >= 0, n_s), (sd < 0, n_t)):
            ntr, nte = expected_sizes(n, case["test_size"], case["train_size"])
            ctx.expect(side[tr].sum() == ntr and side[te].sum() == nte,
                       f"sizes {side[tr].sum()}, {side[te].sum()} expected {ntr}, {nte}")
        cnt = Counter(sd[np.concatenate([tr, te])].tolist())
        for l, v in kept.items():
            ctx.expect(cnt[l] == v if full else cnt[l] <= v, f"{cnt[l]} rows of domain {l} used, expected {v}")
    deterministic(ctx, case, cv, make, splits, Xin, y, sd)
    ctx.hard(len(kept) > 2 and case["under"] < 1)
    for bad in (-0.1, 1.1):
        ctx.raises(ValueError, lambda: DomainShuffleSplit(under_sampling=bad), "under_sampling outside [0, 1]")


def gen_strat(draw):
    c = gen_split(draw)
    c["lone"] = draw(ints(0, 5)) == 0
    return c


@facet("C23", "stratified", gen_strat, 200, rule="stratified: at least two splits and group sizes differ")
def stratified(case, ctx):
    X, Xin, y, _, sd = split_data(case, ctx)
    n = len(X)
    if case["lone"]:
        y = y.copy()
        y[np.flatnonzero(sd >= 0)[0]] = 9  # a group of one row
    groups = Counter(zip(y.tolist(), sd.tolist()))
    ntr, nte = expected_sizes(n, case["test_size"], case["train_size"])
    make = lambda: StratifiedDomainShuffleSplit(n_splits=case["n_splits"], **kw(case))  # noqa: E731
    cv = make()
    if min(groups.values()) < 2 or ntr < len(groups) or nte < len(groups):
        ctx.raises(ValueError, lambda: list(cv.split(Xin, y, sd)), "groups that cannot be on both sides")
        return
    splits = list(cv.split(Xin, y, sd))
    basic(ctx, cv, splits, n, X, y, sd, case["n_splits"])
    for tr, te in splits:
        ctx.expect(len(tr) == ntr and len(te) == nte, f"sizes {len(tr)}, {len(te)} expected {ntr}, {nte}")
        a, b = (Counter(zip(y[i].tolist(), sd[i].tolist())) for i in (tr, te))
        for g, c in groups.items():
            ctx.expect(abs(a[g] - ntr * c / n) < 1 + 1e-9, f"group {g}: {a[g]} training rows, share {ntr * c / n}")
            left = nte * (c - a[g]) / (n - ntr)
            ctx.expect(abs(b[g] - left) < 1 + 1e-9, f"group {g}: {b[g]} test rows, share {left}")
    deterministic(ctx, case, cv, make, splits, Xin, y, sd)
    ctx.hard(case["n_splits"] > 1 and len(set(groups.values())) > 1)


def gen_lodo(draw):
    n_dom = draw(ints(2, 5))
    labels = sorted(draw(st_perm())[:n_dom])
    c = dict(seed=draw(SEED), labels=labels, sizes=[[draw(ints(7, 12)), draw(ints(7, 12))] for _ in labels],
             max_n=draw(ints(1, 7)), rs=draw(pick(0, 3, 11, None)), instance=draw(BOOL), x=draw(pick("array", "nd", "list")),
             order=draw(pick("stacked", "shuffled")))
    c.update(sizes(draw))
    c["same"] = draw(BOOL)
    return c


def st_perm():
    from hypothesis import strategies as st

    return st.permutations([1, 2, 3, 5, 8, 13])


@facet("C23", "leave_one_domain_out", gen_lodo, 200, rule="leave_one_domain_out: at least three domains")
def lodo(case, ctx):
    """Every domain is given as source and as target, as pack_lodo does."""
    r = rng(case["seed"], 2)
    sd = np.concatenate([np.repeat([l, -l], [a, a if case["same"] else b]) for l, (a, b) in zip(case["labels"], case["sizes"])])
    if case["order"] == "shuffled":
        sd = r.permutation(sd)
    n = len(sd)
    X, y = r.normal(size=(n, 2)), r.randint(0, 2, n)
    Xin = X if case["x"] == "array" else (np.stack([X, X], axis=2) if case["x"] == "nd" else X.tolist())
    make = lambda: LeaveOneDomainOut(max_n_splits=case["max_n"], **kw(case))  # noqa: E731
    cv = make()
    splits = list(cv.split(Xin, y, sd))
    n_exp = min(len(case["labels"]), case["max_n"])
    basic(ctx, cv, splits, n, X, y, sd, n_exp)
    left = []
    for tr, te in splits:
        out = np.unique(sd[te][sd[te] < 0])
        ctx.expect(len(out) == 1, f"the target domains of a split are {out}")
        d = -int(out[0])
        left.append(d)
        ctx.expect(set(sd[tr][sd[tr] < 0]) <= {-d}, "the training targets are of the domain left out")
        for i in (tr, te):
            ctx.expect(d not in sd[i], "the domain left out is also a source")
        parts = dict(source=np.flatnonzero((sd > 0) & (sd != d)), target=np.flatnonzero(sd == -d))
        shares(ctx, [(tr, te)], parts, case["test_size"], case["train_size"], "LeaveOneDomainOut")
    ctx.expect(len(set(left)) == len(left), f"domains left out: {left}")
    ctx.expect(set(left) <= set(case["labels"]), "the domains left out are domains")
    if case["rs"] is not None and case["order"] == "stacked":
        for (a, b), (c, d) in zip(splits, make().split(Xin, y, sd)):
            ctx.same(a, c, "same seed")
            ctx.same(b, d, "same seed")
    ctx.label(f"domains={len(case['labels'])}", f"capped={case['max_n'] < len(case['labels'])}")
    ctx.hard(len(case["labels"]) >= 3)


def gen_cover(draw):
    c = gen_problem(draw, max_sources=2, max_targets=2, min_n=8, max_n=12)
    c["cv"] = draw(pick("st", "domain", "strat", "lodo"))
    c["rs"] = draw(ints(0, 999))
    c["order"] = draw(pick("stacked", "shuffled"))
    return c


@facet("C23", "coverage", gen_cover, 30, rule="coverage: every case")
def coverage(case, ctx):
    """Splits are random: over 80 of them every row is on each side, and they differ."""
    X, y, sd = make_problem(case)
    ctx.label(case["cv"])
    rows = np.arange(len(X))
    if case["cv"] == "lodo":
        sd = np.where(rows % 2 == 0, 1 + rows % 3, -1 - rows % 3)
        splits = []
        for k in range(40):
            splits += list(LeaveOneDomainOut(test_size=0.5, random_state=case["rs"] + k).split(X, y, sd))
        firsts = {int(-min(sd[te])) for _, te in [list(LeaveOneDomainOut(max_n_splits=1, random_state=case["rs"] + k).split(X, y, sd))[0] for k in range(60)]}
        ctx.expect(firsts == {1, 2, 3}, f"with max_n_splits=1 only domains {firsts} are ever left out")
    else:
        cls = dict(st=SourceTargetShuffleSplit, domain=DomainShuffleSplit, strat=StratifiedDomainShuffleSplit)[case["cv"]]
        splits = list(cls(n_splits=80, test_size=0.5, random_state=case["rs"]).split(X, y, sd))
    covers(ctx, splits, rows, case["cv"])
    ctx.expect(len({tuple(sorted(te.tolist())) for _, te in splits}) > 10, "the splits hardly differ")
    # without a random state, numpy's own gives other splits at each call
    cls = dict(lodo=LeaveOneDomainOut, st=SourceTargetShuffleSplit, domain=DomainShuffleSplit, strat=StratifiedDomainShuffleSplit)[case["cv"]]
    kept = np.random.get_state()
    try:
        np.random.seed(case["rs"])
        calls = [[te for _, te in cls(1, test_size=0.5).split(X, y, sd)] for _ in range(20)]
    finally:
        np.random.set_state(kept)
    ctx.expect(len({tuple(sorted(c[0].tolist())) for c in calls}) > 4, "20 calls without random_state hardly differ")
    if case["cv"] == "lodo":
        left = {int(-min(sd[c[0]])) for c in calls}
        ctx.expect(len(left) > 1, f"20 calls without random_state left only domain {left} out")
    ctx.hard()


class Rec(ClassifierMixin, BaseEstimator):
    LOG = []
    __metadata_request__fit = {"sample_weight": True}

    def fit(self, X, y, sample_weight=None):
        self.classes_ = np.unique(y)
        Rec.LOG.append((np.array(X), np.array(y), None if sample_weight is None else np.array(sample_weight)))
        return self

    def predict(self, X):
        Rec.LOG.append(np.array(X))
        return np.full(len(X), self.classes_[0])


def gen_cvint(draw):
    c = gen_split(draw)
    c["cv"] = draw(pick("st", "domain", "strat"))
    c["test_size"], c["train_size"] = draw(pick(0.3, 0.5)), None
    c["rs"] = draw(ints(0, 99))
    c["n_splits"] = draw(ints(1, 3))
    return c


@facet("C23", "cross_validate", gen_cvint, 40, rule="cross_validate: every case")
def crossval(case, ctx):
    """cross_validate routes sample_domain to the splitter, the fit and the scorer."""
    case = {**case, "x": "array", "instance": False}
    X, _, y, truth, sd = split_data(case, ctx)
    X = X + np.arange(len(X))[:, None] * 1000.0  # rows can be told apart
    cls = dict(st=SourceTargetShuffleSplit, domain=DomainShuffleSplit, strat=StratifiedDomainShuffleSplit)[case["cv"]]
    make = lambda: cls(n_splits=case["n_splits"], test_size=case["test_size"], random_state=case["rs"])  # noqa: E731
    Rec.LOG.clear()
    y = mask_y(truth, sd)
    cross_validate(make_da_pipeline(Rec()), X, y, cv=make(), scoring=SupervisedScorer(),
                   params=dict(sample_domain=sd, target_labels=truth), error_score="raise")
    log = list(Rec.LOG)
    ctx.expect(len(log) == 2 * case["n_splits"], f"{len(log)} calls of the estimator")
    for k, (tr, te) in enumerate(make().split(X, y, sd)):
        fit, pred = log[2 * k], log[2 * k + 1]
        s = tr[sd[tr] >= 0]
        ctx.same(fit[0], X[s], "rows the estimator is fitted on")
        ctx.same(fit[1], truth[s], "labels the estimator is fitted on")
        ctx.same(pred, X[te[sd[te] < 0]], "rows the estimator is scored on")
    ctx.hard()


# ------------------------------------------------------------------ C24


def gen_sub(draw):
    c = gen_problem(draw, max_sources=2, max_targets=2, min_n=8, max_n=20, label_sets=[[0, 1, 2], [7, 3, 5]])
    c["cls"] = draw(pick("plain", "domain", "strat"))
    c["size"] = draw(pick(1, 2, 5, 9, 14, 30, 10000, 0.1, 0.25, 0.5, 0.75, 1.0, "n"))
    c["rs"] = draw(pick(0, 5, None))
    c["weights"] = draw(BOOL)
    c["sd"] = draw(ints(0, 4)) != 0
    c["yin"] = draw(pick("masked", "true"))
    c["zero"] = draw(ints(0, 3)) == 0
    return c


def subsampler(case, size):
    cls = dict(plain=Subsampler, domain=DomainSubsampler, strat=StratifiedDomainSubsampler)[case["cls"]]
    return cls(train_size=size, random_state=case["rs"])


def feasible(case, size, y, sd):
    """Whether the stratified classes can serve both sides; None if all rows are kept."""
    n = len(y)
    if (isinstance(size, float) and size == 1.0) or (not isinstance(size, float) and size >= n):
        return None
    k = math.floor(size * n) if isinstance(size, float) else size
    groups = {"plain": [1] * n, "domain": sd.tolist(), "strat": list(zip(y.tolist(), sd.tolist()))}[case["cls"]]
    g = Counter(groups)
    lo = 1 if case["cls"] == "plain" else len(g)
    ok = k >= lo and n - k >= lo and min(g.values()) >= 2
    return k if ok else -1


@facet("C24", "subset", gen_sub, 250, rule="subset: a strict subset is drawn and several domains or classes are there")
def subset(case, ctx):
    X, y, sd = make_problem(case)
    describe_problem(case, ctx)
    if case["zero"]:
        sd = np.where(sd == sd.max(), 0, sd)
    ctx.label(case["cls"])
    n = len(X)
    if case["yin"] == "masked" or not case["sd"]:
        y = mask_y(y, sd)
    if not case["sd"]:
        sd = np.where(y == -1, -2, 1)
    size = n if case["size"] == "n" else case["size"]
    k = feasible(case, size, y, sd)
    if k == -1:
        ctx.label("infeasible")
        return
    w = rng(case["seed"], 3).rand(n) + 0.1 if case["weights"] else None
    X0, y0 = X.copy(), y.copy()
    t = subsampler(case, size)
    Xs, ys, params = t.fit_transform(X, y, sample_domain=sd if case["sd"] else None, sample_weight=w)
    ctx.same(X, X0, "X is left as given")
    ctx.same(y, y0, "y is left as given")
    ctx.expect(("sample_weight" in params) == (w is not None), "weights are returned iff given")
    if k is None:
        ctx.same(Xs, X, "all rows")
        ctx.same(ys, y, "all labels")
        if case["sd"]:
            ctx.same(params["sample_domain"], sd, "all domains")
        if w is not None:
            ctx.same(params["sample_weight"], w, "all weights")
        return
    ctx.expect(len(Xs) == k, f"{len(Xs)} rows are kept, expected {k}")
    pos = {row.tobytes(): i for i, row in enumerate(X)}
    idx = [pos.get(np.ascontiguousarray(row).tobytes()) for row in Xs]
    ctx.expect(None not in idx and len(set(idx)) == len(idx), "the rows kept are distinct rows of X")
    idx = np.array(idx)
    ctx.same(ys, y[idx], "labels of the rows kept")
    ctx.same(np.asarray(params["sample_domain"]).astype(int), sd[idx], "domains of the rows kept")
    if w is not None:
        ctx.same(params["sample_weight"], w[idx], "weights of the rows kept")
    if case["cls"] != "plain":
        key = sd.tolist() if case["cls"] == "domain" else list(zip(y.tolist(), sd.tolist()))
        allc, got = Counter(key), Counter(key[i] for i in idx)
        for g, c in allc.items():
            ctx.expect(abs(got[g] - k * c / n) < 1 + 1e-9, f"{got[g]} rows of {g} kept, share {k * c / n}")
    if case["rs"] is not None:
        Xa, ya, pa = subsampler(case, size).fit_transform(X, y, sample_domain=sd if case["sd"] else None, sample_weight=w)
        ctx.same(Xa, Xs, "the same random_state keeps the same rows")
        Xa, ya, pa = t.fit_transform(X, y, sample_domain=sd if case["sd"] else None, sample_weight=w)
        ctx.same(Xa, Xs, "a subsampler fitted again keeps the same rows")
        ctx.same(ya, ys, "a subsampler fitted again keeps the same labels")
    Z = rng(case["seed"], 4).normal(size=(7, X.shape[1]))
    ctx.same(t.transform(Z), Z, "transform changes nothing")
    ctx.same(t.transform(X, allow_source=True), X, "transform changes nothing")
    ctx.hard(len(set(sd.tolist())) > 1)


def gen_subpipe(draw):
    c = gen_sub(draw)
    c["size"] = draw(pick(8, 12, 0.4, 0.5, 0.75, 1.0, 10000))
    c["first"] = draw(pick("none", "none", "scaler", "reweight"))
    c["via"] = draw(pick("none", "reweight"))
    c["rs"] = draw(ints(0, 9))
    return c


@facet("C24", "pipeline", gen_subpipe, 100, rule="pipeline: a strict subset reaches the estimator")
def subpipe(case, ctx):
    """Later steps are fitted on aligned rows of the subset; prediction keeps every row."""
    X, y, sd = make_problem(case)
    describe_problem(case, ctx)
    n = len(X)
    y = mask_y(y, sd) if case["yin"] == "masked" else y
    ym = mask_y(y, sd)
    k = feasible(case, case["size"], ym, sd)
    if k == -1:
        return
    sub = subsampler(case, case["size"])
    ctx.label(case["cls"], case["first"])
    if case["cls"] == "plain" and k is not None and k <= (sd < 0).sum():
        kept = subsampler(case, case["size"]).fit_transform(X, ym, sample_domain=sd)[-1]["sample_domain"]
        if not (kept >= 0).any():
            return  # nothing to fit the estimator on
    steps = [StandardScaler()] if case["first"] == "scaler" else []
    if case["first"] == "reweight":
        steps.append(skada.DensityReweightAdapter())
    Rec.LOG.clear()
    pipe = make_da_pipeline(*steps, sub, Rec()).fit(X, ym, sample_domain=sd)
    (Xf, yf, wf), = Rec.LOG
    Z = StandardScaler().fit(X).transform(X) if case["first"] == "scaler" else X
    idx = []
    for row in Xf:
        d = np.abs(Z - row).max(axis=1)
        ctx.expect(d.min() < 1e-9, "a training row is not a row of X")
        idx.append(int(d.argmin()))
    idx = np.array(idx, int)
    ctx.expect(len(set(idx.tolist())) == len(idx), "a row is used twice")
    ctx.expect((sd[idx] >= 0).all(), "the estimator is fitted on labelled source rows")
    ctx.same(yf, ym[idx], "labels of the rows")
    if case["first"] == "reweight":
        ad = skada.DensityReweightAdapter()
        w = ad.fit_transform(X, ym, sample_domain=sd)[-1]["sample_weight"]
        ctx.expect(wf is not None, "weights reach the estimator through the subsampler")
        ctx.close(wf, w[idx], "weights of the rows", rtol=1e-9)
    s = sd >= 0
    kk = n if k is None else k
    if case["cls"] == "plain":
        ctx.expect(max(0, kk - (~s).sum()) <= len(idx) <= min(kk, s.sum()), f"{len(idx)} source rows of {kk}")
    else:
        ctx.expect(abs(len(idx) - kk * s.sum() / n) <= 1 + len(set(sd.tolist())) * (1 + case["k"]), "share of source rows")
    if k is None:
        ctx.expect(len(idx) == s.sum(), "all source rows are kept")
    Rec.LOG.clear()
    out = pipe.predict(X[~s], sample_domain=sd[~s])
    ctx.expect(len(out) == (~s).sum(), "one prediction per row")
    ctx.close(Rec.LOG[-1], Z[~s], "rows to predict are not subsampled", rtol=1e-9, atol=1e-9)
    ctx.hard(k is not None)


@facet("C24", "random", gen_sub, 15, rule="random: every case")
def random(case, ctx):
    """Every row can be kept, and different seeds keep different rows."""
    X, y, sd = make_problem(case)
    ctx.label(case["cls"])
    y = mask_y(y, sd)
    n = len(X)
    used, sets = set(), set()
    for k in range(60):
        Xs, _, _ = subsampler({**case, "rs": k}, 0.5).fit_transform(X, y, sample_domain=sd)
        ids = {np.ascontiguousarray(r).tobytes() for r in Xs}
        used |= ids
        sets.add(frozenset(ids))
    ctx.expect(len(used) == n, f"{n - len(used)} rows are never kept in 60 draws of half of the rows")
    ctx.expect(len(sets) > 10, "the draws hardly differ")
    ctx.hard()

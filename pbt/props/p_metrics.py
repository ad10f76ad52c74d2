"""C21 scorers compute their formulas, C22 unsupervised scorers never read target labels."""

from types import SimpleNamespace

import numpy as np
import torch
from scipy.special import logsumexp
from sklearn.base import BaseEstimator, ClassifierMixin, clone
from sklearn.decomposition import PCA
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.metrics import accuracy_score, balanced_accuracy_score, r2_score
from sklearn.mixture import GaussianMixture
from sklearn.model_selection import GridSearchCV, cross_validate, train_test_split
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KernelDensity, KNeighborsClassifier
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import StandardScaler
from sklearn.tree import DecisionTreeClassifier

import skada
from skada import PerDomain, Shared, make_da_pipeline
from skada.metrics import (
    CircularValidation,
    DeepEmbeddedValidation,
    ImportanceWeightedScorer,
    MaNoScorer,
    MixValScorer,
    PredictionEntropyScorer,
    SoftNeighborhoodDensity,
    SupervisedScorer,
)
from skada.model_selection import SourceTargetShuffleSplit, StratifiedDomainShuffleSplit

from ..core import facet
from ..gens import BOOL, SEED, describe_problem, gen_problem, ints, make_problem, mask_y, pick, rng


# ------------------------------------------------------------------- a stub


class Stub(ClassifierMixin, BaseEstimator):
    """Deterministic classifier: softmax of scaled linear outputs; records calls."""

    __metadata_request__predict = {"sample_domain": True, "allow_source": True}
    __metadata_request__predict_proba = {"sample_domain": True, "allow_source": True}
    __metadata_request__predict_log_proba = {"sample_domain": True, "allow_source": True}
    __metadata_request__score = {"sample_domain": True, "allow_source": True, "sample_weight": True}

    def __init__(self, seed=0, classes=(0, 1), scale=1.0):
        self.seed, self.classes, self.scale = seed, classes, scale

    @property
    def calls(self):
        return self.__dict__.setdefault("_calls", [])

    def fit(self, X, y, sample_domain=None):
        return self

    def __sklearn_is_fitted__(self):
        return True

    @property
    def classes_(self):
        return np.asarray(self.classes)

    def logits(self, X):
        X = np.asarray(X, dtype=float)
        X = X.reshape(len(X), -1)
        W = rng(self.seed, 5).normal(size=(X.shape[1], len(self.classes)))
        return self.scale * (X @ W)

    def proba(self, X):
        z = self.logits(X)
        z = np.exp(z - z.max(axis=1, keepdims=True))
        return z / z.sum(axis=1, keepdims=True)

    def label(self, X):
        return np.asarray(self.classes)[self.logits(X).argmax(axis=1)]

    def _rec(self, name, X, sample_domain, allow_source):
        self.calls.append((name, np.array(X), None if sample_domain is None else np.array(sample_domain), allow_source))

    def predict(self, X, sample_domain=None, allow_source=False):
        self._rec("predict", X, sample_domain, allow_source)
        return self.label(X)

    def predict_proba(self, X, sample_domain=None, allow_source=False):
        self._rec("predict_proba", X, sample_domain, allow_source)
        return self.proba(X)

    def score(self, X, y, sample_domain=None, sample_weight=None, allow_source=False):
        self._rec("score", X, sample_domain, allow_source)
        return accuracy_score(y, self.label(X), sample_weight=sample_weight)


class LogStub(Stub):
    def predict_log_proba(self, X, sample_domain=None, allow_source=False):
        return np.log(self.proba(X))


LABELS = [[0, 1, 2], [1, 2, 3], [5, 2, 9]]


def gen_stub(draw, **kw):
    kw = {**dict(max_sources=2, max_targets=2, min_n=3, max_n=12, classes=(2, 3), label_sets=LABELS), **kw}
    c = gen_problem(draw, **kw)
    c["scale"] = draw(pick(0.0, 0.3, 1.0, 3.0, 2000.0))
    c["greater"] = draw(BOOL)
    c["targets"] = draw(pick("masked", "true", "other"))
    c["nd"] = draw(BOOL)
    c["zero"] = draw(ints(0, 4)) == 0
    return c


def stub_data(case, ctx):
    X, y, sd = make_problem(case)
    ns, nt = describe_problem(case, ctx)
    ctx.label("targets=" + case["targets"], f"scale={case['scale']}")
    if case["zero"] and nt:  # a domain labelled 0 is a source
        sd = np.where(sd == sd.max(), 0, sd)
    truth = y.copy()
    if case["targets"] == "masked":
        y = mask_y(y, sd)
    elif case["targets"] == "other":
        lab = np.unique(y)
        y = np.where(sd < 0, lab[rng(case["seed"], 9).randint(len(lab), size=len(y))], y)
    if case["nd"]:
        X = np.stack([X, -0.5 * X], axis=2)
    classes = tuple(int(v) for v in (case.get("labels") or range(case["k"]))[: case["k"]])
    return X, y, truth, sd, classes


def only_rows(ctx, calls, X, sd, rows, what):
    """Every recorded call was made on exactly these rows with their domains."""
    ctx.expect(len(calls) > 0, f"{what} made no call")
    for name, Xc, sdc, _ in calls:
        ctx.same(Xc, X[rows], f"{what}: rows given to {name}")
        if sdc is not None:
            ctx.same(sdc, sd[rows], f"{what}: domains given to {name}")


# ------------------------------------------------------------ C21 supervised


def gen_sup(draw):
    c = gen_stub(draw)
    c["scoring"] = draw(pick("none", "callable"))
    c["noise"] = draw(BOOL)
    return c


@facet("C21", "supervised", gen_sup, 150, rule="supervised: a score strictly between 0 and 1")
def supervised(case, ctx):
    X, y, truth, sd, classes = stub_data(case, ctx)
    est = Stub(case["seed"], classes, case["scale"])
    t = sd < 0
    tl = truth.copy()
    if case["noise"]:  # labels of the source rows in target_labels are irrelevant
        tl[~t] = classes[0]
    seen = []

    def func(e, Xs, ys, sample_domain=None):
        seen.append((Xs, ys, sample_domain))
        return float(np.mean(e.label(Xs) == ys)) + 0.25

    sc = SupervisedScorer(scoring=func if case["scoring"] == "callable" else None, greater_is_better=case["greater"])
    got = sc(est, X, y, sample_domain=sd, target_labels=tl)
    acc = float(np.mean(est.label(X[t]) == truth[t]))
    exp = acc + (0.25 if seen else 0)
    ctx.expect(bool(seen) == (case["scoring"] == "callable"), "the scoring function is used iff given")
    ctx.close(got, exp if case["greater"] else -exp, "supervised score", atol=1e-12)
    for Xs, ys, sds in seen:
        ctx.same(Xs, X[t], "rows scored")
        ctx.same(ys, truth[t], "labels scored")
        ctx.same(sds, sd[t], "domains scored")
    ctx.hard(0 < acc < 1)


def gen_scoring(draw):
    c = gen_stub(draw)
    c["which"] = draw(pick("supervised", "iw", "mixval"))
    c["metric"] = draw(pick("accuracy", "balanced_accuracy"))
    return c


@facet("C21", "scoring_string", gen_scoring, 24, rule="scoring_string: every case")
def scoring_string(case, ctx):
    """`scoring` may be the name of a metric."""
    X, y, truth, sd, classes = stub_data({**case, "nd": False}, ctx)
    est = Stub(case["seed"], classes, case["scale"])
    ctx.hard()
    metric = dict(accuracy=accuracy_score, balanced_accuracy=balanced_accuracy_score)[case["metric"]]
    t = sd < 0
    try:
        if case["which"] == "supervised":
            got = SupervisedScorer(scoring=case["metric"])(est, X, y, sample_domain=sd, target_labels=truth)
            exp = metric(truth[t], est.label(X[t]))
        elif case["which"] == "iw":
            got = ImportanceWeightedScorer(scoring=case["metric"])(est, X, y, sample_domain=sd)
            exp = metric(y[~t], est.label(X[~t]), sample_weight=kde_weights(X, sd, 1.0))
        else:
            got = MixValScorer(scoring=case["metric"], ice_type="both", random_state=0)(est, X, y, sample_domain=sd)
            exp = mixval_ref(est, X[t], 0.55, 0, metric)["both"]
    except TypeError as e:
        ctx.fail(f"scoring={case['metric']!r} in {case['which']} raises TypeError: {e}", finding="scoring-parameter")
        return
    ctx.close(got, exp, f"{case['which']} with scoring={case['metric']}", atol=1e-10)


# ------------------------------------------------ C21 importance weighting


def kde_logdens(A, B, h):
    d2 = ((A[:, None] - B[None]) ** 2).sum(-1)
    return logsumexp(-d2 / (2 * h * h), axis=1) - np.log(len(B))


def kde_weights(X, sd, h):
    Z = X.reshape(len(X), -1)
    s, t = Z[sd >= 0], Z[sd < 0]
    w = np.exp(kde_logdens(s, t, h) - kde_logdens(s, s, h))
    if w.sum() == 0:
        return np.full(len(s), 1 / len(s))
    return w / w.sum()


def gen_iw(draw):
    c = gen_stub(draw)
    c["est"] = draw(pick("default", "kde", "kde", "gmm"))
    c["h"] = draw(pick(0.3, 0.7, 2.0))
    c["far"] = draw(pick(0, 0, 0, 20, 500))
    c["scoring"] = draw(pick("none", "callable"))
    return c


@facet("C21", "importance_weighted", gen_iw, 150, rule="importance_weighted: weights are not uniform and the score is not 0 or 1")
def importance_weighted(case, ctx):
    X, y, truth, sd, classes = stub_data(case, ctx)
    if case["far"]:
        X = X + case["far"] * (sd < 0).reshape((-1,) + (1,) * (X.ndim - 1))
    est = Stub(case["seed"], classes, case["scale"])
    s = sd >= 0
    h = case["h"]
    we = dict(default=None, kde=KernelDensity(bandwidth=h), gmm=GaussianMixture(1, reg_covar=1e-2))[case["est"]]
    if case["est"] == "gmm":
        Z = X.reshape(len(X), -1)

        def ld(A):
            m, C = A.mean(0), np.cov(A, rowvar=False, bias=True) + 1e-2 * np.eye(A.shape[1])
            q = Z[s] - m
            return -0.5 * np.einsum("ij,ij->i", q, np.linalg.solve(C, q.T).T) - 0.5 * np.linalg.slogdet(C)[1]

        w = np.exp(ld(Z[~s]) - ld(Z[s]))
        w = w / w.sum() if w.sum() else np.full(s.sum(), 1 / s.sum())
    else:
        w = kde_weights(X, sd, 1.0 if case["est"] == "default" else h)
    seen = []

    def func(e, Xs, ys, sample_domain, sample_weight, allow_source):
        seen.append((Xs, ys, sample_domain, sample_weight, allow_source))
        return float(sample_weight @ (e.label(Xs) == ys)) - 3

    sc = ImportanceWeightedScorer(weight_estimator=we, scoring=func if case["scoring"] == "callable" else None,
                                  greater_is_better=case["greater"])
    got = sc(est, X, y, sample_domain=sd)
    acc = float(w @ (est.label(X[s]) == truth[s]))
    exp = acc - 3 if seen else acc
    ctx.expect(bool(seen) == (case["scoring"] == "callable"), "the scoring function is used iff given")
    ctx.close(got, exp if case["greater"] else -exp, "importance weighted score", rtol=1e-6, atol=1e-7)
    for Xs, ys, sds, sw, al in seen:
        ctx.same(Xs, X[s], "rows scored")
        ctx.same(ys, truth[s], "labels scored")
        ctx.same(sds, sd[s], "domains scored")
        ctx.close(sw, w, "weights", rtol=1e-6, atol=1e-9)
        ctx.expect(al is True, "allow_source is passed")
    if not seen:
        ctx.expect(all(c[3] is True for c in est.calls), "source rows are scored with allow_source")
    ctx.hard(0.01 < acc < 0.99 and np.ptp(w) > 1e-3)


class NoWeights(Stub):
    __metadata_request__score = {"sample_domain": True, "allow_source": True, "sample_weight": None}


@facet("C21", "requirements", gen_stub, 40, rule="requirements: every case")
def requirements(case, ctx):
    """Scorers state what they need instead of returning a number."""
    X, y, truth, sd, classes = stub_data(case, ctx)
    ctx.hard()
    kw = dict(sample_domain=sd)
    ctx.raises(ValueError, lambda: ImportanceWeightedScorer()(NoWeights(case["seed"], classes), X, y, **kw),
               "importance weighting with an estimator that does not request sample_weight")
    noproba = SimpleNamespace(predict=lambda X, **k: np.zeros(len(X)))
    for sc in (PredictionEntropyScorer(), SoftNeighborhoodDensity(), DeepEmbeddedValidation(), MaNoScorer()):
        ctx.raises(AttributeError, lambda: sc(noproba, X, y, **kw), f"{type(sc).__name__} without predict_proba")
    for bad in (lambda: PredictionEntropyScorer(reduction="median"), lambda: MixValScorer(ice_type="all"),
                lambda: MaNoScorer(p=0), lambda: MaNoScorer(p=-1), lambda: CircularValidation(source_scorer="accuracy")):
        ctx.raises(ValueError, bad, "an invalid parameter")
    yr = rng(case["seed"], 4).normal(size=len(y)) * 10
    est = Stub(case["seed"], classes, case["scale"])
    pipe = Pipeline([("e", est)])
    for sc in (MixValScorer(), MaNoScorer()):
        ctx.raises(ValueError, lambda: sc(pipe, X, yr, **kw), f"{type(sc).__name__} on a regression problem")
    if case["targets"] != "masked":
        ctx.raises(ValueError, lambda: CircularValidation()(est, X, truth, **kw), "CircularValidation without masked labels")


# --------------------------------------------------------------- C21 entropy


def gen_entropy(draw):
    c = gen_stub(draw)
    c["reduction"] = draw(pick("none", "sum", "mean"))
    c["log"] = draw(BOOL)
    return c


@facet("C21", "entropy", gen_entropy, 200, rule="entropy: some entropies differ from each other, or some probability is 0")
def entropy(case, ctx):
    X, y, truth, sd, classes = stub_data(case, ctx)
    est = (LogStub if case["log"] else Stub)(case["seed"], classes, case["scale"])
    t = sd < 0
    got = PredictionEntropyScorer(greater_is_better=case["greater"], reduction=case["reduction"])(est, X, y, sample_domain=sd)
    P = est.proba(X[t])
    H = np.array([-sum(p * np.log(p) for p in row if p > 0) for row in P])
    sign = 1 if case["greater"] else -1
    tol = dict(rtol=1e-9, atol=1e-10) if case["log"] else dict(rtol=1e-5, atol=1e-6 * P.size)
    if case["reduction"] == "none":
        ctx.close(got, sign * H, "entropies", **tol)
    elif case["reduction"] == "sum":
        ctx.close(got, sign * H.sum(), "sum of the entropies", **tol)
    else:
        exp = sign * H.mean()
        ctx.expect(np.ndim(got) == 0 and np.isfinite(got), f"the mean entropy is a number, got {got!r}")
        if not np.isclose(got, exp, **tol):
            # the mean is also divided by the number of classes
            known = np.isclose(got, exp / P.shape[1], **tol)
            ctx.fail(f"mean entropy: got {got}, expected {exp}", finding="entropy-mean" if known else None)
    only_rows(ctx, est.calls, X, sd, t, "PredictionEntropyScorer")
    ctx.label("reduction=" + case["reduction"])
    ctx.hard(np.ptp(H) > 1e-6 or (P == 0).any())


# ------------------------------------------------------------------- C21 SND


def gen_snd(draw):
    c = gen_stub(draw)
    c["T"] = draw(pick(0.05, 0.1, 0.5, 1.0, 10.0))
    return c


@facet("C21", "soft_neighborhood", gen_snd, 150, rule="soft_neighborhood: predictions differ")
def soft_neighborhood(case, ctx):
    X, y, truth, sd, classes = stub_data(case, ctx)
    est = Stub(case["seed"], classes, case["scale"])
    t = sd < 0
    got = SoftNeighborhoodDensity(T=case["T"], greater_is_better=case["greater"])(est, X, y, sample_domain=sd)
    P = est.proba(X[t])
    P = P / np.sqrt((P**2).sum(1, keepdims=True))
    S = P @ P.T / case["T"]
    for i in range(len(S)):
        S[i, i] = -S[i, i]
    Q = S - logsumexp(S, axis=1, keepdims=True)
    exp = float(np.mean(-(np.exp(Q) * Q).sum(1)))
    ctx.close(got, exp if case["greater"] else -exp, "soft neighborhood density", rtol=1e-9, atol=1e-10)
    only_rows(ctx, est.calls, X, sd, t, "SoftNeighborhoodDensity")
    ctx.hard(np.ptp(P) > 1e-3 and len(np.unique(P.round(6), axis=0)) > 1)


# ------------------------------------------------------------------- C21 DEV


def gen_dev(draw):
    c = gen_stub(draw, min_n=6, max_n=20)
    c["scale"] = draw(pick(0.0, 0.3, 1.0, 3.0))
    c["steps"] = draw(pick("none", "scaler", "scaler_pca", "scaler_pca", "subspace", "coral"))
    c["clf"] = draw(pick("default", "logreg", "nb"))
    c["loss"] = draw(pick("default", "default", "vector", "column"))
    c["rs"] = draw(ints(0, 50))
    c["same"] = draw(BOOL)
    return c


@facet("C21", "deep_embedded", gen_dev, 150, rule="deep_embedded: weights vary and losses vary")
def deep_embedded(case, ctx):
    X, y, truth, sd, classes = stub_data({**case, "nd": False}, ctx)
    s = sd >= 0
    classes = tuple(sorted(classes))  # as classifiers order them
    stub = Stub(case["seed"], classes, case["scale"])
    steps = [("scaler", StandardScaler()), ("pca", PCA(2, random_state=0))]
    adapter = dict(subspace=skada.SubspaceAlignmentAdapter(n_components=1, random_state=0), coral=skada.CORALAdapter(reg=0.3)).get(case["steps"])
    if adapter is not None:
        # each side has its own features
        est = make_da_pipeline(adapter, stub.set_fit_request(sample_domain=True)).fit(X, mask_y(truth, sd), sample_domain=sd)
        F = est[:-1].transform(X, sample_domain=sd, allow_source=True)
        other = est[:-1].transform(X)
    else:
        steps = dict(none=[], scaler=steps[:1], scaler_pca=steps)[case["steps"]]
        est = Pipeline(steps + [("clf", stub)]).fit(X, truth)
        F = X
        for _, tr in steps:
            F = tr.transform(F)
        other = F
    classes_of = np.unique(classes)
    dc = dict(default=None, logreg=LogisticRegression(C=0.1), nb=GaussianNB())[case["clf"]]
    loss = dict(
        default=None,
        vector=lambda yt, yp: np.abs(1 - yp[np.arange(len(yt)), np.searchsorted(classes_of, yt)]) * (1 + yt),
        column=lambda yt, yp: (1 - yp[np.arange(len(yt)), np.searchsorted(classes_of, yt)])[:, None] ** 2,
    )[case["loss"]]
    sc = DeepEmbeddedValidation(domain_classifier=dc, loss_func=loss, random_state=case["rs"], greater_is_better=case["greater"])
    got = sc(est, X, y, sample_domain=sd)

    itr, iva = train_test_split(np.flatnonzero(s), test_size=0.33, random_state=np.random.RandomState(case["rs"]))

    def value(G):
        ref = clone(dc) if dc is not None else LogisticRegression()
        ref.fit(np.concatenate([G[itr], G[~s]]), np.r_[np.ones(len(itr)), np.zeros((~s).sum())])
        D = ref.predict_proba(G[iva])
        w = len(itr) / (~s).sum() * D[:, 0] / D[:, 1]
        P = stub.proba(F[iva])
        py = P[np.arange(len(iva)), np.searchsorted(classes_of, truth[iva])]
        L = dict(
            default=-np.log(np.clip(py, 1e-15, 1 - 1e-15)),
            vector=np.abs(1 - py) * (1 + truth[iva]),
            column=(1 - py) ** 2,
        )[case["loss"]]
        wl = w * L
        n = len(w)
        cov = ((wl - wl.mean()) * (w - w.mean())).sum() / (n - 1)
        var = ((w - w.mean()) ** 2).sum() / (n - 1)
        eta = -cov / var if var > 0 else 0.0
        return wl.mean() + eta * w.mean() - eta, var, eta, L

    exp, var, eta, L = value(F)
    if not np.isfinite(exp) or not (1e-9 < var < 1e12):
        ctx.label("degenerate")
        return
    if adapter is not None:
        e2, v2, eta2, _ = value(other)
        sign = 1 if case["greater"] else -1
        if not (1e-9 < v2 < 1e12):
            return
        if not np.isclose(got, sign * exp, rtol=1e-5, atol=1e-6 * max(1, abs(eta))) and np.isclose(got, sign * e2, rtol=1e-5, atol=1e-6 * max(1, abs(eta2))):
            ctx.fail("DeepEmbeddedValidation takes the features of source rows as if they were target rows", finding="dev-source-features")
            return
    ctx.close(got, exp if case["greater"] else -exp, "deep embedded validation", rtol=1e-5, atol=1e-6 * max(1, abs(eta)))
    if case["same"]:
        ctx.close(sc(est, X, y, sample_domain=sd), got, "the same random_state gives the same score", rtol=1e-12)
    ctx.hard(np.ptp(L) > 1e-6 and var > 1e-6)


# -------------------------------------------------------------- C21 circular


def gen_circ(draw):
    task = draw(pick("classif", "classif", "reg"))
    c = gen_problem(draw, max_sources=2, max_targets=2, min_n=6, max_n=18, task=task, label_sets=LABELS if task == "classif" else None)
    c["zero"] = draw(BOOL)
    c["greater"] = draw(BOOL)
    c["const"] = draw(ints(0, 3)) == 0
    c["base"] = draw(pick("logreg", "nb", "tree"))
    c["adapter"] = draw(pick("none", "coral", "reweight", "perdomain"))
    c["scorer"] = draw(pick("acc", "bacc", "own"))
    return c


def own_metric(a, b):
    """Not symmetric in its arguments."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    return float(np.mean(np.sin(a) * (a == b)) + 0.1 * np.mean(np.abs(a - 2 * b)))


def build_pipe(case):
    if case["task"] == "classif":
        base = dict(logreg=LogisticRegression(), nb=GaussianNB(), tree=DecisionTreeClassifier(random_state=0, max_depth=3))[case["base"]]
    else:
        base = Ridge(0.1)
    if case["adapter"] == "reweight":
        return make_da_pipeline(skada.DensityReweightAdapter(), base.set_fit_request(sample_weight=True))
    if case["adapter"] == "coral":
        return make_da_pipeline(StandardScaler(), skada.CORALAdapter(reg=0.1), base)
    if case["adapter"] == "perdomain":
        return make_da_pipeline(PerDomain(StandardScaler()), base)
    return make_da_pipeline(base)


@facet("C21", "circular", gen_circ, 60, shards=2, rule="circular: the backward estimator is fitted and its score is not perfect")
def circular(case, ctx):
    X, y, sd = make_problem(case)
    describe_problem(case, ctx)
    if case["zero"]:
        sd = np.where(sd == sd.max(), 0, sd)
    s = sd >= 0
    reg = case["task"] != "classif"
    if case["const"]:  # targets beyond every source row on one side
        X = X + 100.0 * (~s)[:, None]
    ym = mask_y(y, sd, case["task"])
    est = build_pipe(case).fit(X, ym, sample_domain=sd)
    metric = dict(acc=accuracy_score, bacc=balanced_accuracy_score, own=own_metric)[case["scorer"]]
    if reg:
        metric = own_metric if case["scorer"] == "own" else r2_score
    before = est.predict(X[~s], sample_domain=sd[~s])
    got = CircularValidation(source_scorer=metric, greater_is_better=case["greater"])(est, X, ym, sample_domain=sd)
    ctx.same(est.predict(X[~s], sample_domain=sd[~s]), before, "scoring leaves the estimator as it was")
    ctx.label("adapter=" + case["adapter"], "task=" + case["task"])
    if len(np.unique(before)) == 1:
        exp = metric(y[s], np.full(s.sum(), before[0]))
        ctx.label("constant")
    else:
        sdb = np.where(s, -sd - 101, -sd + 50)
        back = clone(est)
        yb = np.zeros(len(y), dtype=float if reg else int)
        if reg:
            yb[s], yb[~s] = np.nan, before
        else:
            vals, codes = np.unique(before, return_inverse=True)
            yb[s], yb[~s] = -1, codes
        back.fit(X, yb, sample_domain=sdb)
        pred = back.predict(X[s], sample_domain=sdb[s])
        if not reg:
            pred = vals[pred]
        exp = metric(y[s], pred)
        ctx.hard(len(np.unique(pred)) > 1 and (reg or (pred != y[s]).any()))
    ctx.close(got, exp if case["greater"] else -exp, "circular validation", rtol=1e-6, atol=1e-8)


# ---------------------------------------------------------------- C21 MixVal


def mixval_ref(est, Xt, alpha, seed, metric):
    p = np.random.RandomState(seed).permutation(len(Xt))
    a = est.label(Xt)
    b = a[p]
    M = alpha * Xt + (1 - alpha) * Xt[p]
    lab = a if alpha >= 0.5 else b
    hit = est.label(M)

    def part(idx):
        return metric(lab[idx], hit[idx]) if idx.any() else np.nan

    intra, inter = part(a == b), part(a != b)
    both = np.nanmean([intra, inter])
    return dict(intra=intra, inter=inter, both=both)


def gen_mix(draw):
    c = gen_stub(draw)
    c["alpha"] = draw(pick(0.0, 0.2, 0.45, 0.5, 0.55, 0.8, 1.0))
    c["ice"] = draw(pick("both", "both", "intra", "inter"))
    c["rs"] = draw(ints(0, 50))
    c["scoring"] = draw(pick("none", "callable"))
    return c


@facet("C21", "mixval", gen_mix, 200, rule="mixval: intra and inter scores differ and are not both perfect")
def mixval(case, ctx):
    X, y, truth, sd, classes = stub_data(case, ctx)
    est = Stub(case["seed"], classes, case["scale"])
    t = sd < 0

    def metric(a, b):
        return np.mean(a == b)

    def func(e, Xs, ys, sample_domain=None):
        ctx.expect((np.asarray(sample_domain) < 0).all() and len(sample_domain) == len(Xs), "mixed rows are target rows")
        # each mixed row is of the domain of the row with the larger share
        Xt, dt = np.asarray(X[t], float).reshape(t.sum(), -1), sd[t]
        p = np.random.RandomState(case["rs"]).permutation(len(Xt))
        mix = case["alpha"] * Xt + (1 - case["alpha"]) * Xt[p]
        dist = np.abs(np.asarray(Xs, float).reshape(len(Xs), 1, -1) - mix[None]).max(-1)
        owner = dt if case["alpha"] >= 0.5 else dt[p]
        for row, d in zip(dist, np.asarray(sample_domain)):
            match = np.flatnonzero(row < 1e-9)
            ctx.expect(d in owner[match] or case["alpha"] == 0.5 and d in dt[p][match],
                       f"a mixed row is scored as one of domain {d} instead of {owner[match]}")
        return 2 * metric(ys, e.label(Xs)) + 1

    sc = MixValScorer(alpha=case["alpha"], ice_type=case["ice"], scoring=func if case["scoring"] == "callable" else None,
                      greater_is_better=case["greater"], random_state=case["rs"])
    ref = mixval_ref(est, X[t], case["alpha"], case["rs"], metric)
    exp = ref[case["ice"]]
    if case["scoring"] == "callable":
        exp = 2 * exp + 1
    for _ in range(2):
        got = sc(est, X, y, sample_domain=sd)
        ctx.close(got, exp if case["greater"] else -exp, "mixval score", atol=1e-12)
    ctx.label("ice=" + case["ice"])
    ctx.hard(ref["intra"] != ref["inter"] and min(ref["intra"], ref["inter"]) < 1)


# ------------------------------------------------------------------ C21 MaNo


def gen_mano(draw):
    c = gen_stub(draw)
    c["p"] = draw(pick(1, 2, 3, 4, 0.5))
    c["threshold"] = draw(pick(-1, 0, 0.5, 1.0, 1.5, 3, 5, 1e9))
    c["deep"] = draw(BOOL)
    return c


@facet("C21", "mano", gen_mano, 200, rule="mano: predictions differ and the estimator is not uniform")
def mano(case, ctx):
    X, y, truth, sd, classes = stub_data(case, ctx)
    stub = Stub(case["seed"], classes, case["scale"])
    t = sd < 0
    sc = MaNoScorer(p=case["p"], threshold=case["threshold"], greater_is_better=case["greater"])
    if case["deep"]:
        L = stub.logits(X[t])
        if np.ptp(L, axis=1).min() == 0:
            ctx.label("degenerate")
            return
        seen = []

        def infer(Xi, **kw):
            seen.append(Xi)
            return torch.tensor(stub.logits(Xi))

        est = SimpleNamespace(module_=SimpleNamespace(layer_name="feature", eval=lambda: None), infer=infer, predict_proba=None)
        given = L.copy()
        logp = L - logsumexp(L, axis=1, keepdims=True)
        crit = np.inf if (np.exp(logp) == 0).any() else -logp.mean()
        if abs(crit - case["threshold"]) < 1e-9:
            return
        if crit > case["threshold"]:
            P = np.exp(logp)
        else:
            P = 1 + L + L**2 / 2
            P = P - P.min(axis=1, keepdims=True)
            P = P / P.sum(axis=1, keepdims=True)
            ctx.label("taylor")
            if not np.isfinite(P).all():
                return
        got = sc(est, X, y, sample_domain=sd)
        ctx.expect(len(seen) > 0, "the network is evaluated")
        for Xi in seen:
            ctx.same(Xi, X[t], "rows evaluated")
        ctx.same(L, given, "logits")
    else:
        est = Pipeline([("e", stub)])
        P = stub.proba(X[t])
        got = sc(est, X, y, sample_domain=sd)
        only_rows(ctx, stub.calls, X, sd, t, "MaNoScorer")
    exp = float(np.mean(P ** case["p"]) ** (1 / case["p"]))
    ctx.close(got, exp if case["greater"] else -exp, "MaNo score", rtol=1e-8, atol=1e-10)
    ctx.expect(-1e-9 <= abs(got) <= 1 + 1e-9, f"MaNo score {got} outside [0, 1]")
    ctx.hard(np.ptp(P) > 1e-3 and len(P) > 2)


# ----------------------------------------------- C21, C22 in cross validation

UNSUP = ["iw", "entropy", "snd", "dev", "circular", "mixval", "mano"]


def unsup(name):
    return dict(
        iw=lambda: ImportanceWeightedScorer(),
        entropy=lambda: PredictionEntropyScorer(reduction="sum"),
        snd=lambda: SoftNeighborhoodDensity(T=0.3),
        dev=lambda: DeepEmbeddedValidation(random_state=3),
        circular=lambda: CircularValidation(),
        mixval=lambda: MixValScorer(random_state=4),
        mano=lambda: MaNoScorer(),
    )[name]()


def gen_cv(draw):
    c = gen_problem(draw, max_sources=2, max_targets=2, min_n=14, max_n=24, label_sets=LABELS)
    c["base"] = draw(pick("logreg", "nb", "tree"))
    c["adapter"] = draw(pick("none", "scaler", "subspace", "reweight"))
    c["names"] = sorted(draw(st_subset()))
    c["multi"] = draw(BOOL)
    c["cv"] = draw(pick("stratdomain", "sourcetarget"))
    c["rs"] = draw(ints(0, 99))
    c["other"] = draw(pick("swap", "random", "const", "partial", "alien", "negative"))
    return c


def st_subset():
    from hypothesis import strategies as st

    return st.sets(st.sampled_from(UNSUP), min_size=1, max_size=4)


def cv_pipe(case):
    base = dict(
        logreg=LogisticRegression().set_fit_request(sample_weight=True),
        nb=GaussianNB().set_fit_request(sample_weight=True),
        tree=DecisionTreeClassifier(max_depth=3, random_state=0).set_fit_request(sample_weight=True),
    )[case["base"]].set_score_request(sample_weight=True)
    if case["adapter"] == "scaler":
        return make_da_pipeline(StandardScaler(), base)
    if case["adapter"] == "subspace":
        return make_da_pipeline(StandardScaler(), skada.SubspaceAlignmentAdapter(n_components=2, random_state=0), base)
    if case["adapter"] == "reweight":
        return make_da_pipeline(skada.GaussianReweightAdapter(), base)
    return make_da_pipeline(base)


def splitter(case):
    if case["cv"] == "stratdomain":
        return StratifiedDomainShuffleSplit(n_splits=2, test_size=0.5, random_state=case["rs"])
    return SourceTargetShuffleSplit(n_splits=2, test_size=0.5, random_state=case["rs"])


def other_labels(case, y, sd):
    t = sd < 0
    lab = np.unique(y)
    out = y.copy()
    if case["other"] == "swap":
        out[t] = lab[(np.searchsorted(lab, y[t]) + 1) % len(lab)]
    elif case["other"] == "random":
        out[t] = lab[rng(case["seed"], 8).randint(len(lab), size=t.sum())]
    elif case["other"] == "partial":
        out[t & (rng(case["seed"], 8).rand(len(y)) < 0.5)] = -1
    elif case["other"] == "alien":
        out[t] = lab.max() + 3
    elif case["other"] == "negative":
        out[t] = -2
    else:
        out[t] = lab[0]
    return out


@facet("C21", "cross_validate", gen_cv, 25, shards=2, rule="cross_validate: a supervised score strictly between 0 and 1")
def cv_scores(case, ctx):
    """cross_validate reports what the scorer gives on the fitted estimator and test rows."""
    X, y, sd = make_problem(case)
    describe_problem(case, ctx)
    ym = mask_y(y, sd)
    pipe = cv_pipe(case)
    names = [n for n in case["names"] if not (n == "dev" and case["adapter"] == "subspace")]
    scoring = {n: unsup(n) for n in names}
    scoring["sup"] = SupervisedScorer()
    runs = [scoring] if case["multi"] else [{n: s} for n, s in scoring.items()]
    for run in runs:
        only = len(run) == 1
        params = {"sample_domain": sd}
        if "sup" in run:
            params["target_labels"] = y
        res = cross_validate(pipe, X, ym, cv=splitter(case), scoring=list(run.values())[0] if only else run,
                             params=params, return_estimator=True, return_indices=True, error_score="raise")
        for f, (est, te) in enumerate(zip(res["estimator"], res["indices"]["test"])):
            for n in run:
                got = res["test_score" if only else f"test_{n}"][f]
                if n == "sup":
                    tt = te[sd[te] < 0]
                    exp = np.mean(est.predict(X[tt], sample_domain=sd[tt]) == y[tt])
                    ctx.hard(0 < exp < 1)
                else:
                    exp = unsup(n)(est, X[te], ym[te], sample_domain=sd[te])
                ctx.close(got, exp, f"score {n} of fold {f}", rtol=1e-7, atol=1e-9)
    ctx.label(*names)


# ------------------------------------------------------------------------ C22


def gen_secret(draw):
    c = gen_cv(draw)
    c["names"] = [draw(pick(*[u for u in UNSUP if u != "circular"]))]
    c["mode"] = draw(pick("direct", "direct", "cross_validate", "grid"))
    if c["mode"] != "direct":
        c["names"] = [draw(pick(*UNSUP))]
    return c


@facet("C22", "target_labels", gen_secret, 70, shards=3, rule="target_labels: the replaced labels differ from the true ones")
def secret(case, ctx):
    """Unsupervised scores do not change with the labels of target rows."""
    X, y, sd = make_problem(case)
    describe_problem(case, ctx)
    ym, yo = mask_y(y, sd), other_labels(case, y, sd)
    ctx.hard((yo != y).any())
    n = case["names"][0]
    if n == "dev" and case["adapter"] == "subspace":
        n = "snd"
    ctx.label(case["mode"], n)
    pipe = cv_pipe(case)
    if case["mode"] == "direct":
        pipe.fit(X, ym, sample_domain=sd)
        ref = unsup(n)(pipe, X, ym, sample_domain=sd)
        kinds = ("partial", "alien", "swap", "random")
        for what, yy in [("true", y), (case["other"], yo)] + [(o, other_labels({**case, "other": o}, y, sd)) for o in kinds]:
            ctx.close(unsup(n)(pipe, X, yy, sample_domain=sd), ref, f"{n} with {what} target labels in y", rtol=1e-12, atol=0)
        ctx.close(unsup(n)(pipe, X, ym, sample_domain=sd), ref, f"{n} is deterministic", rtol=1e-12, atol=0)
        return
    known = other_labels({**case, "other": "swap"}, y, sd) if case["other"] in ("partial", "negative") else yo
    ys = [("masked", ym, None), ("target_labels true", ym, y), ("target_labels wrong", ym, known)]
    if n != "circular":
        ys += [("y true", y, None), ("y wrong", yo, None)]
    outs = []
    for what, yy, tl in ys:
        # a second, supervised scorer needs target_labels; it must not leak
        scoring = {"u": unsup(n)}
        params = {"sample_domain": sd}
        if tl is not None:
            scoring["sup"] = SupervisedScorer()
            params["target_labels"] = tl
        if case["mode"] == "cross_validate":
            cvr = splitter(case) if what.startswith(("masked", "target")) else list(splitter(case).split(X, ym, sd))
            res = cross_validate(pipe, X, yy, cv=cvr, scoring=scoring, params=params, error_score="raise")
            outs.append((what, res["test_u"]))
        else:
            last = pipe.steps[-1][0]
            grid = dict(
                logreg={f"{last}__C": [0.01, 1.0]},
                nb={f"{last}__var_smoothing": [1e-9, 1.0]},
                tree={f"{last}__max_depth": [1, 3]},
            )[case["base"]]
            cvr = list(splitter(case).split(X, ym, sd))
            gs = GridSearchCV(pipe, grid, cv=cvr, scoring=scoring, refit="u", error_score="raise")
            gs.fit(X, yy, **params)
            outs.append((what, gs.cv_results_["mean_test_u"]))
            best = gs.cv_results_["params"][int(np.argmax(gs.cv_results_["mean_test_u"]))]
            ctx.expect(gs.best_params_ == best, "GridSearchCV selects the largest score")
    for what, v in outs[1:]:
        ctx.close(v, outs[0][1], f"{case['mode']} with {n}: {what} against masked", rtol=1e-9, atol=1e-12)

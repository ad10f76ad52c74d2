"""C18 DASVM, C19 gradual adaptation."""

import math

import numpy as np
import ot
from sklearn.base import clone
from sklearn.linear_model import LogisticRegression
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KNeighborsClassifier
from sklearn.neural_network import MLPClassifier
from sklearn.svm import SVC

import skada
from skada import DASVMClassifier
from skada._gradual_da import GradualEstimator

from ..core import facet
from ..gens import BOOL, describe_problem, gen_problem, ints, make_problem, mask_y, pick, rng

LOG = []


def _rec(cls):
    def fit(self, X, y):
        cls.fit(self, X, y)
        # deepcopied or refitted models are not the one of this step
        LOG.append((np.array(X), np.array(y), clone(self), self))
        return self

    return type("Rec" + cls.__name__, (cls,), dict(fit=fit, __init__=cls.__init__, __module__=__name__))


RecSVC, RecLogistic, RecNB, RecKNN = _rec(SVC), _rec(LogisticRegression), _rec(GaussianNB), _rec(KNeighborsClassifier)


# ------------------------------------------------------------ C18 DASVM


def gen_dasvm(draw):
    c = gen_problem(draw, max_sources=2, max_targets=2, min_n=6, max_n=24, classes=(2, 2),
                    label_sets=[[0, 1], [1, 2], [7, 3]])
    c["base"] = draw(pick("linear", "rbf", "logreg"))
    c["C"] = draw(pick(0.05, 0.3, 1.0))
    c["kk"] = draw(ints(1, 4))
    c["max_iter"] = draw(pick(1, 2, 3, 5, 1000))
    c["save"] = draw(pick("both", "both", "indices", "estimators", "none"))
    c["targets"] = draw(pick("masked", "true"))
    c["again"] = draw(pick("no", "same", "other"))
    return c


def _base(case):
    if case["base"] == "logreg":
        return RecLogistic(C=case["C"])
    return RecSVC(kernel=case["base"], C=case["C"])


class _OneClass(Exception):
    pass


def _extremes(df, rows, k):
    """k times, the rows of `rows` with the largest and the smallest value."""
    out, left = [], list(rows)
    for _ in range(min(k, math.ceil(len(rows) / 2))):
        if not left:
            break
        hi = max(left, key=lambda q: df[q])
        lo = min(left, key=lambda q: df[q])
        for q in {hi, lo}:
            out.append(q)
            left.remove(q)
    return out


@facet("C18", "history", gen_dasvm, 200, shards=4,
       rule="history: at least four models are fitted")
def history(case, ctx):
    X, y, sd = make_problem(case)
    describe_problem(case, ctx)
    s = sd >= 0
    Xs, ys, Xt = X[s], y[s], X[~s]
    n, m = len(Xs), len(Xt)
    base = _base(case)
    model = DASVMClassifier(base, k=case["kk"], max_iter=case["max_iter"],
                            save_estimators=case["save"] in ("both", "estimators"),
                            save_indices=case["save"] in ("both", "indices"))
    yin = y if case["targets"] == "true" else mask_y(y, sd)
    ctx.label(f"fitted before={case['again']}")
    if case["again"] != "no":
        # a fit forgets the one before
        k = len(X) if case["again"] == "same" else max(len(X) - 2, 1)
        flip = 1 if case["again"] == "same" else -1
        try:
            model.fit(flip * X[:k], yin[:k], sample_domain=sd[:k])
        except ValueError:
            pass
    LOG.clear()
    try:
        ret = model.fit(X, yin, sample_domain=sd)
        failed = None
    except ValueError as e:
        if "class" not in str(e):
            raise
        failed = e  # a training set with one class: checked below
    log = list(LOG)
    deleted, added = [], []
    hist = [(np.zeros(n, bool), np.zeros(m, bool))]
    pos = 0

    def take(A, b, what):
        nonlocal pos
        if failed is not None and pos == len(log):
            if len(np.unique(b)) > 1:
                ctx.fail(f"fit failed though the next training set has two classes: {failed}")
            raise _OneClass
        if pos >= len(log):
            ctx.fail(f"no model was fitted for {what}")
        fx, fy, _, est = log[pos]
        ctx.same(fx, A, f"rows of {what}")
        ctx.same(fy, b, f"labels of {what}")
        pos += 1
        return est

    def mask(idx, size):
        out = np.zeros(size, bool)
        out[list(idx)] = True
        return out

    try:
        est = take(Xs, ys, "the first model")
        ds, dt = est.decision_function(Xs), est.decision_function(Xt)
        deleted += _extremes(ds, range(n), case["kk"])
        margin = [q for q in range(m) if 0 < abs(dt[q]) < 1]
        added += _extremes(dt, margin, case["kk"])
        hist.append((mask(deleted, n), mask(added, m)))
        for i in range(1, case["max_iter"]):
            if not margin:
                break
            md, ma = mask(deleted, n), mask(added, m)
            old = est
            semi = old.predict(Xt[ma]) if ma.any() else np.zeros(0, int)
            est = take(np.concatenate([Xs[~md], Xt[ma]]), np.concatenate([ys[~md], semi]), f"model {i}")
            added = [q for q in added if est.predict(Xt[[q]])[0] == old.predict(Xt[[q]])[0]]
            left = [q for q in range(n) if q not in deleted]
            if left:
                ds = est.decision_function(Xs)
                deleted += _extremes(ds, left, case["kk"])
            dt = est.decision_function(Xt)
            margin = [q for q in range(m) if q not in added and 0 < abs(dt[q]) < 1]
            added += _extremes(dt, margin, case["kk"])
            hist.append((mask(deleted, n), mask(added, m)))
        if min([abs(abs(v) - 1) for v in dt] + [1]) < 1e-9:
            return
        final = take(Xt, est.predict(Xt), "the last model")
    except _OneClass:
        ctx.label("one class left")
        return
    ctx.hard(len(log) > 3)
    ctx.label(f"models={min(len(log), 8)}")
    ctx.expect(ret is model, "fit does not return self")
    ctx.expect(pos == len(log), f"{len(log)} models were fitted instead of {pos}")
    hist.append((np.ones(n, bool), np.ones(m, bool)))
    if case["save"] in ("both", "indices"):
        ctx.expect(len(model.indices_source_deleted) == len(model.indices_target_added) == len(hist),
                   f"{len(model.indices_source_deleted)} saved steps instead of {len(hist)}")
        for i, (a, b) in enumerate(hist):
            ctx.same(model.indices_source_deleted[i], a, f"source rows discarded at step {i}")
            ctx.same(model.indices_target_added[i], b, f"target rows added at step {i}")
    if case["save"] in ("both", "estimators"):
        ctx.expect(len(model.estimators) == len(log), "number of saved models")
        for i, e in enumerate(model.estimators):
            ctx.same(e.decision_function(X), log[i][3].decision_function(X), f"saved model {i}")
    ctx.expect(not hasattr(base, "classes_"), "the base estimator given was fitted")
    ctx.same(model.predict(Xt), final.predict(Xt), "predict")
    ctx.same(model.decision_function(X), final.decision_function(X), "decision_function")
    ctx.close(model.score(Xt, y[~s]), np.mean(final.predict(Xt) == y[~s]), "score")


def gen_api(draw):
    c = gen_dasvm(draw)
    c["max_iter"] = draw(pick(2, 5))
    c["base"] = draw(pick("default", "logreg", "svc", "proba"))
    c["pipe"] = draw(BOOL)
    return c


@facet("C18", "api", gen_api, 50, shards=2, rule="api: within a pipeline")
def api(case, ctx):
    X, y, sd = make_problem(case)
    describe_problem(case, ctx)
    ctx.hard(case["pipe"])
    base = {"default": None, "logreg": LogisticRegression(), "svc": SVC(), "proba": SVC(probability=True, random_state=0)}[case["base"]]
    model = DASVMClassifier(base, k=case["kk"], max_iter=case["max_iter"])
    t = sd < 0
    ym = mask_y(y, sd)
    ref = clone(model)
    try:
        ref.fit(X, ym, sample_domain=sd)
    except ValueError as e:
        if "class" in str(e):
            return
        raise
    est = skada.make_da_pipeline(model) if case["pipe"] else clone(model)
    est.fit(X, y if case["pipe"] else ym, sample_domain=sd)
    ctx.same(est.predict(X[t]), ref.predict(X[t]), "predictions")
    if case["base"] == "svc":
        ctx.expect(not hasattr(model, "predict_proba"), "predict_proba follows the base estimator")
    else:
        p = ref.predict_proba(X[t])
        ctx.close(p.sum(1), np.ones(t.sum()), "probabilities")
        ctx.same(ref.predict_proba(X[t]), ref.base_estimator_.predict_proba(X[t]), "predict_proba")
    ctx.expect(np.isin(ref.predict(X), y).all(), "predicted labels")


# ------------------------------------------------------------ C19 gradual


def gen_gradual(draw):
    c = gen_problem(draw, max_sources=2, max_targets=2, min_n=5, max_n=9, classes=(2, 3),
                    label_sets=[[0, 1, 2], [1, 2, 3], [9, 4, 6]])
    c["base"] = draw(pick("logreg", "logreg", "nb", "knn", "svc"))
    c["ot"] = draw(pick("default", "sinkhorn", "emd"))
    c["alpha"] = draw(pick(0.2, 0.5, 1, 1, 1.7, 50))
    c["steps"] = draw(pick(1, 2, 3, 5))
    c["advanced"] = draw(BOOL)
    c["save"] = draw(BOOL)
    c["targets"] = draw(pick("masked", "masked", "true"))
    return c


@facet("C19", "steps", gen_gradual, 150, shards=3, rule="steps: several steps and interleaved rows or several domains")
def steps(case, ctx):
    X, y, sd = make_problem(case)
    X = X / X.std()
    describe_problem(case, ctx)
    ctx.hard(case["steps"] > 1 and (case["order"] != "stacked" or len(case["domains"]) > 2))
    ctx.label(case["base"], case["ot"], f"advanced={case['advanced']}")
    s = sd >= 0
    yin = y if case["targets"] == "true" else mask_y(y, sd)
    base = {"logreg": RecLogistic(max_iter=300), "nb": RecNB(), "knn": RecKNN(1), "svc": RecSVC(kernel="rbf")}[case["base"]]
    otm = {"default": None, "sinkhorn": ot.da.SinkhornTransport(reg_e=0.7), "emd": ot.da.EMDTransport()}[case["ot"]]
    kw = {} if otm is None else dict(ot_method=otm)
    N = case["steps"]
    model = GradualEstimator(alpha=case["alpha"], n_steps=N, base_estimator=base, advanced_ot_plan_sampling=case["advanced"],
                             save_estimators=case["save"], save_intermediate_data=case["save"], **kw)
    plan = ot.da.SinkhornTransport(reg_e=1.0, metric="sqeuclidean", norm=None, max_iter=1000, tol=1e-8) if otm is None else clone_ot(otm)
    LOG.clear()
    try:
        ret = model.fit(X, yin, sample_domain=sd)
    except ValueError as e:
        if "class" in str(e):  # the predictions collapsed to one class
            ctx.label("one class left")
            return
        raise
    log = list(LOG)
    ctx.expect(ret is model, "fit does not return self")
    ctx.expect(len(log) == N + 1, f"{len(log)} fits instead of {N + 1}")
    ctx.expect(not hasattr(base, "classes_") and (otm is None or not hasattr(otm, "coupling_")),
               "the estimators given were fitted")
    ctx.same(log[0][0], X[s], "rows of the source model")
    ctx.same(log[0][1], y[s], "labels of the source model")
    S, T = X[s], X[~s]
    n, m = len(S), len(T)
    G = plan.fit(Xs=S, Xt=T).coupling_
    pairs = np.array([(i, j) for i in range(n) for j in range(m)])

    def points(step):
        w = step / N
        return (1 - w) * S[pairs[:, 0]] + w * T[pairs[:, 1]]

    def match(A, step):
        """For each row of A, the pair it comes from."""
        D = ((A[:, None] - points(step)[None]) ** 2).sum(-1)
        k = D.argmin(1)
        ctx.expect(D[np.arange(len(A)), k].max() < 1e-16, f"rows of step {step} are not on the segments between source and target")
        return k

    if N > 1:
        k = match(log[1][0], 1)
        ctx.expect(len(set(k)) == len(k), "a pair is used twice")
        mask = np.zeros(n * m, bool)
        mask[k] = True
        mask = mask.reshape(n, m)
        eps = 1e-6 * G.max()
        if case["advanced"]:
            ctx.expect(mask.any(0).all() and mask.any(1).all(), "a row or a column of the plan has no pair")
            top = (G >= G.max(1, keepdims=True) - eps) | (G >= G.max(0, keepdims=True) - eps)
            ctx.expect(not (mask & ~top).any(), "a pair is neither the largest of its row nor of its column")
            sure_r = (G >= G.max(1, keepdims=True) - eps).sum(1) == 1
            sure_c = (G >= G.max(0, keepdims=True) - eps).sum(0) == 1
            for i in np.nonzero(sure_r)[0]:
                ctx.expect(mask[i, G[i].argmax()], f"the largest pair of source row {i} is missing")
            for j in np.nonzero(sure_c)[0]:
                ctx.expect(mask[G[:, j].argmax(), j], f"the largest pair of target row {j} is missing")
        else:
            want = min(case["alpha"] * (n + m), n * m)
            ctx.expect(want - 1 <= mask.sum() <= want + 1, f"{mask.sum()} pairs instead of {want}")
            if not mask.all():
                ctx.expect(G[mask].min() >= G[~mask].max() - eps, "the pairs kept are not those of the largest mass")
        for step in range(1, N + 1):
            P = points(step)[k]
            A = log[step][0]
            ctx.expect(A.shape == P.shape, f"{A.shape} rows at step {step}")
            if not np.allclose(A, P, atol=1e-9):
                o1, o2 = np.lexsort(np.round(A, 7).T), np.lexsort(np.round(P, 7).T)
                ctx.close(A[o1], P[o2], f"rows of step {step}", atol=1e-6)
    else:
        match(log[1][0], 1)
    for step in range(1, N + 1):
        A, b = log[step][0], log[step][1]
        # the model of the step before, fitted again on what it was given
        prev = log[step - 1]
        ref = prev[2].fit(prev[0], prev[1])
        LOG.clear()
        ctx.expect(np.mean(ref.predict(A) == b) > 0.999 or case["base"] == "logreg" and np.mean(ref.predict(A) == b) > 0.9,
                   f"labels of step {step} are not the predictions of the model before")
    last = log[-1][2].fit(log[-1][0], log[-1][1])
    if case["base"] != "logreg":
        ctx.same(model.predict(X), last.predict(X), "predictions of the last model")
    ctx.close(model.score(T, y[~s]), np.mean(model.predict(T) == y[~s]), "score")
    if case["base"] == "svc":
        ctx.raises((ValueError, AttributeError), lambda: model.predict_proba(T), "predict_proba without a base that has it")
        ctx.raises((ValueError, AttributeError), lambda: model.predict_log_proba(T), "predict_log_proba without a base that has it")
    elif case["base"] == "knn":
        ctx.same(model.predict_proba(T), last.predict_proba(T), "predict_proba")
    else:
        ctx.close(np.log(np.maximum(model.predict_proba(T), 1e-300)), np.maximum(model.predict_log_proba(T), np.log(1e-300)),
                  "log-probabilities", rtol=1e-6, atol=1e-6)
        ctx.same(model.base_estimator_.classes_[model.predict_proba(T).argmax(1)], model.predict(T), "most probable class")
    if case["save"]:
        ctx.expect(len(model.get_intermediate_estimators()) == N + 1, "number of saved models")
        ctx.expect(len(model.intermediate_data_) == N, "number of saved data sets")
        for i in range(N):
            ctx.same(model.intermediate_data_[i][0], log[i + 1][0], f"saved rows of step {i + 1}")
            ctx.same(model.intermediate_data_[i][1], log[i + 1][1], f"saved labels of step {i + 1}")
            ctx.same(model.estimators_[i].predict(log[i + 1][0]), log[i + 1][1], f"saved model {i} predicts the labels of step {i + 1}")
        ctx.same(model.estimators_[-1].predict(X), model.predict(X), "the last saved model")


def clone_ot(o):
    from copy import deepcopy

    return deepcopy(o)


def gen_default(draw):
    c = gen_problem(draw, max_sources=1, max_targets=1, min_n=6, max_n=8, classes=(2, 2))
    c["base"] = draw(pick("default", "mlp"))
    c["twice"] = draw(BOOL)
    return c


@facet("C19", "network", gen_default, 6, shards=2, rule="network: fitted twice with the same seed")
def network(case, ctx):
    X, y, sd = make_problem(case)
    ctx.hard(case["twice"])
    ym = mask_y(y, sd)
    if case["base"] == "mlp":
        base = MLPClassifier(hidden_layer_sizes=(5,), max_iter=20, random_state=0)
    else:
        base = None

    def run(model):
        np.random.seed(3)
        model.fit(X, ym, sample_domain=sd)
        return model.predict_proba(X)

    model = GradualEstimator(n_steps=2, base_estimator=base)
    a = run(model)
    if base is not None:
        ctx.expect(base.max_iter == 20 and not hasattr(base, "coefs_"), "the base estimator given was changed")
    ctx.close(a.sum(1), np.ones(len(X)), "probabilities")
    if case["twice"]:
        ctx.close(run(model), a, "fitting again gives another model")
        ctx.close(run(clone(model)), a, "the clone gives another model")

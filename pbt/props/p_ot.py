"""C16 joint distribution OT, C17 label propagation by OT."""

import numpy as np
import ot
from sklearn.base import BaseEstimator, clone
from sklearn.kernel_ridge import KernelRidge
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.metrics import accuracy_score, r2_score
from sklearn.naive_bayes import GaussianNB
from sklearn.svm import SVC, LinearSVC

import skada
from skada import JCPOTLabelPropAdapter, JDOTClassifier, JDOTRegressor, OTLabelPropAdapter
from skada._ot import (
    get_data_jdot_class,
    get_jdot_class_cost_matrix,
    get_tgt_loss_jdot_class,
    solve_jdot_classification,
    solve_jdot_regression,
)

from ..core import facet
from ..factories import parameters
from ..gens import BOOL, SEED, describe_problem, gen_problem, ints, make_problem, mask_y, pick, rng
from .p_mapping import _lp_plan, _sq

LOG = []


def _rec(cls):
    """A subclass of cls that records what every fit was given."""

    def fit(self, X, y, sample_weight=None):
        LOG.append((np.array(X), np.array(y), None if sample_weight is None else np.array(sample_weight)))
        return cls.fit(self, X, y) if sample_weight is None else cls.fit(self, X, y, sample_weight=sample_weight)

    init = cls.__init__
    return type("Rec" + cls.__name__, (cls,), dict(fit=fit, __init__=init, __module__=__name__))


RecRidge, RecLinear, RecKernelRidge = _rec(Ridge), _rec(LinearRegression), _rec(KernelRidge)
RecLogistic, RecNB, RecSVC = _rec(LogisticRegression), _rec(GaussianNB), _rec(SVC)


class _Stub(BaseEstimator):
    """Predicts fixed rows, looked up by the first feature."""

    def __init__(self, table=None):
        self.table = table

    def _get(self, X):
        return self.table[np.asarray(X)[:, 0].astype(int)]


class LogProba(_Stub):
    def predict_log_proba(self, X):
        return np.log(self._get(X))

    def predict_proba(self, X):
        return self._get(X)


class Proba(_Stub):
    def predict_proba(self, X):
        return self._get(X)


class Decision(_Stub):
    def decision_function(self, X):
        return self._get(X)


# ------------------------------------------------- C16 building blocks


def gen_blocks(draw):
    return dict(n=draw(ints(1, 5)), m=draw(ints(1, 5)), k=draw(ints(2, 4)), seed=draw(SEED),
                est=draw(pick("log", "proba", "decision", "none")),
                thr=draw(pick(1e-6, 0.1, 0.5)), d=draw(ints(1, 3)),
                wrong=draw(pick(False, False, False, "metric", "kind")))


@facet("C16", "blocks", gen_blocks, 300, shards=2, rule="blocks: at least three classes, or a one-column decision function")
def blocks(case, ctx):
    r = rng(case["seed"], 1)
    n, m, k = case["n"], case["m"], case["k"]
    Y = np.eye(k)[r.randint(k, size=n)]
    X = np.c_[np.arange(m, dtype=float), r.normal(size=(m, case["d"] - 1))]
    est = case["est"]
    P = r.dirichlet(np.ones(k), size=m) if est != "decision" else r.normal(size=(m, k)) * 2
    one = est == "decision" and k == 2
    ctx.hard(k > 2 or one)
    ctx.label(est)
    kind = dict(log=LogProba, proba=Proba, decision=Decision, none=Decision)[est]
    e = kind(P[:, 1] if one else P)
    metric = "hinge" if est == "decision" else "multinomial"
    wh = r.uniform(0.1, 2, size=m)
    yh = np.eye(k)[r.randint(k, size=m)]
    if case["wrong"] and est != "none":
        other = "hinge" if metric == "multinomial" else "multinomial"
        bad = "mse" if case["wrong"] == "metric" else other
        ctx.raises(ValueError, lambda: get_jdot_class_cost_matrix(Y, X, e, metric=bad), f"cost of {est} with {bad}")
        ctx.raises(ValueError, lambda: get_tgt_loss_jdot_class(X, yh, wh, e, metric=bad), f"loss of {est} with {bad}")
        return
    if est == "none":
        M = get_jdot_class_cost_matrix(Y, X, None, metric=metric)
        ctx.expect(M.shape == (n, m) and np.ptp(M) == 0, "cost of a constant prediction")
        return
    F = np.stack([-P[:, 1], P[:, 1]], 1) if one else P

    def cost(yrow, j):
        c = int(np.argmax(yrow))
        if metric == "multinomial":
            return -np.log(F[j, c])
        return sum(max(0.0, 1 - (1 if q == c else -1) * F[j, q]) for q in range(k))

    M = get_jdot_class_cost_matrix(Y, X, e, metric=metric)
    ref = np.array([[cost(Y[i], j) for j in range(m)] for i in range(n)])
    ctx.close(M, ref, "label cost between source labels and target predictions", rtol=1e-7, atol=1e-9)
    loss = get_tgt_loss_jdot_class(X, yh, wh, e, metric=metric)
    ctx.close(loss, sum(wh[j] * cost(yh[j], j) for j in range(m)), "weighted loss on the target", rtol=1e-7, atol=1e-9)
    # splitting target rows into weighted candidates
    Yt = r.dirichlet(np.ones(k) * 0.5, size=m)
    labels = np.sort(r.choice(50, size=k, replace=False)) - 5
    Xh, yy, ww = get_data_jdot_class(X, Yt, labels, thr_weights=case["thr"])
    want = [(tuple(X[j]), labels[c], Yt[j, c]) for j in range(m) for c in range(k) if Yt[j, c] > case["thr"] * Yt.max()]
    got = [(tuple(a), b, c) for a, b, c in zip(Xh, yy, ww)]
    ctx.expect(sorted(got) == sorted(want), f"weighted target samples {got} instead of {want}")


# ------------------------------------------------- C16 the solvers


def gen_jdot(draw, task):
    c = gen_problem(draw, max_sources=2, max_targets=2, min_n=5, max_n=10, task=task, classes=(2, 3),
                    label_sets=[[0, 1, 2], [1, 2, 3], [3, 5, 9]] if task == "classif" else None)
    c["alpha"] = draw(pick(0.1, 0.5, 0.5, 0.9, 0.0))
    c["iters"] = draw(pick(1, 2, 4, 8))
    c["tol"] = draw(pick(1e-10, 1e-3, 1e-1))
    c["weights"] = draw(pick("none", "none", "random"))
    c["base"] = draw(pick("a", "b", "c"))
    c["via"] = draw(pick("function", "estimator", "estimator"))
    if task == "classif":
        c["thr"] = draw(pick(1e-6, 0.05))
    return c


def _setup(case, ctx, base):
    X, y, sd = make_problem(case)
    r = rng(case["seed"], 5)
    s = sd >= 0
    w = r.uniform(0.2, 2.0, size=len(X)) if case["weights"] == "random" else None
    describe_problem(case, ctx)
    LOG.clear()
    before = clone(base)
    yin = y.copy()
    if case["task"] == "classif":
        yin[~s] = -1
        yin[~s] = r.choice([-1, yin[s][0]], size=(~s).sum()) if case["seed"] % 2 else -1
    else:
        yin[~s] = np.nan if case["seed"] % 2 else 1e6
    return X, y, yin, sd, s, w, before


def _call(case, cls, solve, base, X, yin, sd, s, w, extra, kw):
    """Returns (estimator, losses OT, losses target, plan, model or None)."""
    common = dict(alpha=case["alpha"], n_iter_max=case["iters"], tol=case["tol"], **extra)
    if case["via"] == "function":
        est, l1, l2, sol = solve(base, X[s], yin[s], X[~s], ws=None if w is None else w[s], wt=None if w is None else w[~s],
                                 **common, **kw)
        return est, l1, l2, sol.plan, None
    model = cls(base, **common, **kw)
    ret = model.fit(X, yin, sd, sample_weight=w) if w is not None else model.fit(X, yin, sample_domain=sd)
    if ret is not model:
        raise AssertionError("fit does not return self")
    return model.estimator_, model.lst_loss_ot_, model.lst_loss_tgt_labels_, model.sol_.plan, model


def _optimal(ctx, P, a, b, M, msg):
    ctx.close(P.sum(1), a, f"{msg}: source marginal of the plan", atol=1e-9)
    ctx.close(P.sum(0), b, f"{msg}: target marginal of the plan", atol=1e-9)
    best = (ot.emd(a, b, M) * M).sum()
    ctx.close((P * M).sum(), best, f"{msg}: cost of the plan", rtol=1e-7, atol=1e-10)


def _stop(l1, l2, tol):
    """Whether the loop stops now, and whether that is decided by a margin."""
    if len(l1) < 2:
        return False, True
    d = [abs(l1[-1] - l1[-2]), abs(l2[-1] - l2[-2])]
    sure = all(abs(v - tol) > 1e-6 * max(1.0, abs(l1[-1])) * 1e-3 for v in d)
    return min(d) < tol, sure


@facet("C16", "regression", lambda draw: gen_jdot(draw, "reg"), 120, shards=2,
       rule="regression: at least two iterations and interleaved rows or weights")
def regression(case, ctx):
    base = {"a": RecRidge(alpha=0.5), "b": RecLinear(), "c": RecKernelRidge(alpha=0.3, kernel="rbf")}[case["base"]]
    X, y, yin, sd, s, w, before = _setup(case, ctx, base)
    est, l1, l2, plan, model = _call(case, JDOTRegressor, solve_jdot_regression, base, X, yin, sd, s, w, {}, {})
    fits = list(LOG)
    ctx.expect(len(fits) == len(l1) == len(l2), "one fit and one pair of losses per iteration")
    ctx.expect(not hasattr(base, "n_features_in_"), "the base estimator given was fitted")
    Xs, ys, Xt = X[s], y[s], X[~s]
    a = np.full(len(Xs), 1 / len(Xs)) if w is None else w[s] / w[s].sum()
    b = np.full(len(Xt), 1 / len(Xt)) if w is None else w[~s] / w[~s].sum()
    Mf = _sq(Xs, Xt)
    Mf = Mf / Mf.mean()
    al = case["alpha"]
    Ml = np.repeat(ys[:, None] ** 2, len(Xt), 1)
    r1, r2 = [], []
    for i in range(case["iters"]):
        M = (1 - al) * Mf + (al * Ml if i else 0)
        P = ot.emd(a, b, M)
        if abs((P * M).sum() - ((1 - al) * Mf * P).sum() - (al * (Ml * P).sum() if i else 0)) > 1e-9:
            return
        r1.append((((1 - al) * Mf + al * Ml) * P).sum())
        yth = ys @ P / b
        if i >= len(fits):
            ctx.fail(f"stopped after {len(fits)} iterations, losses {l1} {l2} (tol {case['tol']})")
        fx, fy, fw = fits[i]
        ctx.same(fx, Xt, f"rows the model is fitted on at iteration {i}")
        if not np.allclose(fy, yth, rtol=1e-6, atol=1e-7 * max(1, np.abs(ys).max())):
            # other optimal plans: certify the final one only
            if i == len(fits) - 1:
                _optimal(ctx, plan, a, b, M, "last iteration")
                ctx.close(fy, ys @ plan / b, "transported labels", rtol=1e-6, atol=1e-7)
            if al == 0 or i == 0:
                ctx.fail(f"labels transported at iteration {i}: {fy} instead of {yth}")
            ctx.label("several optimal plans")
            return
        ctx.expect((fw is None) == (w is None), "weights given to the base estimator")
        if w is not None:
            ctx.close(fw / fw.sum(), b, "target weights given to the base estimator", rtol=1e-9)
        ref = clone(before)
        ref = ref.fit(Xt, yth) if w is None else ref.fit(Xt, yth, sample_weight=w[~s])
        p = ref.predict(Xt)
        Ml = (ys[:, None] - p[None]) ** 2
        r2.append(np.mean((yth - p) ** 2))
        stop, sure = _stop(r1, r2, case["tol"])
        if not sure:
            return
        if stop:
            break
    ctx.hard(len(r1) > 1 and (w is not None or case["order"] != "stacked"))
    ctx.close(l1, r1, "OT losses", rtol=1e-6, atol=1e-7)
    ctx.close(l2, r2, "target losses", rtol=1e-5, atol=1e-6)
    ctx.close(plan, P, "plan", atol=1e-8)
    ctx.close(est.predict(X), ref.predict(X), "predictions of the fitted model", rtol=1e-5, atol=1e-6)
    if model is not None:
        ctx.same(model.predict(X[~s], sample_domain=sd[~s]), est.predict(X[~s]), "predict")
        ww = None if w is None else w[~s]
        ctx.close(model.score(X[~s], y[~s], sample_domain=sd[~s], sample_weight=ww),
                  r2_score(y[~s], est.predict(X[~s]), sample_weight=ww), "score")


@facet("C16", "classification", lambda draw: gen_jdot(draw, "classif"), 120, shards=3,
       rule="classification: at least two iterations and interleaved rows or weights")
def classification(case, ctx):
    base = {"a": RecLogistic(C=2.0), "b": RecNB(var_smoothing=1e-2),
            "c": RecSVC(kernel="linear", decision_function_shape="ovr")}[case["base"]]
    metric = "hinge" if case["base"] == "c" else "multinomial"
    X, y, yin, sd, s, w, before = _setup(case, ctx, base)
    thr = case["thr"]
    est, l1, l2, plan, model = _call(case, JDOTClassifier, solve_jdot_classification, base, X, yin, sd, s, w,
                                     dict(metric=metric, thr_weights=thr), {})
    fits = list(LOG)
    ctx.expect(len(fits) == len(l1) == len(l2), "one fit and one pair of losses per iteration")
    ctx.expect(not hasattr(base, "classes_"), "the base estimator given was fitted")
    Xs, ys, Xt = X[s], y[s], X[~s]
    labels = np.unique(ys)
    Y = (ys[:, None] == labels[None]).astype(float)
    nt = len(Xt)
    a = np.full(len(Xs), 1 / len(Xs)) if w is None else w[s] / w[s].sum()
    b = np.full(nt, 1 / nt) if w is None else w[~s] / w[~s].sum()
    Mf = _sq(Xs, Xt)
    Mf = Mf / Mf.mean()
    al = case["alpha"]

    def label_cost(model, A, rows):
        if metric == "multinomial":
            F = np.log(np.maximum(model.predict_proba(rows), 1e-300))
            return -A @ F.T
        F = model.decision_function(rows)
        F = np.stack([-F, F], 1) if F.ndim == 1 else F
        return np.maximum(0, 1 - (2 * A[:, None] - 1) * F[None]).sum(2)

    Ml = None
    r1, r2 = [], []
    for i in range(case["iters"]):
        M = (1 - al) * Mf + (al * Ml if i else 0)
        P = ot.emd(a, b, M)
        r1.append((M * P).sum())
        Yth = P.T @ Y * nt
        J, C = np.nonzero(Yth > thr * Yth.max())
        if np.abs(Yth - thr * Yth.max()).min() < 1e-12 and thr > 1e-3:
            return
        want = (Xt[J], labels[C], Yth[J, C])
        if i >= len(fits):
            ctx.fail(f"stopped after {len(fits)} iterations, losses {l1} {l2} (tol {case['tol']})")
        fx, fy, fw = fits[i]
        o1 = np.lexsort((fy, *fx.T))
        o2 = np.lexsort((want[1], *want[0].T))
        if len(o1) != len(o2) or not np.allclose(fw[o1], want[2][o2], rtol=1e-5, atol=1e-7):
            if i == len(fits) - 1:
                _optimal(ctx, plan, a, b, M, "last iteration")
            if al == 0 or i == 0:
                ctx.fail(f"weighted target samples of iteration {i}: {fw} instead of {want[2]}")
            ctx.label("several optimal plans")
            return
        ctx.same(fx[o1], want[0][o2], f"rows the model is fitted on at iteration {i}")
        ctx.same(fy[o1], want[1][o2], f"labels the model is fitted on at iteration {i}")
        ref = clone(before).fit(*fits[i][:2], sample_weight=fits[i][2])
        LOG.clear()
        Ml = label_cost(ref, Y, Xt)
        yh = (fy[:, None] == labels[None]).astype(float)
        r2.append(sum(fw[q] * label_cost(ref, yh[q : q + 1], fx[q : q + 1])[0, 0] for q in range(len(fx))) / nt)
        if Ml.max() > 30:  # probabilities near zero: the label cost is ill-conditioned
            return
        full = list(r1)
        stop, sure = _stop(full if i != 1 else [l1[0], r1[1]], r2, case["tol"])
        if not sure:
            return
        if stop:
            break
    ctx.hard(len(r1) > 1 and (w is not None or case["order"] != "stacked"))
    ctx.close(l1[1:], r1[1:], "OT losses", rtol=1e-4, atol=1e-5)
    ctx.close(l2, r2, "target losses", rtol=1e-4, atol=1e-5)
    ctx.close(plan, P, "plan", atol=1e-7)
    ctx.same(est.predict(X), ref.predict(X), "predictions of the fitted model")
    if model is not None:
        t = ~s
        ctx.same(model.predict(X[t], sample_domain=sd[t]), est.predict(X[t]), "predict")
        ww = None if w is None else w[t]
        ctx.close(model.score(X[t], y[t], sample_domain=sd[t], sample_weight=ww),
                  accuracy_score(y[t], est.predict(X[t]), sample_weight=ww), "score")
        ctx.expect(hasattr(model, "predict_proba") == (case["base"] != "c"), "predict_proba follows the base estimator")
        if case["base"] != "c":
            ctx.same(model.predict_proba(X[t], sample_domain=sd[t]), est.predict_proba(X[t]), "predict_proba")


# ------------------------------------------------- C17 OT label propagation


def gen_prop(draw):
    task = draw(pick("classif", "classif", "reg"))
    c = gen_problem(draw, max_sources=2, max_targets=2, min_n=4, max_n=9, task=task,
                    label_sets=[[0, 1, 2], [1, 2, 3], [7, 2, 4]] if task == "classif" else None)
    c["reg"] = draw(pick(None, 0, None, 0.5, 2.0))
    c["metric"] = draw(pick("sqeuclidean", "euclidean", "cityblock"))
    c["weights"] = draw(BOOL)
    c["true_targets"] = draw(BOOL)
    c["ydtype"] = draw(pick("int", "float"))
    return c


def _dist(A, B, metric):
    D = A[:, None] - B[None]
    if metric == "cityblock":
        return np.abs(D).sum(-1)
    D = (D**2).sum(-1)
    return np.sqrt(D) if metric == "euclidean" else D


def _sinkhorn(M, a, b, reg, it=3000):
    from scipy.special import logsumexp

    f = np.zeros(len(a))
    la, lb = np.log(a), np.log(b)
    for k in range(it):
        g = reg * (lb - logsumexp((f[:, None] - M) / reg, axis=0))
        f = reg * (la - logsumexp((g[None] - M) / reg, axis=1))
        if k % 10 == 9:
            P = np.exp((f[:, None] + g[None] - M) / reg)
            if np.abs(P.sum(0) - b).sum() < 1e-11:
                return P
    return None


@facet("C17", "ot", gen_prop, 200, shards=2, rule="ot: weighted rows, several domains or labels that are not 0..K-1")
def prop_ot(case, ctx):
    X, y, sd = make_problem(case)
    reg_task = case["task"] != "classif"
    s = sd >= 0
    describe_problem(case, ctx)
    ctx.label(f"reg={case['reg']}", case["metric"], case["task"])
    ctx.hard(case["weights"] or len(case["domains"]) > 2 or case.get("labels", [0])[0] != 0)
    yin = y.astype(float) if reg_task or case["ydtype"] == "float" else y.copy()
    if not case["true_targets"]:
        yin = mask_y(yin, sd, case["task"])
        if case["ydtype"] == "float" and not reg_task:
            yin = yin.astype(float)
    r = rng(case["seed"], 9)
    w = r.uniform(0.2, 2, size=len(X)) if case["weights"] else None
    S, T, ys = X[s], X[~s], y[s]
    a = np.full(len(S), 1 / len(S)) if w is None else w[s] / w[s].sum()
    b = np.full(len(T), 1 / len(T)) if w is None else w[~s] / w[~s].sum()
    M = _dist(S, T, case["metric"])
    if case["reg"]:
        G = None if M.max() / case["reg"] > 200 else _sinkhorn(M, a, b, case["reg"])
        if G is None:
            return  # too slow to converge
    ad = OTLabelPropAdapter(metric=case["metric"], reg=case["reg"], n_iter_max=100000)
    Xo, yo, extra = ad.fit_transform(X, yin, sample_domain=sd, sample_weight=w)
    ctx.same(Xo, X, "features")
    if w is None:
        ctx.expect(extra.get("sample_weight") is None, "weights came out of nowhere")
    else:
        ctx.same(extra["sample_weight"], w, "sample weights")
    ctx.expect(len(yo) == len(y), "number of labels")
    if reg_task:
        ctx.expect(np.isnan(yo[s]).all(), "source labels are masked")
    else:
        ctx.expect((yo[s] == -1).all(), "source labels are masked")
    got = yo[~s]
    if not case["reg"]:
        G = ot.emd(a, b, M)
        G2 = ad.G_
        _optimal(ctx, G2, a, b, M, "plan")
        if np.abs(G - G2).max() > 1e-9:
            ctx.label("several optimal plans")
            G = G2
    if reg_task:
        ctx.close(got, ys @ G / b, "propagated values", rtol=1e-4 if case["reg"] else 1e-7, atol=1e-5 if case["reg"] else 1e-8)
        return
    classes = np.unique(ys)
    mass = np.stack([G[ys == c].sum(0) for c in classes], 1)
    ctx.expect(np.isin(got, classes).all(), f"propagated labels {got} are not source labels {classes}")
    k = np.searchsorted(classes, got)
    best = mass.max(1)
    ctx.expect((mass[np.arange(len(T)), k] >= best - 1e-6 * best.max()).all(),
               f"propagated labels {got} are not those that carry the most mass {classes[mass.argmax(1)]}")


# ------------------------------------------------- C17 JCPOT


def gen_jcpot(draw):
    c = gen_problem(draw, max_sources=3, max_targets=2, min_n=4, max_n=9, classes=(2, 3),
                    label_sets=[[0, 1, 2], [1, 2, 3], [2, 4, 7]])
    c["reg"] = draw(pick(0.5, 1.0, 5.0))
    c["metric"] = draw(pick("sqeuclidean", "euclidean"))
    c["iters"] = 100  # POT 0.9.6 ignores max_iter and does up to 100
    c["tol"] = draw(pick(1e-9, 1e-2))
    c["true_targets"] = draw(BOOL)
    return c


@facet("C17", "jcpot", gen_jcpot, 200, shards=2, rule="jcpot: at least two sources, several targets or interleaved rows")
def prop_jcpot(case, ctx):
    X, y, sd = make_problem(case)
    X = X / X.std()
    s = sd >= 0
    ns, nt = describe_problem(case, ctx)
    ctx.hard(ns > 1 or nt > 1 or case["order"] != "stacked")
    yin = y if case["true_targets"] else mask_y(y, sd)
    ad = JCPOTLabelPropAdapter(metric=case["metric"], reg=case["reg"], max_iter=case["iters"], tol=case["tol"])
    Xo, yo, extra = ad.fit_transform(X, yin, sample_domain=sd)
    ctx.same(Xo, X, "features")
    ctx.expect(len(yo) == len(y) and (yo[s] == -1).all(), "source labels are masked")
    T = X[~s]
    classes = np.unique(y[s])
    K, D = [], []
    for l in [l for l, _ in case["domains"] if l > 0]:
        m = sd == l
        ctx_ok = np.array_equal(np.unique(y[m]), classes)
        if not ctx_ok:
            return
        K.append(np.exp(-_dist(X[m], T, case["metric"]) / case["reg"]))
        D.append((classes[:, None] == y[m][None]).astype(float))
    def tiny():
        return min(min(k.sum(0).min(), k.sum(1).min()) for k in K) < 1e-8

    if tiny():  # POT clips the scalings there
        return
    old = np.ones(len(classes))
    for _ in range(case["iters"]):
        h = 0
        for i in range(ns):
            K[i] = K[i] / K[i].sum(0) / len(T)
            if tiny():
                return
            h = h + np.log(D[i] @ K[i].sum(1)) / ns
        h = np.exp(h)
        for i in range(ns):
            rows = D[i].T @ (h / D[i].sum(1))
            K[i] = K[i] / K[i].sum(1, keepdims=True) * rows[:, None]
        err = np.linalg.norm(h - old)
        if abs(err - case["tol"]) < 1e-6 * case["tol"]:
            return
        old = h
        if err < case["tol"]:
            break
    vote = sum(D[i] @ (K[i] / K[i].sum(1, keepdims=True)) for i in range(ns)).T
    got = yo[~s]
    ctx.expect(np.isin(got, classes).all(), f"propagated labels {got} are not source labels {classes}")
    k = np.searchsorted(classes, got)
    ctx.expect((vote[np.arange(len(T)), k] >= vote.max(1) * (1 - 1e-6)).all(),
               f"propagated labels {got} instead of {classes[vote.argmax(1)]}")


# ------------------------------------------------- C16/C17 pipelines


def gen_pipe(draw):
    c = gen_problem(draw, max_sources=2, max_targets=2, min_n=6, max_n=10, classes=(2, 3), label_sets=[[0, 1, 2], [3, 1, 5]])
    c["method"] = draw(pick("ot", "jcpot"))
    c["weights"] = draw(BOOL)
    return c


@facet("C17", "pipelines", gen_pipe, 120, shards=2, rule="pipelines: interleaved rows or several domains")
def pipelines(case, ctx):
    """The base estimator is fitted on the target rows with the labels that the
    adapter of the same parameters gives them."""
    X, y, sd = make_problem(case)
    X = X / X.std()
    s = sd >= 0
    describe_problem(case, ctx)
    ctx.hard(case["order"] != "stacked" or len(case["domains"]) > 2)
    ym = mask_y(y, sd)
    LOG.clear()
    if case["method"] == "ot":
        ad = OTLabelPropAdapter(metric="cityblock", reg=0.3, n_iter_max=77)
        make = lambda b: skada.OTLabelProp(b, metric="cityblock", reg=0.3, n_iter_max=77)  # noqa: E731
    else:
        ad = JCPOTLabelPropAdapter(metric="euclidean", reg=0.7, max_iter=100, tol=1e-3)
        make = lambda b: skada.JCPOTLabelProp(b, metric="euclidean", reg=0.7, max_iter=100, tol=1e-3)  # noqa: E731
    w = rng(case["seed"], 3).uniform(0.3, 2, size=len(X)) if case["weights"] and case["method"] == "ot" else None
    kw = {} if w is None else dict(sample_weight=w)
    base = RecNB().set_fit_request(sample_weight=True) if w is not None else RecNB()
    yo = ad.fit_transform(X, ym, sample_domain=sd, **kw)[1]
    if w is not None:
        LOG.clear()
        got = make(base).fit(X, ym, sample_domain=sd, **kw) and LOG[-1][1]
        y0 = ad.fit_transform(X, ym, sample_domain=sd)[1]
        if not np.array_equal(got, yo[~s]) and np.array_equal(got, y0[~s]):
            ctx.fail("the adapter of the pipeline ignores sample_weight", finding="ot-pipeline-weights")
            yo = y0
    if min([np.sum(yo[~s] == c) for c in np.unique(yo[~s])]) < 2:
        return
    pipe = make(base).fit(X, ym, sample_domain=sd, **kw)
    fx, fy, fw = LOG[-1]
    ctx.same(fx, X[~s], "rows given to the base estimator")
    ctx.same(fy, yo[~s], "labels given to the base estimator")
    if w is not None:
        ctx.same(fw, w[~s], "weights given to the base estimator")
    ref = GaussianNB().fit(X[~s], yo[~s], sample_weight=None if w is None else w[~s])
    ctx.same(pipe.predict(X[~s], sample_domain=sd[~s]), ref.predict(X[~s]), "predictions")
    if len(np.unique(yo[~s])) > 1:
        p = make(None).fit(X, ym, sample_domain=sd, **kw).predict(X[~s], sample_domain=sd[~s])
        ctx.expect(np.isin(p, y[s]).all(), "default base estimator")


parameters("C17", {"OTLabelProp": OTLabelPropAdapter, "JCPOTLabelProp": JCPOTLabelPropAdapter})

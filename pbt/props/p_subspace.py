"""C15 subspace adapters: the learned projection against the definition of its method."""

import numpy as np
import scipy.linalg
from sklearn.linear_model import LogisticRegression
from sklearn.metrics.pairwise import linear_kernel, polynomial_kernel, rbf_kernel

import skada
from skada import (
    SubspaceAlignmentAdapter,
    TransferComponentAnalysisAdapter,
    TransferJointMatchingAdapter,
    TransferSubspaceLearningAdapter,
)

from ..core import facet
from ..factories import parameters
from ..gens import BOOL, describe_problem, gen_problem, ints, make_problem, mask_y, pick, rng

KERNELS = dict(rbf=rbf_kernel, linear=linear_kernel, poly=polynomial_kernel)


def _gen(draw, min_n=5, max_n=14, d=(2, 5)):
    c = gen_problem(draw, max_sources=2, max_targets=2, min_n=min_n, max_n=max_n, d=d)
    c["nc"] = draw(pick(None, 1, 2, 3, 4))
    if c["nc"] and c["nc"] > c["d"]:
        c["nc"] = c["d"]
    c["new"] = draw(pick("perm", "jitter", "subset", "targets", "sources"))
    c["entry"] = draw(pick("fit_transform", "transform"))
    c["masked"] = draw(BOOL)
    return c


def _setup(case, ctx):
    X, y, sd = make_problem(case)
    describe_problem(case, ctx)
    ctx.label(f"n_components={case['nc']}")
    ctx.hard(case["order"] != "stacked" or len(case["domains"]) > 2)
    return X, (mask_y(y, sd) if case.get("masked", True) else y), sd


def _other_rows(case, X, sd):
    r = rng(case["seed"], 61)
    n = len(X)
    p = r.permutation(n)
    kind = case["new"]
    if kind == "jitter":
        return X + 0.2 * r.normal(size=X.shape), sd
    if kind == "subset":
        p = p[: max(2, n // 2)]
    elif kind == "targets":
        p = p[sd[p] < 0]
    elif kind == "sources":
        p = p[sd[p] >= 0]
    return X[p], sd[p]


def _run(ad, case, X, y, sd):
    if case["entry"] == "fit_transform":
        out = ad.fit_transform(X, y, sample_domain=sd)
    else:
        out = ad.fit(X, y, sample_domain=sd).transform(X, sample_domain=sd, allow_source=True)
    Xe, se = _other_rows(case, X, sd)
    return np.asarray(out), Xe, se, np.asarray(ad.transform(Xe, sample_domain=se, allow_source=True))


def _signs(ctx, got, ref, msg, rtol=1e-6, atol=1e-7):
    """Equal up to one sign per column, the same for all the given blocks."""
    for g, f in zip(got, ref):
        ctx.expect(g.shape == f.shape, f"{msg}: shape {g.shape} instead of {f.shape}")
    G, F = np.concatenate(got), np.concatenate(ref)
    s = np.sign((G * F).sum(0))
    s[s == 0] = 1
    i = 0
    for g, f in zip(got, ref):
        ctx.close(g, f * s, f"{msg} (block {i})", rtol=rtol, atol=atol * max(1.0, np.abs(F).max()))
        i += 1


def _pca(X, k):
    m = X.mean(0)
    w, V = np.linalg.eigh((X - m).T @ (X - m) / (len(X) - 1))
    w, V = w[::-1], V[:, ::-1]
    return m, V[:, :k], w


def gen_align(draw):
    # sometimes fewer rows than features
    return _gen(draw, d=(2, 9))


@facet("C15", "alignment", gen_align, 150, shards=2, rule="alignment: interleaved rows or several domains")
def alignment(case, ctx):
    X, y, sd = _setup(case, ctx)
    out, Xe, se, oe = _run(SubspaceAlignmentAdapter(n_components=case["nc"], random_state=0), case, X, y, sd)
    S, T = X[sd >= 0], X[sd < 0]
    k = case["nc"] or min(len(S), len(T), X.shape[1])
    ctx.expect(out.shape == (len(X), k), f"{out.shape} features instead of {(len(X), k)}")
    ms, Ps, ws = _pca(S, k)
    mt, Pt, wt = _pca(T, k)
    gap_t = np.abs(np.diff(wt[: k + 1])).min() if X.shape[1] > 1 else 1
    if (k < len(ws) and ws[k - 1] - ws[k] < 1e-4 * ws[0]) or gap_t < 1e-4 * wt[0]:
        return

    def ref(A, s):
        R = np.empty((len(A), k))
        R[s >= 0] = (A[s >= 0] - ms) @ Ps @ Ps.T @ Pt
        R[s < 0] = (A[s < 0] - mt) @ Pt
        return R

    _signs(ctx, [out, oe], [ref(X, sd), ref(Xe, se)],
           "source rows go to the target's principal axes through the source's, target rows directly")


def _mmd(ns, nt):
    e = np.r_[np.full(ns, 1.0 / ns), np.full(nt, -1.0 / nt)]
    return np.outer(e, e)


def gen_tca(draw):
    c = _gen(draw)
    c["kernel"] = draw(pick("rbf", "rbf", "linear", "poly"))
    c["mu"] = draw(pick(0.01, 0.1, 1.0, 10.0))
    return c


@facet("C15", "tca", gen_tca, 150, shards=2, rule="tca: interleaved rows or several domains")
def tca(case, ctx):
    X, y, sd = _setup(case, ctx)
    ad = TransferComponentAnalysisAdapter(kernel=case["kernel"], n_components=case["nc"], mu=case["mu"])
    out, Xe, se, oe = _run(ad, case, X, y, sd)
    k = case["nc"] or min(X.shape)
    ctx.expect(out.shape == (len(X), k) and oe.shape == (len(Xe), k), f"shape {out.shape}, {oe.shape}")
    kern = KERNELS[case["kernel"]]
    s = sd >= 0
    Z = np.concatenate([X[s], X[~s]])
    K = kern(Z, Z)
    n, ns = len(Z), s.sum()
    A = np.eye(n) + case["mu"] * K @ _mmd(ns, n - ns) @ K
    H = np.eye(n) - 1.0 / n
    B = K @ H @ K
    w, V = scipy.linalg.eigh(B, A)
    w, V = w[::-1], V[:, ::-1]
    if w[k - 1] < 1e-6 * w[0] or min(-np.diff(w[: k + 1]) / w[0]) < 1e-5:
        return
    V = V[:, :k]

    def unit(a, ref_out):
        return a / np.linalg.norm(ref_out, axis=0)

    R = kern(X, Z) @ V
    # the components are defined up to a factor, common to all the rows
    _signs(ctx, [unit(out, out), unit(oe, out)], [unit(R, R), unit(kern(Xe, Z) @ V, R)],
           "projection on the leading transfer components", rtol=1e-4, atol=1e-5)


def gen_tjm(draw):
    c = _gen(draw, max_n=10)
    c["kernel"] = draw(pick("rbf", "rbf", "linear", "poly"))
    c["tradeoff"] = draw(pick(1e-3, 1e-2, 0.1, 1.0))
    c["max_iter"] = draw(pick(1, 2, 5, 100))
    c["tol"] = draw(pick(1e-6, 0.01, 0.1))
    return c


def _tjm(K, M, ns, lam, k, iters, tol):
    """Reference iteration. Returns the projection and whether it is well conditioned."""
    n = len(K)
    H = np.eye(n) - 1.0 / n
    g = np.ones(n)
    last, gap, rel = None, np.inf, np.inf
    for _ in range(iters):
        B = K @ M @ K + lam * np.diag(g) + 1e-10 * np.eye(n)
        C = K @ H @ K + 1e-10 * np.eye(n)
        # largest eigenvalues of the inverse problem: well conditioned
        w, V = scipy.linalg.eigh(C, B)
        w, V = w[::-1], V[:, ::-1]
        gap = min(gap, min(-np.diff(w[: k + 1])) / w[0], w[k - 1] / w[0])
        A = V[:, :k] / np.sqrt(w[:k])
        nr = np.linalg.norm(A, axis=1)
        g = np.where(nr > 0, 1 / (2 * nr + 1e-10), 0.0)
        g[ns:] = 1
        loss = np.trace(A.T @ K @ M @ K @ A) + lam * (nr[:ns].sum() + (nr[ns:] ** 2).sum())
        if last is not None:
            change = abs(last - loss) / abs(last)
            rel = min(rel, abs(change - tol) / tol)
            if change <= tol:
                break
        last = loss
    return A, gap, rel


@facet("C15", "tjm", gen_tjm, 100, shards=3, rule="tjm: interleaved rows or several domains")
def tjm(case, ctx):
    X, y, sd = _setup(case, ctx)
    ad = TransferJointMatchingAdapter(n_components=case["nc"], tradeoff=case["tradeoff"], kernel=case["kernel"],
                                      max_iter=case["max_iter"], tol=case["tol"])
    out, Xe, se, oe = _run(ad, case, X, y, sd)
    k = case["nc"] or min(X.shape)
    ctx.expect(out.shape == (len(X), k) and oe.shape == (len(Xe), k), f"shape {out.shape}, {oe.shape}")
    kern = KERNELS[case["kernel"]]
    s = sd >= 0
    Z = np.concatenate([X[s], X[~s]])
    K = kern(Z, Z)
    n, ns = len(Z), int(s.sum())
    M = _mmd(ns, n - ns)
    M = M / np.linalg.norm(M)
    A, gap, rel = _tjm(K, M, ns, case["tradeoff"], k, case["max_iter"], case["tol"])
    if gap < 1e-4 or rel < 1e-3:
        ctx.label("ill-conditioned")
        return
    C = out - out.mean(0)
    ctx.close(C.T @ C, np.eye(k), "projected data have unit scatter", rtol=1e-4, atol=1e-4)
    _signs(ctx, [out, oe], [kern(X, Z) @ A, kern(Xe, Z) @ A],
           "projection learned by joint matching", rtol=1e-3, atol=1e-4)


def gen_tsl(draw):
    c = _gen(draw, min_n=8)
    c["method"] = draw(pick("pca", "flda", "lpp"))
    c["mu"] = draw(pick(0, 0, 0.1, 1.0))
    c["reg"] = draw(pick(None, 0.01, 0.3))
    if c["mu"] and c["reg"] is None:
        c["reg"] = 0.01
    if c["mu"] == 0 and c["method"] == "flda":
        c["nc"] = 1
    c["masked"] = True
    return c


@facet("C15", "tsl", gen_tsl, 30, shards=4, rule="tsl: no divergence term, so that the optimum has a closed form")
def tsl(case, ctx):
    X, y, sd = _setup(case, ctx)
    ctx.nontrivial = case["mu"] == 0 and case["method"] != "lpp"
    ctx.label(case["method"])
    ad = TransferSubspaceLearningAdapter(n_components=case["nc"], base_method=case["method"], mu=case["mu"], reg=case["reg"],
                                         max_iter=1000, tol=1e-7)
    if case["mu"]:
        ad.set_params(max_iter=3)
    try:
        out, Xe, se, oe = _run(ad, case, X, y, sd)
    except RuntimeError as e:  # cholesky of a degenerate covariance
        if "linalg" in str(e):
            return
        raise
    k = case["nc"] or min(X.shape)
    d = X.shape[1]
    W = np.linalg.lstsq(X, out, rcond=None)[0]
    ctx.close(W.T @ W, np.eye(k), "the projection is orthonormal", atol=1e-6)
    ctx.close(out, X @ W, "the fitted rows are projected", rtol=1e-7, atol=1e-7)
    ctx.close(oe, Xe @ W, "other rows are projected by the same matrix", rtol=1e-7, atol=1e-7)
    if case["mu"] or case["method"] == "lpp" or k == d:
        return
    S, ys = X[sd >= 0], y[sd >= 0]

    def cov(Z):
        Z = Z - Z.mean(0)
        c = Z.T @ Z / len(Z)
        r = case["reg"] or 0
        return (1 - r) * c + r * np.trace(c) * np.eye(d)

    if case["method"] == "pca":
        c = cov(S)
        w = np.linalg.eigvalsh(c)[::-1]
        ctx.close(np.trace(W.T @ c @ W), w[:k].sum(), "variance kept by the projection", rtol=1e-3)
    else:
        means = {v: S[ys == v].mean(0) for v in np.unique(ys)}
        Sw, St = cov(S - np.stack([means[v] for v in ys])), cov(S)
        best = scipy.linalg.eigh(Sw, St, eigvals_only=True)[0]
        ctx.close((W.T @ Sw @ W)[0, 0] / (W.T @ St @ W)[0, 0], best, "within-class over total scatter", rtol=1e-2, atol=1e-4)


def _shrunk(Z, reg):
    Z = Z - Z.mean(0)
    c = Z.T @ Z / len(Z)
    return (1 - reg) * c + reg * np.trace(c) * np.eye(len(c))


def _dist(A, B):
    return np.sqrt(((A[:, None] - B[None]) ** 2).sum(-1))


def _tsl_objective(W, S, T, ys, case):
    """F + mu * D at the orthonormal basis of the columns of W."""
    W = np.linalg.qr(W)[0]
    reg = case["reg"] or 0.0
    if case["method"] == "pca":
        F = -np.trace(W.T @ _shrunk(S, reg) @ W)
    elif case["method"] == "flda":
        m = {v: S[ys == v].mean(0) for v in np.unique(ys)}
        Sw = _shrunk(S - np.stack([m[v] for v in ys]), reg)
        F = np.trace(W.T @ Sw @ W) / np.trace(W.T @ _shrunk(S, reg) @ W)
    else:
        E = np.exp(-_dist(S, S) / case["ls"]) * (ys[:, None] == ys[None])
        F = -2 * np.trace(W.T @ S.T @ (np.diag(E.sum(1)) - E) @ S @ W)
    A, B = S @ W, T @ W
    ca, cb = _shrunk(A, reg), _shrunk(B, reg)

    def k(P, Q, c):
        L = np.linalg.cholesky(np.linalg.inv(c))
        return np.exp(-0.5 * _dist(P @ L, Q @ L)).mean()

    return F + case["mu"] * (k(A, A, 2 * ca) + k(B, B, 2 * cb) - 2 * k(A, B, ca + cb))


def gen_tsl_opt(draw):
    c = gen_problem(draw, max_sources=2, max_targets=2, min_n=8, max_n=12, d=(2, 4))
    c["method"] = draw(pick("pca", "flda", "lpp"))
    c["mu"] = draw(pick(0.1, 1.0, 10.0))
    c["reg"] = draw(pick(0.01, 0.3))
    c["ls"] = draw(pick(2.0, 0.7))
    c["nc"] = draw(ints(1, c["d"] - 1))
    c["names"] = draw(pick([0, 1, 2, 3, 4], [5, 3, 9, 1, 7]))
    return c


@facet("C15", "tsl_optimum", gen_tsl_opt, 12, shards=4,
       rule="tsl_optimum: the divergence term moves the optimum")
def tsl_optimum(case, ctx):
    """F + mu * D has gone down from the start of the descent (nothing is said of
    how far: the kernel of D has kinks and the norm of W is free)."""
    X, y, sd = _setup(case, ctx)
    y = np.array(case["names"])[y]
    ad = TransferSubspaceLearningAdapter(n_components=case["nc"], base_method=case["method"], mu=case["mu"],
                                         reg=case["reg"], length_scale=case["ls"], max_iter=1000, tol=1e-6)
    ad.fit(X, np.where(sd < 0, -1, y), sample_domain=sd)
    W = np.asarray(ad.W_.detach() if hasattr(ad.W_, "detach") else ad.W_)
    S, T, ys = X[sd >= 0], X[sd < 0], y[sd >= 0]
    ctx.label(case["method"])

    def f(v):
        return _tsl_objective(v.reshape(W.shape), S, T, ys, case)

    f0 = f(W.ravel())
    start = f(np.eye(*W.shape).ravel())
    ctx.nontrivial = start - f0 > 1e-3
    ctx.expect(f0 <= start + 1e-6 * (1 + abs(start)), f"the objective {f0} is above its value {start} at the start")
    v, h = np.eye(*W.shape).ravel(), 1e-6
    grad = np.array([(f(v + h * e) - f(v - h * e)) / (2 * h) for e in np.eye(len(v))])
    if np.abs(grad).max() > 0.1:
        ctx.expect(f0 < start, f"the objective is still {f0}, where its gradient is {grad}")


PIPES = dict(
    SA=(lambda b, k: skada.SubspaceAlignment(b, n_components=k, random_state=3),
        lambda k: SubspaceAlignmentAdapter(n_components=k, random_state=3)),
    TCA=(lambda b, k: skada.TransferComponentAnalysis(b, kernel="linear", n_components=k, mu=3.0),
         lambda k: TransferComponentAnalysisAdapter(kernel="linear", n_components=k, mu=3.0)),
    TJM=(lambda b, k: skada.TransferJointMatching(b, n_components=k, tradeoff=0.3, max_iter=3, kernel="poly", tol=1e-4),
         lambda k: TransferJointMatchingAdapter(n_components=k, tradeoff=0.3, max_iter=3, kernel="poly", tol=1e-4)),
    TSL=(lambda b, k: skada.TransferSubspaceLearning(b, n_components=k, base_method="lpp", length_scale=0.7, mu=0.3, reg=0.2,
                                                     max_iter=4, tol=1e-3),
         lambda k: TransferSubspaceLearningAdapter(n_components=k, base_method="lpp", length_scale=0.7, mu=0.3, reg=0.2,
                                                   max_iter=4, tol=1e-3)),
)


def gen_pipe(draw):
    c = gen_problem(draw, max_sources=2, max_targets=2, min_n=8, max_n=14, d=(3, 4))
    c["method"] = draw(pick(*PIPES))
    c["nc"] = draw(pick(1, 2))
    return c


@facet("C15", "pipelines", gen_pipe, 100, shards=2, rule="pipelines: interleaved rows or several domains")
def pipelines(case, ctx):
    X, y, sd = _setup(case, ctx)
    ctx.label(case["method"])
    make, adapter = PIPES[case["method"]]
    k = case["nc"]
    ad = adapter(k)
    Z = ad.fit_transform(X, y, sample_domain=sd)
    s = sd >= 0
    pipe = make(LogisticRegression(), k).fit(X, y, sample_domain=sd)
    got = pipe[:-1].transform(X, sample_domain=sd, allow_source=True)
    ctx.close(got, Z, "projected rows of the pipeline", rtol=1e-6, atol=1e-7)
    ref = LogisticRegression().fit(Z[s], y[s])
    ctx.close(pipe.decision_function(X[~s], sample_domain=sd[~s]), ref.decision_function(Z[~s]),
              "target predictions of the base estimator fitted on the projected source", rtol=1e-3, atol=1e-4)
    ctx.expect(make(None, k).fit(X, y, sample_domain=sd).predict(X[~s], sample_domain=sd[~s]).shape == ((~s).sum(),),
               "default base estimator")


parameters("C15", {
    "SubspaceAlignment": SubspaceAlignmentAdapter, "TransferComponentAnalysis": TransferComponentAnalysisAdapter,
    "TransferJointMatching": TransferJointMatchingAdapter, "TransferSubspaceLearning": TransferSubspaceLearningAdapter,
})

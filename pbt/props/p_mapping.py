"""C14 mapping adapters: each map against the definition of its method."""

import numpy as np
import torch
import ot
import scipy.sparse as sps
from scipy.optimize import linprog
from sklearn.covariance import ledoit_wolf
from sklearn.linear_model import LogisticRegression
from sklearn.base import clone

import skada
from skada import (
    ClassRegularizerOTMappingAdapter,
    CORALAdapter,
    EntropicOTMappingAdapter,
    LinearOTMappingAdapter,
    MMDLSConSMappingAdapter,
    MultiLinearMongeAlignmentAdapter,
    OTMappingAdapter,
)

from ..core import facet
from ..factories import parameters
from ..gens import BOOL, describe_problem, gen_problem, ints, make_problem, mask_y, pick, rng


def _gen(draw, max_n=12, multi=2, classes=(2, 3), task=None):
    c = gen_problem(draw, max_sources=multi, max_targets=multi, min_n=5, max_n=max_n, classes=classes,
                    task=task or draw(pick("classif", "classif", "reg")))
    c["new"] = draw(pick("fitted", "perm", "jitter", "subset"))
    c["entry"] = draw(pick("fit_transform", "transform"))
    return c


def _setup(case, ctx):
    X, y, sd = make_problem(case)
    ym = mask_y(y, sd, case["task"])
    describe_problem(case, ctx)
    ctx.hard(case["order"] != "stacked" or len(case["domains"]) > 2)
    return X, ym, sd


def _eval_rows(case, X, sd):
    """New rows for transform: (X, sample_domain, index of the fitted row or None)."""
    r = rng(case["seed"], 51)
    n = len(X)
    if case["new"] == "fitted":
        return X, sd, True
    if case["new"] == "perm":
        p = r.permutation(n)
        return X[p], sd[p], False
    if case["new"] == "jitter":
        return X + 0.1 * r.normal(size=X.shape), sd, False
    p = r.permutation(n)[: max(3, n // 2)]
    return X[p], sd[p], False


def _run(adapter, case, X, y, sd, ctx):
    """Output of the adapter on the fitted rows (by the drawn entry) and on other rows."""
    if case["entry"] == "fit_transform":
        out = adapter.fit_transform(X, y, sample_domain=sd)
        out = out[0] if isinstance(out, tuple) else out
    else:
        out = adapter.fit(X, y, sample_domain=sd).transform(X, sample_domain=sd, allow_source=True)
    Xe, se, _ = _eval_rows(case, X, sd)
    oe = adapter.transform(Xe, sample_domain=se, allow_source=True)
    out, oe = np.asarray(out), np.asarray(oe)
    ctx.expect(out.shape == X.shape and oe.shape == Xe.shape, "shape of the mapped data")
    t = se < 0
    if t.any():
        # target rows need no leave to be mapped, and are mapped the same with it
        alone = adapter.transform(Xe[t], sample_domain=se[t])
        ctx.close(np.asarray(alone), oe[t], "target rows alone, without allow_source", rtol=1e-9, atol=1e-10)
    return out, Xe, se, oe


def _targets_unchanged(ctx, X, sd, out):
    ctx.same(out[sd < 0], X[sd < 0], "target rows are mapped to themselves")


def _lp_plan(M):
    n, m = M.shape
    rows = np.repeat(np.arange(n), m)
    cols = np.tile(np.arange(m), n)
    k = np.arange(n * m)
    A = sps.coo_matrix((np.ones(2 * n * m), (np.r_[rows, n + cols], np.r_[k, k])), shape=(n + m, n * m)).tocsr()
    b = np.r_[np.full(n, 1 / n), np.full(m, 1 / m)]
    res = linprog(M.ravel(), A_eq=A[:-1], b_eq=b[:-1], bounds=(0, None), method="highs-ds")
    return res.x.reshape(n, m) if res.status == 0 else None


def _sq(a, b):
    return ((a[:, None] - b[None]) ** 2).sum(-1)


def _out_of_sample(Xn, S, mapped):
    idx = _sq(Xn, S).argmin(1)
    return mapped[idx] + Xn - S[idx]


def gen_emd(draw):
    c = _gen(draw)
    c["metric"] = draw(pick("sqeuclidean", "sqeuclidean", "cityblock"))
    c["norm"] = draw(pick(None, None, "max", "median"))
    return c


@facet("C14", "emd", gen_emd, 70, shards=4, rule="emd: interleaved rows or several domains")
def emd(case, ctx):
    X, y, sd = _setup(case, ctx)
    ad = OTMappingAdapter(metric=case["metric"], norm=case["norm"])
    out, Xe, se, oe = _run(ad, case, X, y, sd, ctx)
    _targets_unchanged(ctx, X, sd, out)
    _targets_unchanged(ctx, Xe, se, oe)
    S, T = X[sd >= 0], X[sd < 0]
    M = _sq(S, T) if case["metric"] == "sqeuclidean" else np.abs(S[:, None] - T[None]).sum(-1)
    P = _lp_plan(M)
    if P is None:
        return
    want = (P / P.sum(1, keepdims=True)) @ T
    got = out[sd >= 0]
    if not np.allclose(got, want, rtol=1e-6, atol=1e-7):
        # the optimum may not be unique: it must still be reached by POT's plan
        Q = ot.emd(np.full(len(S), 1 / len(S)), np.full(len(T), 1 / len(T)), M / {None: 1.0, "max": M.max(), "median": np.median(M)}[case["norm"]])
        if abs((Q * M).sum() - (P * M).sum()) < 1e-9 and np.abs(P - Q).max() > 1e-9:
            ctx.label("several optimal plans")
            want = (Q / Q.sum(1, keepdims=True)) @ T
    ctx.close(got, want, "source rows are mapped by the optimal plan", rtol=1e-6, atol=1e-7)
    # barycentric images average to the target mean
    ctx.close(got.mean(0), T.mean(0), "mean of the mapped source", rtol=1e-6, atol=1e-7)
    s = se >= 0
    if s.any() and not np.array_equal(Xe[s], S):
        ctx.label("out of sample")
        ctx.close(oe[s], _out_of_sample(Xe[s], S, got), "out-of-sample rows move with their nearest source row", rtol=1e-6, atol=1e-7)


def _sinkhorn(M, reg, it=1000, tol=1e-9):
    """Log-domain Sinkhorn; None when POT's stopping rule would not have been met."""
    n, m = M.shape
    f, g = np.zeros(n), np.zeros(m)
    from scipy.special import logsumexp

    la, lb = -np.log(n), -np.log(m)
    for k in range(it):
        g = reg * (lb - logsumexp((f[:, None] - M) / reg, axis=0))
        f = reg * (la - logsumexp((g[None] - M) / reg, axis=1))
        if k % 10 == 9:
            P = np.exp((f[:, None] + g[None] - M) / reg)
            if np.abs(P.sum(0) - 1 / m).sum() < tol:
                return P, g
    return None


def gen_ent(draw):
    c = _gen(draw)
    c["metric"] = draw(pick("sqeuclidean", "sqeuclidean", "cityblock"))
    c["norm"] = draw(pick("max", "max", None, "median"))
    c["reg"] = draw(pick(0.1, 0.5, 1.0, 5.0))
    c["method"] = draw(pick("entropic", "entropic", "lpl1"))
    return c


@facet("C14", "entropic", gen_ent, 70, shards=4, rule="entropic: interleaved rows or several domains")
def entropic(case, ctx):
    X, y, sd = _setup(case, ctx)
    reg = case["reg"]
    S, T = X[sd >= 0], X[sd < 0]
    M = _sq(S, T) if case["metric"] == "sqeuclidean" else np.abs(S[:, None] - T[None]).sum(-1)
    scale = 1.0
    if case["method"] == "entropic":
        ad = EntropicOTMappingAdapter(reg_e=reg, metric=case["metric"], norm=case["norm"], max_iter=1000, tol=1e-9)
        scale = {None: 1.0, "max": M.max(), "median": np.median(M)}[case["norm"]]
        M = M / scale
    else:
        if case["task"] != "classif":
            return
        # without the class term these are the entropic plan
        ad = ClassRegularizerOTMappingAdapter(reg_e=reg, reg_cl=0.0, norm=case["method"], metric=case["metric"],
                                              max_iter=10, max_inner_iter=1000, tol=1e-9)
        if M.max() / reg > 200:
            return
    out, Xe, se, oe = _run(ad, case, X, y, sd, ctx)
    _targets_unchanged(ctx, X, sd, out)
    _targets_unchanged(ctx, Xe, se, oe)
    ctx.label(case["method"])
    if M.max() / reg > 500:
        return
    sol = _sinkhorn(M, reg, it=400)
    if sol is None:
        ctx.label("not converged")
        return
    P, g = sol
    want = (P / P.sum(1, keepdims=True)) @ T
    got = out[sd >= 0]
    ctx.close(got, want, "source rows are mapped by the entropic plan", rtol=1e-4, atol=1e-5)
    s = se >= 0
    if not s.any() or np.array_equal(Xe[s], S):
        return
    if case["method"] == "entropic":
        # entropic map: softmax of the target potential minus the cost
        D = _sq(Xe[s], T) if case["metric"] == "sqeuclidean" else np.abs(Xe[s][:, None] - T[None]).sum(-1)
        Z = (g[None] - D / scale) / reg
        Q = np.exp(Z - Z.max(1, keepdims=True))
        ctx.close(oe[s], (Q / Q.sum(1, keepdims=True)) @ T, "out-of-sample rows follow the entropic map",
                  rtol=1e-4, atol=1e-5)
    else:
        ctx.close(oe[s], _out_of_sample(Xe[s], S, got), "out-of-sample rows move with their nearest source row",
                  rtol=1e-6, atol=1e-7)


def gen_classreg(draw):
    c = _gen(draw, task="classif")
    c["norm"] = draw(pick("lpl1", "l1l2"))
    c["reg"] = draw(pick(1.0, 5.0))
    c["cl"] = draw(pick(0.1, 1.0))
    c["metric"] = draw(pick("sqeuclidean", "cityblock"))
    c["labels"] = draw(pick([0, 1, 2], [3, 1, 7]))
    c["bad"] = draw(pick(False, False, False, False, False, True))
    return c


@facet("C14", "class_regularized", gen_classreg, 30, shards=3,
       rule="class_regularized: interleaved rows or several domains")
def class_regularized(case, ctx):
    X, y, sd = _setup(case, ctx)
    if case["bad"]:
        ctx.raises((AssertionError, ValueError),
                   lambda: ClassRegularizerOTMappingAdapter(norm="l2").fit(X, y, sample_domain=sd), "unknown norm")
        return
    ad = ClassRegularizerOTMappingAdapter(reg_e=case["reg"], reg_cl=case["cl"], norm=case["norm"],
                                          metric=case["metric"], max_iter=4, max_inner_iter=150, tol=1e-9)
    out, Xe, se, oe = _run(ad, case, X, y, sd, ctx)
    _targets_unchanged(ctx, X, sd, out)
    S, T = X[sd >= 0], X[sd < 0]
    M = ot.dist(S, T, metric=case["metric"])
    a, b = np.full(len(S), 1 / len(S)), np.full(len(T), 1 / len(T))
    fn = ot.da.sinkhorn_lpl1_mm if case["norm"] == "lpl1" else ot.da.sinkhorn_l1l2_gl
    P = fn(a, y[sd >= 0], b, M, reg=case["reg"], eta=case["cl"], numItermax=4, numInnerItermax=150,
           **({"stopInnerThr": 1e-9} if case["norm"] == "lpl1" else {"stopInnerThr": 1e-9}))
    w = P / P.sum(1, keepdims=True)
    w = np.nan_to_num(w, nan=0, posinf=0, neginf=0)
    ctx.label(case["norm"])
    ctx.close(out[sd >= 0], w @ T, "source rows are mapped by the class-regularised plan of POT", rtol=1e-6, atol=1e-7)
    s = se >= 0
    if s.any() and not np.array_equal(Xe[s], S):
        ctx.close(oe[s], _out_of_sample(Xe[s], S, out[sd >= 0]),
                  "out-of-sample rows move with their nearest source row", rtol=1e-6, atol=1e-7)


def _moments(X, bias):
    m = X.mean(0) if bias else np.zeros(X.shape[1])
    return m, (X - m).T @ (X - m) / len(X)


def _affine_of(fn, d):
    b = fn(np.zeros((1, d)))[0]
    return fn(np.eye(d)) - b, b


def gen_lin(draw):
    c = _gen(draw, max_n=16)
    c["reg"] = draw(pick(1e-8, 0.1, 1.0))
    c["bias"] = draw(BOOL)
    return c


@facet("C14", "linear_ot", gen_lin, 120, shards=2, rule="linear_ot: interleaved rows or several domains")
def linear_ot(case, ctx):
    X, y, sd = _setup(case, ctx)
    ad = LinearOTMappingAdapter(reg=case["reg"], bias=case["bias"])
    out, Xe, se, oe = _run(ad, case, X, y, sd, ctx)
    _targets_unchanged(ctx, X, sd, out)
    _targets_unchanged(ctx, Xe, se, oe)
    d = X.shape[1]
    A, b = _affine_of(lambda Z: ad.transform(Z, sample_domain=np.ones(len(Z), int), allow_source=True), d)
    ctx.close(out[sd >= 0], X[sd >= 0] @ A + b, "the map of the source is affine", rtol=1e-6, atol=1e-7)
    ctx.close(oe[se >= 0], Xe[se >= 0] @ A + b, "the same map is applied to new rows", rtol=1e-6, atol=1e-7)
    ms, Cs = _moments(X[sd >= 0], case["bias"])
    mt, Ct = _moments(X[sd < 0], case["bias"])
    Cs, Ct = Cs + case["reg"] * np.eye(d), Ct + case["reg"] * np.eye(d)
    k = np.linalg.cond(Cs)
    if k > 1e6:
        return
    t = 1e-6 * k
    ctx.close(A, A.T, "the linear map is symmetric", rtol=0, atol=t * np.abs(A).max())
    ctx.expect(np.linalg.eigvalsh((A + A.T) / 2)[0] > -t, "the linear map is positive")
    ctx.close(A.T @ Cs @ A, Ct, "covariance of the mapped source is that of the target", rtol=1e-4, atol=1e-6 * np.abs(Ct).max() * max(1, k / 100))
    ctx.close(ms @ A + b, mt, "mean of the mapped source is that of the target", rtol=1e-5, atol=1e-6)


def gen_monge(draw):
    c = gen_problem(draw, max_sources=draw(pick(3, 3, 6)), max_targets=draw(pick(2, 2, 4)), min_n=6, max_n=14, task="classif", common_idx=draw(BOOL))
    c["bias"] = draw(pick(True, True, False))
    c["entry"] = draw(pick("fit_transform", "transform"))
    c["new"] = draw(pick("fitted", "perm", "jitter", "subset"))
    return c


@facet("C14", "monge", gen_monge, 120, shards=2, rule="monge: at least two sources of different sizes")
def monge(case, ctx):
    X, y, sd = _setup(case, ctx)
    ad = MultiLinearMongeAlignmentAdapter(bias=case["bias"])
    out, Xe, se, oe = _run(ad, case, X, y, sd, ctx)
    labs = np.unique(sd)
    mom = {l: _moments(X[sd == l], case["bias"]) for l in labs}
    src = [l for l in labs if l >= 0]
    if any(np.linalg.cond(c) > 1e5 for _, c in mom.values()):
        return
    mb = np.mean([mom[l][0] for l in src], axis=0)
    Cb = _moments(out[sd == src[0]], case["bias"])[1] if case["bias"] else _second(out[sd == src[0]], mb)
    # fixed point: C = mean_k (C^1/2 C_k C^1/2)^1/2
    R = _sqrt(Cb)
    fix = np.mean([_sqrt(R @ mom[l][1] @ R) for l in src], axis=0)
    ctx.close(Cb, fix, "covariance of the mapped sources is the Bures-Wasserstein barycenter", rtol=1e-3,
              atol=1e-3 * np.abs(Cb).max())
    for l in labs:
        Z = out[sd == l]
        if case["bias"]:
            ctx.close(Z.mean(0), mb, f"mean of the mapped domain {l}", rtol=1e-5, atol=1e-6)
            got = _moments(Z, True)[1]
        else:
            got = _second(Z, mb)
        ctx.close(got, Cb, f"covariance of the mapped domain {l}", rtol=1e-3, atol=1e-3 * np.abs(Cb).max())
        # one affine map per domain
        m = sd == l
        A = np.c_[X[m], np.ones(m.sum())]
        B, *_ = np.linalg.lstsq(A, Z, rcond=None)
        ctx.close(A @ B, Z, f"domain {l} is mapped by an affine map", rtol=1e-5, atol=1e-6)
        e = se == l
        if m.sum() > X.shape[1] + 1:
            ctx.close(oe[e], np.c_[Xe[e], np.ones(e.sum())] @ B, f"new rows of domain {l}", rtol=1e-4, atol=1e-5)


def _second(Z, b):
    return (Z - b).T @ (Z - b) / len(Z)


def _sqrt(C):
    w, v = np.linalg.eigh((C + C.T) / 2)
    return (v * np.sqrt(np.maximum(w, 0))) @ v.T


def gen_coral(draw):
    c = _gen(draw, max_n=14)
    c["reg"] = draw(pick(None, None, "auto", 0.1, 0.6))
    c["centered"] = draw(pick(False, False, False, True))
    return c


@facet("C14", "coral", gen_coral, 150, shards=2, rule="coral: interleaved rows or several domains")
def coral(case, ctx):
    X, y, sd = _setup(case, ctx)
    cen = case["centered"] and case["reg"] != "auto"
    ad = CORALAdapter(reg=case["reg"], assume_centered=cen)
    out, Xe, se, oe = _run(ad, case, X, y, sd, ctx)
    d = X.shape[1]

    def cov(Z):
        m = np.zeros(d) if cen else Z.mean(0)
        C = (Z - m).T @ (Z - m) / len(Z)
        if case["reg"] == "auto":
            sc = Z.std(0)
            C = ledoit_wolf((Z - m) / sc)[0] * np.outer(sc, sc)
        elif case["reg"] is not None:
            C = (1 - case["reg"]) * C + case["reg"] * np.trace(C) / d * np.eye(d)
        return m, C

    ms, Cs = cov(X[sd >= 0])
    mt, Ct = cov(X[sd < 0])
    if np.linalg.cond(Cs) > 1e6:
        return
    ctx.label(f"reg={case['reg']}")
    A = np.linalg.inv(_sqrt(Cs)) @ _sqrt(Ct)
    for Z, l, o in ((X, sd, out), (Xe, se, oe)):
        ctx.close(o[l >= 0], (Z[l >= 0] - ms) @ A, "source rows are whitened and re-coloured", rtol=1e-5, atol=1e-6)
        ctx.close(o[l < 0], Z[l < 0] - mt, "target rows are only centred", rtol=1e-9, atol=1e-10)
    if case["reg"] is None:
        ctx.close(_second(out[sd >= 0], 0 if cen else out[sd >= 0].mean(0)), Ct,
                  "covariance of the mapped source is that of the target", rtol=1e-4, atol=1e-6 * np.abs(Ct).max())


def gen_ls(draw):
    c = gen_problem(draw, max_sources=2, max_targets=1, min_n=6, max_n=10, d=(1, 3),
                    task=draw(pick("classif", "classif", "reg")))
    if c["task"] == "classif":
        c["labels"] = draw(pick([0, 1, 2], [4, 1, 2]))
    c["new"] = draw(pick("fitted", "perm", "jitter", "subset"))
    c["entry"] = draw(pick("fit_transform", "transform"))
    c["gamma"] = draw(pick(0.2, 1.0))
    c["give_y"] = draw(BOOL)
    return c


def _ls_objective(S, T, ys, gamma, reg_k, reg_m, max_iter=300):
    """The objective as a function of (G, H) and the matrix R that makes W = RG and B = RH."""
    m, n = len(S), len(T)
    L = np.exp(-gamma * np.sqrt(_sq(S, S)))
    om = L @ np.linalg.inv(L + reg_k * np.eye(m))
    R = om if ys is None else (ys[:, None] == np.unique(ys)[None]).astype(float)
    S, T, om, R = (torch.tensor(a, dtype=torch.float64) for a in (S, T, om, R))

    def of_maps(W, B):
        N = W * S + B
        K = torch.exp(-gamma * torch.cdist(N, N))
        Kc = torch.exp(-gamma * torch.cdist(T, N))
        j = (om @ K @ om.T).sum() / m**2 - 2 / (m * n) * (Kc @ om.T).sum()
        return j + reg_m / m * (((W - 1) ** 2).sum() + (B**2).sum())

    k, d = R.shape[1], S.shape[1]
    G, H = torch.ones((k, d), dtype=torch.float64, requires_grad=True), torch.zeros((k, d), dtype=torch.float64, requires_grad=True)
    start = float(of_maps(R @ G, R @ H))
    opt = torch.optim.LBFGS([G, H], max_iter=max_iter, tolerance_grad=1e-5, line_search_fn="strong_wolfe")

    def closure():
        opt.zero_grad()
        v = of_maps(R @ G, R @ H)
        v.backward()
        return v

    opt.step(closure)
    W, B = (R @ G).detach().numpy(), (R @ H).detach().numpy()
    return lambda W, B: float(of_maps(torch.tensor(W), torch.tensor(B))), start, float(of_maps(R @ G, R @ H)), W, B


@facet("C14", "mmd_ls", gen_ls, 25, shards=4, rule="mmd_ls: interleaved rows")
def mmd_ls(case, ctx):
    X, y, sd = _setup(case, ctx)
    ctx.nontrivial = case["order"] != "stacked"
    reg = 1e-3 if case["seed"] % 2 else 0.05
    ad = MMDLSConSMappingAdapter(gamma=case["gamma"], reg_k=1e-2, reg_m=reg, max_iter=300)
    if case["entry"] == "fit_transform":
        out = ad.fit_transform(X, y, sample_domain=sd)
    else:
        out = ad.fit(X, y, sample_domain=sd).transform(X, sample_domain=sd, allow_source=True)
    _targets_unchanged(ctx, X, sd, out)
    s = sd >= 0
    S, T, ys = X[s], X[~s], y[s]
    Z = out[s]
    m, n = len(S), len(T)
    Xe, se, _ = _eval_rows(case, X, sd)
    e = se >= 0
    ye = y if case["new"] in ("fitted", "jitter") else None
    if case["new"] == "perm":
        ye = y[rng(case["seed"], 51).permutation(len(X))]
    kw = dict(y=ye) if (case["give_y"] and ye is not None) else {}
    oe = ad.transform(Xe, sample_domain=se, allow_source=True, **kw)
    _targets_unchanged(ctx, Xe, se, oe)
    W, B = np.asarray(ad.W_), np.asarray(ad.B_)
    ctx.close(Z, W * S + B, "source rows are scaled and shifted")
    if case["task"] == "classif":
        for c in np.unique(ys):
            q = ys == c
            ctx.close(W[q], np.tile(W[q][:1], (q.sum(), 1)), f"one scale for class {c}")
            ctx.close(B[q], np.tile(B[q][:1], (q.sum(), 1)), f"one shift for class {c}")
    if e.any():
        if kw and case["task"] == "classif":
            ctx.label("new rows by class")
            first = [np.where(ys == c)[0][0] for c in ye[e]]
            want = W[first] * Xe[e] + B[first]
        elif np.array_equal(Xe[e], S):
            want = Z
        else:
            ctx.label("new rows by neighbour")
            idx = _sq(Xe[e], S).argmin(1)
            want = W[idx] * Xe[e] + B[idx]
        ctx.close(oe[e], want, "new source rows", rtol=1e-6, atol=1e-7)

    # the optimisation does not end above its starting point, the identity
    J, start, *_ = _ls_objective(S, T, ys if case["task"] == "classif" else None, case["gamma"], 1e-2, reg)
    if case["task"] == "classif":
        ctx.expect(J(W, B) <= start + 1e-7, f"objective {J(W, B)} above that of the identity {start}")


def gen_ls_new(draw):
    c = gen_problem(draw, max_sources=2, max_targets=1, min_n=6, max_n=12, d=(2, 4), task=draw(pick("classif", "classif", "reg")))
    c["gamma"], c["spread"] = draw(pick(0.2, 1.0)), draw(pick(1.0, 3.0))
    return c


@facet("C14", "mmd_ls_new", gen_ls_new, 30, shards=2, rule="mmd_ls_new: the rows' maps differ")
def mmd_ls_new(case, ctx):
    """A new source row is mapped as the nearest source row of the fit."""
    X, y, sd = make_problem(case)
    describe_problem(case, ctx)
    s = sd >= 0
    S = X[s]
    ad = MMDLSConSMappingAdapter(gamma=case["gamma"], reg_k=1e-2, reg_m=0.05, max_iter=4)
    ad.fit(X, mask_y(y, sd, case["task"]), sample_domain=sd)
    r = rng(case["seed"], 57)
    N = S.mean(0) + case["spread"] * S.std(0) * r.normal(size=(80, S.shape[1]))
    D = _sq(N, S)
    near = np.sort(D, axis=1)
    sure = near[:, 1] - near[:, 0] > 1e-8
    W, B = np.asarray(ad.W_)[D.argmin(1)], np.asarray(ad.B_)[D.argmin(1)]
    out = ad.transform(N, sample_domain=np.ones(80, int), allow_source=True)
    ctx.close(out[sure], (W * N + B)[sure], "new source rows", rtol=1e-6, atol=1e-7)
    ctx.hard(np.ptp(np.asarray(ad.W_), axis=0).max() > 1e-4)


def gen_ls_batch(draw):
    c = gen_problem(draw, max_sources=2, max_targets=1, min_n=6, max_n=9, d=(2, 3), task=draw(pick("classif", "classif", "reg")))
    c["gamma"] = draw(pick(0.2, 1.0))
    c["reg"] = draw(pick(1e-3, 0.05, 0.5))
    return c


@facet("C14", "mmd_ls_maps", gen_ls_batch, 12, shards=3, rule="mmd_ls_maps: maps of a problem moved away from the identity")
def mmd_ls_maps(case, ctx):
    """The map is the one that the published objective has, minimised from the identity.

    The objective has kinks, where rounding may decide on the path of the optimiser, so
    the optimiser does a few steps only and one of several problems has to agree.
    """
    describe_problem(case, ctx)
    moved = 0
    for k in range(3):
        X, y, sd = make_problem({**case, "seed": 100 * case["seed"] + k})
        s = sd >= 0
        ad = MMDLSConSMappingAdapter(gamma=case["gamma"], reg_k=1e-2, reg_m=case["reg"], max_iter=6)
        out = ad.fit_transform(X, mask_y(y, sd, case["task"]), sample_domain=sd)
        _, _, _, W, B = _ls_objective(X[s], X[~s], y[s] if case["task"] == "classif" else None, case["gamma"], 1e-2, case["reg"], 6)
        moved = max(moved, np.abs(W - 1).max())
        if np.abs(out[s] - W * X[s] - B).max() < 1e-3 * max(1, np.abs(X).max()):
            ctx.hard(moved > 1e-2)
            return
    ctx.expect(False, "none of 3 maps is the one of the published objective")


PIPES = dict(
    OT=(lambda b: skada.OTMapping(b, metric="cityblock", norm="max", max_iter=50000),
        lambda: OTMappingAdapter(metric="cityblock", norm="max", max_iter=50000)),
    Entropic=(lambda b: skada.EntropicOTMapping(b, metric="cityblock", norm="max", max_iter=37, reg_e=0.3, tol=1e-5),
              lambda: EntropicOTMappingAdapter(metric="cityblock", norm="max", max_iter=37, reg_e=0.3, tol=1e-5)),
    ClassReg=(lambda b: skada.ClassRegularizerOTMapping(b, metric="cityblock", norm="l1l2", max_iter=3,
                                                        max_inner_iter=20, reg_e=2.0, reg_cl=0.3, tol=1e-5),
              lambda: ClassRegularizerOTMappingAdapter(metric="cityblock", norm="l1l2", max_iter=3,
                                                       max_inner_iter=20, reg_e=2.0, reg_cl=0.3, tol=1e-5)),
    Linear=(lambda b: skada.LinearOTMapping(b, reg=0.3, bias=False), lambda: LinearOTMappingAdapter(reg=0.3, bias=False)),
    CORAL=(lambda b: skada.CORAL(b, reg=0.3, assume_centered=True), lambda: CORALAdapter(reg=0.3, assume_centered=True)),
    Monge=(lambda b: skada.MultiLinearMongeAlignment(b, reg=1e-6, bias=False),
           lambda: MultiLinearMongeAlignmentAdapter(reg=1e-6, bias=False)),
    LS=(lambda b: skada.MMDLSConSMapping(b, gamma=0.4, reg_k=1e-3, reg_m=1e-2, tol=1e-3, max_iter=9),
        lambda: MMDLSConSMappingAdapter(gamma=0.4, reg_k=1e-3, reg_m=1e-2, tol=1e-3, max_iter=9)),
)


def gen_pipe(draw):
    c = gen_problem(draw, max_sources=2, max_targets=2, min_n=8, max_n=14)
    c["method"] = draw(pick(*PIPES))
    return c


@facet("C14", "pipelines", gen_pipe, 100, shards=2,
       rule="pipelines: interleaved rows or several domains")
def pipelines(case, ctx):
    """The pipeline functions fit the base estimator on the mapped source rows and
    predict on mapped rows, with the adapter of the same parameters."""
    X, y, sd = _setup(case, ctx)
    ctx.label(case["method"])
    make, adapter = PIPES[case["method"]]
    ad = adapter()
    Z = ad.fit_transform(X, y, sample_domain=sd)
    Z = Z[0] if isinstance(Z, tuple) else Z
    if not np.isfinite(Z).all():
        return
    s = sd >= 0
    ref = LogisticRegression().fit(Z[s], y[s])
    pipe = make(LogisticRegression()).fit(X, y, sample_domain=sd)
    t = ~s
    ctx.close(pipe.decision_function(X[t], sample_domain=sd[t]),
              ref.decision_function(ad.transform(X[t], sample_domain=sd[t])),
              "target predictions of the base estimator fitted on the mapped source", rtol=1e-4, atol=1e-5)
    got = pipe[:-1].transform(X, sample_domain=sd, allow_source=True)
    ctx.close(got, ad.transform(X, sample_domain=sd, allow_source=True), "mapped rows of the pipeline", rtol=1e-7, atol=1e-8)
    ctx.expect(np.array_equal(make(None).fit(X, y, sample_domain=sd).predict(X[t], sample_domain=sd[t]).shape, (t.sum(),)),
               "default base estimator")


parameters("C14", {
    "OTMapping": OTMappingAdapter, "EntropicOTMapping": EntropicOTMappingAdapter,
    "ClassRegularizerOTMapping": ClassRegularizerOTMappingAdapter, "LinearOTMapping": LinearOTMappingAdapter,
    "MultiLinearMongeAlignment": MultiLinearMongeAlignmentAdapter, "CORAL": CORALAdapter,
    "MMDLSConSMapping": MMDLSConSMappingAdapter,
})

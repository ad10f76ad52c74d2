"""C13 reweighting adapters: weights against the density ratio they estimate."""

import numpy as np
from scipy.special import logsumexp
from sklearn.base import BaseEstimator, clone
from sklearn.covariance import ledoit_wolf
from sklearn.ensemble import BaggingClassifier
from sklearn.linear_model import LogisticRegression
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KernelDensity
from sklearn.preprocessing import StandardScaler

import skada
from skada import (
    DensityReweightAdapter,
    DiscriminatorReweightAdapter,
    GaussianReweightAdapter,
    KLIEPReweightAdapter,
    KMMReweightAdapter,
    MMDTarSReweightAdapter,
    NearestNeighborReweightAdapter,
)

from ..core import facet
from ..factories import parameters
from ..gens import BOOL, SEED, describe_problem, gen_problem, ints, make_problem, mask_y, pick, rng


def _sq(a, b):
    return ((a[:, None, :] - b[None, :, :]) ** 2).sum(-1)


def _kernel(a, b, name, gamma, degree=3, coef0=1):
    if gamma is None:
        gamma = 1.0 / a.shape[1]
    if name == "rbf":
        return np.exp(-gamma * _sq(a, b))
    if name == "laplacian":
        return np.exp(-gamma * np.abs(a[:, None] - b[None]).sum(-1))
    if name == "linear":
        return a @ b.T
    if name == "poly":
        return (gamma * a @ b.T + coef0) ** degree
    raise ValueError(name)


def _subset(case, sd, key="sub"):
    """Rows of the evaluation set: all, or a permuted subset with both sides."""
    n = len(sd)
    r = rng(case["seed"], 77)
    how = case[key]
    if how == "all":
        return np.arange(n)
    if how == "perm":
        return r.permutation(n)
    p = r.permutation(n)
    p = p[: max(4, n // 2)]
    for side in (sd >= 0, sd < 0):
        if side[p].sum() < 3:
            p = np.r_[p, np.setdiff1d(np.where(side)[0], p)[:3]]
    return p


def _base(draw):
    c = gen_problem(draw, max_sources=2, max_targets=2, min_n=6, max_n=16)
    c["sub"] = draw(pick("all", "all", "perm", "half"))
    c["jitter"] = draw(pick(0.0, 0.0, 0.25))
    c["entry"] = draw(pick("compute", "fit_transform"))
    return c


def _fit(adapter, case, ctx, need_y=False):
    """Fit on the problem; returns the weights and what they were computed on."""
    X, y, sd = make_problem(case)
    y = mask_y(y, sd, case["task"])
    describe_problem(case, ctx)
    if case["entry"] == "fit_transform":
        out, params = adapter.fit_transform(X, y, sample_domain=sd)
        ctx.same(out, X, "features of a reweighting adapter")
        ctx.expect(set(params) == {"sample_weight"}, f"outputs {set(params)}")
        return X, y, sd, X, y, sd, np.asarray(params["sample_weight"])
    adapter.fit(X, y, sample_domain=sd)
    p = _subset(case, sd)
    Xe = X[p] + case["jitter"] * rng(case["seed"], 78).normal(size=X[p].shape)
    kw = {}
    w = adapter.compute_weights(Xe, y[p] if need_y else y[p], sample_domain=sd[p], **kw)
    return X, y, sd, Xe, y[p], sd[p], np.asarray(w)


def _shape(ctx, w, sd, zero=0.0):
    ctx.expect(w.shape == (len(sd),), f"one weight per row, got shape {w.shape}")
    ctx.close(w[sd < 0], np.full((sd < 0).sum(), zero), "weights of target rows", atol=1e-12)
    ctx.expect(np.isfinite(w).all(), "finite weights")


def gen_density(draw):
    c = _base(draw)
    c["kernel"] = draw(pick("gaussian", "gaussian", "default", "tophat"))
    c["bw"] = draw(pick(0.3, 1.0, 2.5))
    return c


@facet("C13", "density", gen_density, 150, shards=2,
       rule="density: several domains or interleaved rows, weights asked for other rows than fitted")
def density(case, ctx):
    bw = 1.0 if case["kernel"] == "default" else case["bw"]
    kde = None if case["kernel"] == "default" else KernelDensity(bandwidth=bw, kernel=case["kernel"])
    X, y, sd, Xe, _, se, w = _fit(DensityReweightAdapter(weight_estimator=kde), case, ctx)
    ctx.hard(len(case["domains"]) > 2 or case["order"] != "stacked")
    ctx.expect(w.shape == (len(se),), f"one weight per row, got shape {w.shape}")

    def logp(A, B):
        d2 = _sq(A, B)
        if case["kernel"] == "tophat":
            with np.errstate(divide="ignore"):
                return np.log((d2 < bw**2).mean(1))
        return logsumexp(-d2 / (2 * bw**2), axis=1) - np.log(len(B))

    s = se >= 0
    if case["kernel"] == "tophat" and np.any(
        np.abs(np.sqrt(_sq(Xe[s], X)) - bw) < 1e-9
    ):
        return
    num, den = logp(Xe[s], X[sd < 0]), logp(Xe[s], X[sd >= 0])
    if not np.isfinite(den).all():
        ctx.label("no source density")
        return
    _shape(ctx, w, se)
    ratio = np.exp(num - den)
    if ratio.mean() == 0:
        ctx.label("all weights zero")
        want = np.full(s.sum(), 1.0 / s.sum())
    else:
        want = ratio / ratio.mean()
    ctx.close(w[s], want, "weights are the normalised target/source density ratio", rtol=1e-6)


def gen_gauss(draw):
    c = _base(draw)
    c["reg"] = draw(pick("auto", "auto", None, 0.1, 0.5, 1.0))
    return c


@facet("C13", "gaussian", gen_gauss, 150, shards=2,
       rule="gaussian: several domains or interleaved rows")
def gaussian(case, ctx):
    X, y, sd, Xe, _, se, w = _fit(GaussianReweightAdapter(reg=case["reg"]), case, ctx)
    ctx.hard(len(case["domains"]) > 2 or case["order"] != "stacked")
    ctx.label(f"reg={case['reg']}")
    _shape(ctx, w, se)
    reg = case["reg"]

    def logp(A, B):
        m = B.mean(0)
        C = (B - m).T @ (B - m) / len(B)
        d = len(C)
        if reg == "auto":
            sc = B.std(0)
            C = ledoit_wolf((B - m) / sc)[0] * np.outer(sc, sc)
        elif reg is not None:
            C = (1 - reg) * C + reg * np.trace(C) / d * np.eye(d)
        Z = A - m
        sol = np.linalg.solve(C, Z.T).T
        return -0.5 * ((Z * sol).sum(1) + np.linalg.slogdet(2 * np.pi * C)[1])

    s = se >= 0
    ls, lt = logp(Xe[s], X[sd >= 0]), logp(Xe[s], X[sd < 0])
    if ls.min() < -600:
        return
    ctx.close(w[s], np.exp(lt - ls), "weights are the ratio of the two Gaussian densities", rtol=1e-5, atol=1e-250)


def gen_disc(draw):
    c = _base(draw)
    c["clf"] = draw(pick("default", "logreg", "sharp", "nb", "bag"))
    c["jitter"] = draw(pick(0.0, 0.25, 3.0))
    return c


@facet("C13", "discriminator", gen_disc, 100, shards=2,
       rule="discriminator: several domains or interleaved rows")
def discriminator(case, ctx):
    clf = {"default": None, "logreg": LogisticRegression(C=0.1), "nb": GaussianNB(),
           "sharp": LogisticRegression(C=100.0),
           "bag": BaggingClassifier(GaussianNB(), n_estimators=4, random_state=0)}[case["clf"]]
    X, y, sd, Xe, _, se, w = _fit(DiscriminatorReweightAdapter(domain_classifier=clf), case, ctx)
    ctx.hard(len(case["domains"]) > 2 or case["order"] != "stacked")
    _shape(ctx, w, se)
    ref = (LogisticRegression() if clf is None else clone(clf)).fit(X, (sd < 0).astype(int))
    s = se >= 0
    p = ref.predict_proba(Xe[s])
    if p[:, 0].min() < 1e-9:
        return
    odds = p[:, 1] / p[:, 0]
    if odds.max() > 1e4:
        ctx.label("a source row deep in the target")
    ctx.close(w[s], odds / odds.mean(), "weights are the odds of the target under the domain classifier", rtol=1e-6)


def gen_nn(draw):
    c = _base(draw)
    c["laplace"] = draw(BOOL)
    c["k"] = draw(pick(1, 1, 1, 3))
    c["p"] = draw(pick(1, 2))
    c["algo"] = draw(pick("auto", "brute", "kd_tree"))
    return c


@facet("C13", "neighbors", gen_nn, 150, shards=2,
       rule="neighbors: a source row is nearest to several target rows")
def neighbors(case, ctx):
    ad = NearestNeighborReweightAdapter(
        n_neighbors=case["k"], laplace_smoothing=case["laplace"], p=case["p"],
        algorithm=case["algo"],
    )
    X, y, sd, Xe, _, se, w = _fit(ad, case, ctx)
    _shape(ctx, w, se)
    s = se >= 0
    S, T = Xe[s], Xe[~s]
    add = 1.0 if case["laplace"] else 0.0
    ctx.close(w[s].sum(), len(T) + add * len(S), "each target row is counted once")
    if case["k"] > 1:
        ctx.expect((w[s] >= add).all(), "counts are not negative")
        return
    D = np.abs(T[:, None] - S[None]) ** case["p"]
    D = D.sum(-1)
    srt = np.sort(D, axis=1)
    if len(S) > 1 and (srt[:, 1] - srt[:, 0]).min() < 1e-9:
        return
    counts = np.bincount(D.argmin(1), minlength=len(S))
    ctx.hard(counts.max() > 1)
    ctx.close(w[s], counts + add, "weights count the target rows nearest to each source row")


def gen_kliep(draw):
    c = _base(draw)
    c["gamma"] = draw(pick(0.05, 0.3, 1.0, "scale", "auto", [0.05, 1.0], ["auto", 0.3, 2.0]))
    c["n_centers"] = draw(pick(3, 100))
    c["rs"] = draw(ints(0, 5))
    c["cv"] = draw(pick(2, 3))
    return c


@facet("C13", "kliep", gen_kliep, 60, shards=4,
       rule="kliep: several gammas to choose from, or several domains")
def kliep(case, ctx):
    ad = KLIEPReweightAdapter(gamma=case["gamma"], n_centers=case["n_centers"], cv=case["cv"],
                              random_state=case["rs"], tol=1e-9, max_iter=3000)
    X, y, sd, Xe, _, se, w = _fit(ad, case, ctx)
    _shape(ctx, w, se)
    S, T = X[sd >= 0], X[sd < 0]
    g = case["gamma"]
    auto = {"scale": 1.0 / (X.shape[1] * X.var()), "auto": 1.0 / X.shape[1]}
    cands = [auto.get(v, v) if isinstance(v, str) else v for v in (g if isinstance(g, list) else [g])]
    best = ad.best_gamma_
    ctx.hard(len(cands) > 1 or len(case["domains"]) > 2)
    ctx.expect(any(np.isclose(best, v) for v in cands), f"best_gamma_ {best} not among {cands}")
    C = np.asarray(ad.centers_)
    ctx.expect(len(C) == min(len(T), case["n_centers"]), "number of centers")
    ctx.expect((_sq(C, T).min(1) == 0).all(), "centers are target rows")
    al = np.asarray(ad.alpha_)
    ctx.expect((al >= 0).all() and np.isfinite(al).all(), "coefficients are not negative")
    s = se >= 0
    ctx.close(w[s], _kernel(Xe[s], C, "rbf", best) @ al, "weights are the fitted kernel model", rtol=1e-7)
    b = _kernel(S, C, "rbf", best).mean(0)
    ctx.close(b @ al, 1.0, "the mean weight of the source is one", rtol=1e-6)
    A = _kernel(T, C, "rbf", best)
    if b.min() < 1e-8:
        return
    # Frank-Wolfe certificate of the concave maximum over {a >= 0, b.a = 1}
    grad = A.T @ (1 / (A @ al)) / len(A)
    gap = (grad / b).max() - grad @ al
    f = np.log(A @ al).mean()
    ref = _em(A, b)
    if (A @ ref).min() < 1e-10:
        return  # a target row out of reach of every center: only the guard of the logarithm counts
    ctx.expect(np.log(A @ ref).mean() - f < 0.02 or gap < 0.02,
               f"target log-likelihood {f:.4f} is below the maximum {np.log(A @ ref).mean():.4f}")
    if len(cands) > 1:
        _kliep_cv(case, ctx, cands, best, S, T)


def gen_centers(draw):
    return {"seed": draw(SEED), "nc": draw(ints(2, 6)), "extra": draw(ints(2, 30)),
            "ns": draw(ints(2, 8)), "gamma": draw(pick(0.3, 1.0))}


@facet("C13", "kliep_centers", gen_centers, 25, shards=1,
       rule="kliep_centers: at most half of the target rows can be centers at once")
def kliep_centers(case, ctx):
    """Which target rows become centers is left to random_state alone: no row
    is left out for its position."""
    r = rng(case["seed"])
    nt = case["nc"] * 2 + case["extra"]
    X = r.normal(size=(case["ns"] + nt, 2))
    sd = np.r_[np.ones(case["ns"], int), np.full(nt, -2)]
    T = X[sd < 0]
    seen = []
    k = -(-200 // case["nc"])
    for s in range(k):
        ad = KLIEPReweightAdapter(gamma=case["gamma"], n_centers=case["nc"], random_state=s, max_iter=1)
        ad.fit(X, sample_domain=sd)
        seen.append(_sq(np.asarray(ad.centers_), T).argmin(1))
    seen = np.concatenate(seen)
    ctx.hard(True)
    for name, rows in (("first", seen < nt / 2), ("last", seen >= nt / 2),
                       ("even", seen % 2 == 0), ("odd", seen % 2 == 1)):
        ctx.expect(rows.any(), f"none of {len(seen)} centers is among the {name} half of the target rows")
    ctx.expect(len({tuple(seen[i * case["nc"]:(i + 1) * case["nc"]]) for i in range(k)}) > 1,
               "the centers do not depend on random_state")


def _em(A, b, it=3000):
    al = np.ones(A.shape[1]) / b.sum()
    for _ in range(it):
        al = al * (A.T @ (1 / (A @ al))) / (len(A) * b)
    return al


def _kliep_cv(case, ctx, cands, best, S, T):
    """The chosen kernel width has the best held-out likelihood (same folds and
    centers as documented: check_cv(cv) folds of the target, random_state)."""
    from sklearn.model_selection import KFold

    scores = []
    for g in cands:
        vals = []
        for tr, te in KFold(case["cv"]).split(T):
            sub = KLIEPReweightAdapter(gamma=float(g), n_centers=case["n_centers"],
                                       random_state=case["rs"], tol=1e-9, max_iter=3000)
            Z = np.r_[S, T[tr]]
            z = np.r_[np.ones(len(S), int), np.full(len(tr), -2)]
            sub.fit(Z, sample_domain=z)
            vals.append(np.log(_kernel(T[te], np.asarray(sub.centers_), "rbf", float(g))
                               @ sub.alpha_ + np.finfo(float).eps).mean())
        scores.append(np.mean(vals))
    scores = np.array(scores)
    got = scores[[np.isclose(best, v) for v in cands]].max()
    ctx.label("gamma selection")
    ctx.expect(got >= scores.max() - 1e-6 * (1 + abs(scores.max())),
               f"gamma {best} chosen, held-out likelihoods {dict(zip(cands, scores))}")


def gen_kmm(draw):
    c = _base(draw)
    c["kernel"] = draw(pick("rbf", "rbf", "laplacian", "linear", "poly"))
    c["gamma"] = draw(pick(None, 0.1, 1.0))
    c["eps"] = draw(pick(None, 0.0, 0.3))
    c["B"] = draw(pick(1000.0, 1000.0, 1.25))
    c["smooth"] = draw(pick(False, False, True))
    c["solver"] = draw(pick("frank-wolfe", "frank-wolfe", "scipy"))
    return c


@facet("C13", "kmm", gen_kmm, 60, shards=4,
       rule="kmm: several domains, or a bound or tolerance that binds")
def kmm(case, ctx):
    B = case["B"]
    ad = KMMReweightAdapter(kernel=case["kernel"], gamma=case["gamma"], degree=2, coef0=0.5, B=B, eps=case["eps"],
                            smooth_weights=case["smooth"], solver=case["solver"], max_iter=1000)
    X, y, sd, Xe, _, se, w = _fit(ad, case, ctx)
    _shape(ctx, w, se)
    S, T = X[sd >= 0], X[sd < 0]
    n = len(S)
    kargs = dict(name=case["kernel"], gamma=case["gamma"], degree=2, coef0=0.5)
    v = np.asarray(ad.source_weights_)
    s = se >= 0
    same = np.array_equal(Xe[s], S)
    ctx.label(case["solver"], case["kernel"], f"B={B}")
    ctx.hard(len(case["domains"]) > 2 or B < 10 or case["eps"] == 0.0)
    if same and not case["smooth"]:
        ctx.close(w[s], v, "weights of the fitted rows")
    else:
        ctx.close(w[s], _kernel(Xe[s], S, **kargs) @ v, "smoothed weights", rtol=1e-6, atol=1e-7)
    eps = (np.sqrt(n) - 1) / np.sqrt(n) if case["eps"] is None else case["eps"]
    lo, hi = n * (1 - eps), n * (1 + eps)
    tol = 1e-6 * n if case["solver"] == "frank-wolfe" else 1e-4 * n
    ctx.expect(v.min() >= -tol, f"negative weight {v.min()}")
    ctx.expect(lo - tol <= v.sum() <= hi + tol, f"sum of weights {v.sum()} outside [{lo}, {hi}]")
    if v.max() > B + tol:
        ctx.fail(f"weight {v.max()} exceeds the bound B={B}",
                 finding="kmm-bound" if case["solver"] == "frank-wolfe" else None)
        return
    if B < 10:
        return
    K = _kernel(S, S, **kargs)
    q = n * _kernel(S, T, **kargs).mean(1)
    grad = K @ v - q
    k = grad.argmin()
    vert = np.zeros(n)
    vert[k] = hi if grad[k] < 0 else lo
    gap = grad @ (v - vert)
    f = 0.5 * v @ K @ v - q @ v
    diam2 = 2 * hi**2
    if case["solver"] == "frank-wolfe":
        # standard guarantee of the method after max_iter steps
        lmax = np.linalg.eigvalsh(K)[-1]
        bound = 2 * diam2 * lmax / 1002
        best = _fw(K, q, lo, hi)
        fb = 0.5 * best @ K @ best - q @ best
        ctx.expect(f - fb <= bound + 1e-9 * abs(f), f"objective {f} but {fb} is reachable")
        scale = 0.5 * abs(v @ K @ v) + abs(q @ v) + 1e-12
        ctx.expect(f - fb <= 0.02 * scale, f"objective {f} but {fb} is reachable")
    elif case["kernel"] in ("rbf", "laplacian"):
        ctx.expect(gap <= 1e-2 * (1 + abs(f)), f"the weights are {gap:.3g} from the optimum {f:.4g}")


def _fw(K, q, lo, hi, it=1500):
    n = len(q)
    x = np.full(n, (lo + hi) / 2 / n)
    for _ in range(it):
        g = K @ x - q
        k = g.argmin()
        d = -x.copy()
        d[k] += hi if g[k] < 0 else lo
        c = d @ K @ d
        t = 1.0 if c <= 1e-15 else min(1.0, max(0.0, -(g @ d) / c))
        if t == 0:
            break
        x = x + t * d
    return x


@facet("C13", "kmm_bound", lambda draw: dict(seed=draw(ints(0, 3))), 4,
       rule="kmm_bound: an upper bound on the weights that binds")
def kmm_bound(case, ctx):
    """Known finding: the default solver ignores B."""
    r = rng(case["seed"], 3)
    X = r.normal(size=(24, 2))
    sd = np.where(np.arange(24) < 12, 1, -2)
    X[sd < 0] = X[0] + 0.05 * X[sd < 0]
    ctx.hard()
    w = KMMReweightAdapter(B=1.5, gamma=1.0).fit_transform(X, sample_domain=sd)[1]["sample_weight"]
    if w.max() > 1.5 + 1e-6:
        ctx.fail(f"KMMReweight(B=1.5) gives a weight of {w.max():.3f}", finding="kmm-bound")
    w = KMMReweightAdapter(B=1.5, gamma=1.0, solver="scipy").fit_transform(X, sample_domain=sd)[1]["sample_weight"]
    ctx.expect(w.max() <= 1.5 + 1e-4, f"scipy solver: weight {w.max()} above B")


def gen_tars(draw):
    c = gen_problem(draw, max_sources=2, max_targets=1, min_n=8, max_n=16,
                    task=draw(pick("classif", "classif", "classif", "reg")),
                    label_sets=None)
    if c["task"] == "classif":
        c["labels"] = draw(pick([0, 1, 2], [1, 2, 3], [5, 0, 3]))
        c["drop"] = draw(pick(0.0, 0.0, 0.7, 1.0))
        c["lack"] = draw(pick(None, None, 0, 1, 2))
    c["sub"] = draw(pick("all", "perm", "half"))
    c["jitter"] = draw(pick(0.0, 0.1))
    c["entry"] = draw(pick("compute", "fit_transform"))
    c["gamma"] = draw(pick(0.3, 1.0))
    c["reg"] = draw(pick(1e-6, 0.1, 1.0))
    return c


def _least(g, n, lo, hi, B=10):
    """min g.x over 0 <= x <= B and lo <= n.x <= hi."""
    total, used = 0.0, 0.0
    for k in np.argsort(g / n):
        room = hi - used if g[k] < 0 else lo - used
        x = min(B, max(0.0, room / n[k]))
        total += g[k] * x
        used += n[k] * x
    return total


@facet("C13", "mmdtars", gen_tars, 80, shards=2,
       rule="mmdtars: the class proportions of the target differ from those of the source")
def mmdtars(case, ctx):
    X, y, sd = make_problem(case)
    if case.get("drop"):
        # thin out the first class of the target
        first = case["labels"][0]
        r = rng(case["seed"], 9)
        keep = ~((sd < 0) & (y == first) & (r.uniform(size=len(y)) < case["drop"]))
        X, y, sd = X[keep], y[keep], sd[keep]
    ym = mask_y(y, sd, case["task"])
    describe_problem(case, ctx)
    ad = MMDTarSReweightAdapter(gamma=case["gamma"], reg=case["reg"], tol=1e-10)
    if case["entry"] == "fit_transform":
        Xo, out = ad.fit_transform(X, ym, sample_domain=sd)
        w, se, ye, Xe = out["sample_weight"], sd, ym, X
    else:
        ad.fit(X, ym, sample_domain=sd)
        p = _subset(case, sd)
        if case.get("lack") is not None:
            # the new source rows lack one of the classes
            q = p[(sd[p] < 0) | (y[p] != case["labels"][case["lack"]])]
            if (sd[q] >= 0).any():
                p = q
                ctx.label("lacks a class")
        Xe = X[p] + case["jitter"] * rng(case["seed"], 78).normal(size=X[p].shape)
        se, ye = sd[p], ym[p]
        w = ad.compute_weights(Xe, ye, sample_domain=se)
    w = np.asarray(w)
    _shape(ctx, w, se, zero=0.0)
    s, S, T = se >= 0, X[sd >= 0], X[sd < 0]
    ys = ym[sd >= 0]
    m = len(S)
    v = np.asarray(ad.source_weights_)
    ctx.expect(v.min() > -1e-4 and v.max() < 10 + 1e-4, f"weights outside [0, 10]: {v.min()} {v.max()}")
    e = 10 / (4 * np.sqrt(m))
    ctx.expect(m * (1 - e) - 1e-3 * m <= v.sum() <= m * (1 + e) + 1e-3 * m, "sum of the weights")
    if case["task"] == "reg":
        ctx.label("regression")
        near = _sq(Xe[s], S).argmin(1)
        ctx.close(w[s], v[near], "weight of the nearest fitted source row", atol=1e-9)
        L = _kernel(ys[:, None].astype(float), ys[:, None].astype(float), "rbf", case["gamma"])
        om = L @ np.linalg.inv(L + case["reg"] * np.eye(m))
        P = om @ _kernel(S, S, "rbf", case["gamma"]) @ om.T
        q = (m / len(T)) * (np.ones(len(T)) @ _kernel(T, S, "rbf", case["gamma"]) @ om.T)
        g = P @ v - q
        gap = g @ v - _least(g, np.ones(m), m * (1 - e), m * (1 + e))
        f = 0.5 * v @ P @ v - q @ v
        # the solver stops early on these larger problems
        ctx.expect(gap <= 2 * (1 + abs(f)), f"weights are {gap:.3g} from the optimum of {f:.4g}")
        return
    ctx.hard(bool(case.get("drop")))
    classes = np.unique(ys)
    cw = np.array([v[ys == c].mean() for c in classes])
    for c, val in zip(classes, cw):
        ctx.close(v[ys == c], np.full((ys == c).sum(), val), f"one weight for class {c}")
    ctx.close(w[s], cw[np.searchsorted(classes, ye[s])], "weights follow the class of the row", atol=1e-9)
    # optimality of the class weights for the documented objective
    L = _kernel(ys[:, None].astype(float), ys[:, None].astype(float), "rbf", case["gamma"])
    om = L @ np.linalg.inv(L + case["reg"] * np.eye(m))
    R = (ys[:, None] == classes[None]).astype(float)
    P = R.T @ om @ _kernel(S, S, "rbf", case["gamma"]) @ om.T @ R
    q = (m / len(T)) * (np.ones(len(T)) @ _kernel(T, S, "rbf", case["gamma"]) @ om.T @ R)
    nc = R.sum(0)
    g = P @ cw - q
    gap = g @ cw - _least(g, nc, m * (1 - e), m * (1 + e))
    f = 0.5 * cw @ P @ cw - q @ cw
    ctx.expect(gap <= 1e-3 * (1 + abs(f)), f"class weights {cw} are {gap:.3g} from the optimum of {f:.4g}")


# ------------------------------------------------------------ the pipelines


class _WClf(BaseEstimator):
    def fit(self, X, y, sample_weight=None):
        self.rec_ = (np.array(X), np.array(y), None if sample_weight is None else np.array(sample_weight))
        return self

    def predict(self, X):
        return X[:, 0]


PIPES = dict(
    Density=(lambda b: skada.DensityReweight(b, weight_estimator=KernelDensity(bandwidth=0.7)),
             lambda: DensityReweightAdapter(KernelDensity(bandwidth=0.7))),
    Gaussian=(lambda b: skada.GaussianReweight(b, reg=0.3), lambda: GaussianReweightAdapter(reg=0.3)),
    Discriminator=(lambda b: skada.DiscriminatorReweight(b, domain_classifier=GaussianNB()),
                   lambda: DiscriminatorReweightAdapter(GaussianNB())),
    KLIEP=(lambda b: skada.KLIEPReweight(b, gamma=[0.1, 0.9], cv=3, n_centers=5, tol=1e-3, max_iter=50, random_state=4),
           lambda: KLIEPReweightAdapter(gamma=[0.1, 0.9], cv=3, n_centers=5, tol=1e-3, max_iter=50, random_state=4)),
    NN=(lambda b: skada.NearestNeighborReweight(b, n_neighbors=2, weights="distance", algorithm="brute", leaf_size=7,
                                                p=1, laplace_smoothing=True),
        lambda: NearestNeighborReweightAdapter(n_neighbors=2, weights="distance", algorithm="brute", leaf_size=7,
                                               p=1, laplace_smoothing=True)),
    KMM=(lambda b: skada.KMMReweight(b, kernel="poly", gamma=0.4, degree=2, coef0=0.3, eps=0.2, tol=0.03, max_iter=77),
         lambda: KMMReweightAdapter(kernel="poly", gamma=0.4, degree=2, coef0=0.3, eps=0.2, tol=0.03, max_iter=77)),
    MMDTarS=(lambda b: skada.MMDTarSReweight(b, gamma=0.4, reg=1e-3, tol=1e-8, max_iter=60),
             lambda: MMDTarSReweightAdapter(gamma=0.4, reg=1e-3, tol=1e-8, max_iter=60)),
)


def gen_pipe(draw):
    c = gen_problem(draw, max_sources=2, max_targets=2, min_n=8, max_n=14)
    c["method"] = draw(pick(*PIPES))
    c["base"] = draw(BOOL)
    return c


@facet("C13", "pipelines", gen_pipe, 120, shards=2,
       rule="pipelines: interleaved rows, so that a misaligned weight shows")
def pipelines(case, ctx):
    """The pipeline functions fit the base estimator on the source rows, each with
    the weight that the adapter with the same parameters gives it."""
    X, y, sd = make_problem(case)
    ym = mask_y(y, sd)
    describe_problem(case, ctx)
    ctx.hard(case["order"] != "stacked")
    ctx.label(case["method"])
    make, adapter = PIPES[case["method"]]
    w = adapter().fit_transform(X, ym, sample_domain=sd)[1]["sample_weight"]
    s = sd >= 0
    if not case["base"] and (w[s].max() == 0 or min(w[s][ym[s] == c].sum() for c in np.unique(ym[s])) < 1e-6):
        return  # the default base estimator refuses a class without weight
    pipe = make(_WClf().set_fit_request(sample_weight=True) if case["base"] else None)
    pipe.fit(X, ym, sample_domain=sd)
    est = pipe[-1].get_estimator()
    if case["base"]:
        gx, gy, gw = est.rec_
        ctx.same(gx, X[s], "rows given to the base estimator")
        ctx.same(gy, ym[s], "labels given to the base estimator")
        ctx.expect(gw is not None, "weights did not reach the base estimator")
        ctx.close(gw, w[s], "weights given to the base estimator", rtol=1e-9)
    else:
        ref = clone(est).fit(X[s], ym[s], sample_weight=w[s])
        ctx.close(pipe.decision_function(X, sample_domain=sd, allow_source=True), ref.decision_function(X),
                  "predictions of the weighted base estimator", rtol=1e-6, atol=1e-7)


parameters("C13", {
    "DensityReweight": DensityReweightAdapter, "GaussianReweight": GaussianReweightAdapter,
    "DiscriminatorReweight": DiscriminatorReweightAdapter, "KLIEPReweight": KLIEPReweightAdapter,
    "NearestNeighborReweight": NearestNeighborReweightAdapter, "KMMReweight": KMMReweightAdapter,
    "MMDTarSReweight": MMDTarSReweightAdapter,
})

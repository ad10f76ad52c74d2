"""C27: deep losses against closed forms in numpy, and their gradients."""

import numpy as np
import ot
import torch
from scipy.optimize import linprog
from scipy.spatial.distance import cdist
from skada.deep._adversarial import CDANLoss, DANNLoss, MDDLoss, ModifiedCrossEntropyLoss
from skada.deep._baseline import DummyLoss
from skada.deep._class_confusion import MCCLoss
from skada.deep._divergence import CANLoss, DANLoss, DeepCoralLoss
from skada.deep._graph_alignment import SPALoss
from skada.deep._optimal_transport import DeepJDOTLoss
from skada.deep.losses import (
    cdd_loss,
    dan_loss,
    deepcoral_loss,
    deepjdot_loss,
    gda_loss,
    mcc_loss,
    nap_loss,
    probability_scaling,
)
from skada.deep.utils import SphericalKMeans

from ..core import facet
from ..gens import BOOL, SEED, ints, pick, rng

F64 = torch.float64


def T(a):
    return torch.tensor(np.asarray(a, dtype=float), dtype=F64)


def softmax(z):
    e = np.exp(z - z.max(1, keepdims=True))
    return e / e.sum(1, keepdims=True)


def logsoftmax(z):
    z = z - z.max(1, keepdims=True)
    return z - np.log(np.exp(z).sum(1, keepdims=True))


def gen_loss(draw):
    return dict(
        ns=draw(ints(3, 9)), nt=draw(ints(3, 9)), d=draw(ints(2, 4)), k=draw(ints(2, 4)),
        seed=draw(SEED), scale=draw(pick(0.1, 1.0, 3.0)), shift=draw(pick(0.0, 1.0, 4.0)),
        same=draw(pick(False, False, False, True)),
    )


def arrays(case):
    r = rng(case["seed"], 6)
    fs = case["scale"] * r.normal(size=(case["ns"], case["d"]))
    ft = fs.copy() if case["same"] else case["scale"] * r.normal(size=(case["nt"], case["d"])) + case["shift"]
    ys = np.concatenate([np.arange(case["k"]), r.randint(case["k"], size=max(0, case["ns"] - case["k"]))])[: case["ns"]]
    ys = ys[r.permutation(len(ys))]
    ls = 2 * r.normal(size=(len(fs), case["k"]))
    lt = 2 * r.normal(size=(len(ft), case["k"]))
    return r, fs, ft, ys, ls, lt


def directional(ctx, f, xs, what, r, eps=1e-6, rtol=2e-3):
    """The gradient that autograd gives is that of the value."""
    ts = [T(x).requires_grad_(True) for x in xs]
    v = f(*ts)
    g = torch.autograd.grad(v, ts, allow_unused=True)
    dirs = [r.normal(size=x.shape) for x in xs]
    num = (float(f(*[T(x + eps * d) for x, d in zip(xs, dirs)])) - float(f(*[T(x - eps * d) for x, d in zip(xs, dirs)]))) / (2 * eps)
    ana = sum(0.0 if gi is None else float((gi.numpy() * d).sum()) for gi, d in zip(g, dirs))
    # kinks between the two points: check that a smaller step agrees
    num2 = (float(f(*[T(x + eps / 8 * d) for x, d in zip(xs, dirs)])) - float(f(*[T(x - eps / 8 * d) for x, d in zip(xs, dirs)]))) / (eps / 4)
    if abs(num - num2) > 1e-3 * (1 + abs(num)):
        ctx.label("kink")
        return
    ctx.close(ana, num, f"{what}: gradient along a direction", rtol=rtol, atol=2e-4 * (1 + abs(float(v))))


# ------------------------------------------------------------ divergences


@facet("C27", "coral", gen_loss, 150, rule="coral: the domains differ")
def coral(case, ctx):
    r, fs, ft, *_ = arrays(case)
    d = fs.shape[1]
    exp = ((np.cov(fs.T) - np.cov(ft.T)) ** 2).sum() / (4 * d * d)
    ctx.close(deepcoral_loss(T(fs), T(ft)), exp, "deepcoral_loss", rtol=1e-9, atol=1e-12)
    ctx.close(DeepCoralLoss()(features_s=T(fs), features_t=T(ft), y_s=None, sample_idx_t=None), exp, "DeepCoralLoss", rtol=1e-9, atol=1e-12)
    ctx.close(deepcoral_loss(T(ft), T(fs)), exp, "symmetry", rtol=1e-9, atol=1e-12)
    ctx.close(deepcoral_loss(T(fs + 5), T(ft - 3)), exp, "shifted domains", rtol=1e-6, atol=1e-9)
    directional(ctx, deepcoral_loss, [fs, ft], "deepcoral_loss", r)
    # features that are taken as they are: the same normalisation, no mean removed
    ms, mt = (f.T @ f / (len(f) - 1) for f in (fs, ft))
    raw = ((ms - mt) ** 2).sum() / (4 * d * d)
    ctx.close(deepcoral_loss(T(fs), T(ft), assume_centered=True), raw, "deepcoral_loss(assume_centered=True)", rtol=1e-9, atol=1e-12)
    ctx.close(DeepCoralLoss(assume_centered=True)(features_s=T(fs), features_t=T(ft)), raw, "DeepCoralLoss(assume_centered=True)", rtol=1e-9, atol=1e-12)
    ctx.close(deepcoral_loss(T(fs - fs.mean(0)), T(ft - ft.mean(0)), assume_centered=True), exp, "centred features", rtol=1e-7, atol=1e-10)
    ctx.hard(exp > 1e-6)


DEFAULT = np.array([2.0 ** (-8 + i / 2) for i in range(33)])


def lower_median(a):
    a = np.sort(a.ravel())
    return a[(len(a) - 1) // 2]


def kernel(x, y, sigmas):
    dist = cdist(x, y)
    return sum(np.exp(-dist / s) for s in sigmas)


def gen_dan(draw):
    c = gen_loss(draw)
    c["sigmas"] = draw(pick(None, None, [1.0], [0.5, 2.0, 8.0]))
    return c


def sigmas_of(case, fs, eps=1e-7):
    if case["sigmas"] is not None:
        return np.array(case["sigmas"])
    return DEFAULT * (lower_median(cdist(fs, fs)) + eps)


@facet("C27", "dan", gen_dan, 150, rule="dan: the domains differ")
def dan(case, ctx):
    r, fs, ft, *_ = arrays(case)
    sg = sigmas_of(case, fs)
    exp = kernel(fs, fs, sg).mean() + kernel(ft, ft, sg).mean() - 2 * kernel(fs, ft, sg).mean()
    # cdist has an absolute error, which small bandwidths amplify
    tol = dict(rtol=1e-4, atol=1e-4)
    s32 = None if case["sigmas"] is None else case["sigmas"]
    ctx.close(dan_loss(T(fs), T(ft), sigmas=None if s32 is None else np.array(s32)), exp, "dan_loss", **tol)
    ctx.close(DANLoss(sigmas=None if s32 is None else np.array(s32))(features_s=T(fs), features_t=T(ft), y_s=None), exp, "DANLoss", **tol)
    if case["same"]:
        ctx.close(exp, 0, "identical domains", atol=1e-9)
    else:
        p, q = r.permutation(len(fs)), r.permutation(len(ft))
        ctx.close(dan_loss(T(fs[p]), T(ft[q]), sigmas=None if s32 is None else np.array(s32)), exp, "rows in another order", **tol)
        if case["sigmas"] is not None:
            directional(ctx, lambda a, b: dan_loss(a, b, sigmas=np.array(s32)), [fs, ft], "dan_loss", r)
    ctx.hard(exp > 1e-3)


def gen_jdot(draw):
    c = gen_loss(draw)
    c["reg_dist"] = draw(pick(0.0, 0.1, 1.0, 2.0))
    c["reg_cl"] = draw(pick(0.0, 0.1, 1.0, 3.0))
    c["w"] = draw(pick("none", "source", "both"))
    return c


@facet("C27", "jdot", gen_jdot, 150, rule="jdot: both terms are used and the domains have different sizes")
def jdot(case, ctx):
    r, fs, ft, ys, ls, lt = arrays(case)
    ns, nt = len(fs), len(ft)
    lp = logsoftmax(lt)
    M = case["reg_dist"] * cdist(fs, ft) ** 2 + case["reg_cl"] * (-lp[:, ys].T)
    a, b, kw = np.full(ns, 1 / ns), np.full(nt, 1 / nt), {}
    if case["w"] != "none":
        a = r.rand(ns) + 0.1
        a /= a.sum()
        kw["sample_weights"] = T(a)
    if case["w"] == "both":
        b = r.rand(nt) + 0.1
        b /= b.sum()
        kw["target_sample_weights"] = T(b)
    A = np.zeros((ns + nt, ns * nt))
    for i in range(ns):
        A[i, i * nt : (i + 1) * nt] = 1
    for j in range(nt):
        A[ns + j, j::nt] = 1
    sol = linprog(M.ravel(), A_eq=A[:-1], b_eq=np.r_[a, b][:-1], method="highs")
    if sol.status != 0:
        return
    f32 = T if case["w"] != "none" or case["seed"] % 2 else lambda x: torch.tensor(x, dtype=torch.float32)
    args = (torch.tensor(ys), f32(lt), f32(fs), f32(ft), case["reg_dist"], case["reg_cl"])
    ctx.close(deepjdot_loss(*args, **kw), sol.fun, "deepjdot_loss", rtol=1e-4, atol=1e-5)
    if case["w"] == "none":
        mod = DeepJDOTLoss(case["reg_dist"], case["reg_cl"])
        ctx.close(mod(y_s=torch.tensor(ys), y_pred_t=f32(lt), features_s=f32(fs), features_t=f32(ft), domain_pred_s=None, y_pred_s=f32(ls)), sol.fun, "DeepJDOTLoss", rtol=1e-4, atol=1e-5)
        # another criterion for the labels
        crit = torch.nn.NLLLoss(reduction="none")
        ctx.close(DeepJDOTLoss(case["reg_dist"], case["reg_cl"], crit)(y_s=torch.tensor(ys), y_pred_t=f32(lp), features_s=f32(fs), features_t=f32(ft)), sol.fun, "DeepJDOTLoss with NLLLoss", rtol=1e-4, atol=1e-5)
    else:
        directional(ctx, lambda x, y, z: deepjdot_loss(torch.tensor(ys), x, y, z, case["reg_dist"], case["reg_cl"], **{"target_sample_weights": T(b), **kw}), [lt, fs, ft], "deepjdot_loss", r)
    ctx.hard(case["reg_dist"] > 0 and case["reg_cl"] > 0 and ns != nt)


def gen_cdd(draw):
    c = gen_loss(draw)
    c["ns"], c["nt"] = 4 + draw(ints(0, 10)), 20 - draw(ints(0, 14))
    c["sigmas"] = draw(pick(None, [1.0], [0.5, 2.0]))
    c["dist"] = draw(pick(0.05, 0.1, 0.02, 0.3, 2.0))
    c["cls"] = draw(pick(1, 2, 3))
    c["same"] = False
    c["miss"] = draw(pick(None, None, 0, 1, 2))
    return c


@facet("C27", "cdd", gen_cdd, 400, shards=2, rule="cdd: at least two classes are compared and some target rows are discarded")
def cdd(case, ctx):
    r, fs, ft, ys, *_ = arrays(case)
    k = len(np.unique(ys))
    ys = np.unique(ys, return_inverse=True)[1]
    if case["miss"] is not None:
        # a batch without any source row of one of the classes
        miss = case["miss"] % k
        ys = np.where(ys == miss, (miss + 1) % k, ys)
        ctx.label("a class misses in the batch")
    # directions of the classes, target rows around them
    C = r.normal(size=(k, case["d"]))
    fs = fs + 2 * C[ys]
    lab = r.randint(k, size=len(ft))
    ft = ft - case["shift"] + 2 * C[lab]
    km = SphericalKMeans(n_clusters=k, initial_centroids=T(C), max_iter=5)
    km.fit(T(ft))
    cen = km.cluster_centers_.numpy()
    if (np.linalg.norm(cen, axis=1) == 0).any():
        return
    cos = (ft @ cen.T) / np.linalg.norm(ft, axis=1)[:, None] / np.linalg.norm(cen, axis=1)
    near = 0.5 * (1 - cos.max(1))
    if (np.abs(near - case["dist"]) < 1e-6).any():
        return
    keep = near < case["dist"]
    g, z = cos.argmax(1)[keep], ft[keep]
    counts = np.bincount(g, minlength=k)
    valid = np.flatnonzero(counts >= case["cls"])
    sg = sigmas_of(case, fs)
    intra = inter = 0.0
    for c1 in valid:
        for c2 in valid:
            S, Z = fs[ys == c1], z[g == c2]
            # the mean of no value is zero
            e = kernel(Z, Z, sg).mean() if len(Z) else 0.0
            e += kernel(S, S, sg).mean() if len(S) else 0.0
            e -= 2 * kernel(S, Z, sg).mean() if len(S) and len(Z) else 0.0
            if c1 == c2:
                intra += e
            else:
                inter += e
    n = len(valid)
    exp = (intra / n if n else 0) - (inter / (n * n - n) if n > 1 else 0)
    sig = None if case["sigmas"] is None else np.array(case["sigmas"])
    kw = dict(sigmas=sig, distance_threshold=case["dist"], class_threshold=case["cls"])
    got = cdd_loss(torch.tensor(ys), T(fs), T(ft), km, **kw)
    ctx.close(got, exp, "cdd_loss", rtol=1e-4, atol=1e-4)
    mod = CANLoss(target_kmeans=km, **kw)
    ctx.close(mod(y_s=torch.tensor(ys), features_s=T(fs), features_t=T(ft), y_pred_s=None), exp, "CANLoss", rtol=1e-4, atol=1e-4)
    if sig is not None and n:
        directional(ctx, lambda a, b: cdd_loss(torch.tensor(ys), a, b, km, **kw), [fs, ft], "cdd_loss", r)
    ctx.raises(ValueError, lambda: CANLoss(**kw)(y_s=torch.tensor(ys), features_s=T(fs), features_t=T(ft)), "CANLoss without clusters")
    ctx.label(f"classes={n}")
    ctx.hard(n > 1 and not keep.all())


# -------------------------------------------------------------- class confusion


def gen_mcc(draw):
    c = gen_loss(draw)
    c["T"] = draw(pick(0.5, 1, 2.5))
    return c


@facet("C27", "mcc", gen_mcc, 150, rule="mcc: the temperature is not 1 or there are more than two classes")
def mcc(case, ctx):
    r, fs, ft, ys, ls, lt = arrays(case)
    P = softmax(lt / case["T"])
    H = -(P * np.log(P + 1e-7)).sum(1)
    W = len(P) * (1 + np.exp(-H)) / (1 + np.exp(-H)).sum()
    C = P.T @ (W[:, None] * P)
    C = C / C.sum(1, keepdims=True)
    exp = (C.sum() - np.trace(C)) / C.shape[0]
    ctx.close(probability_scaling(T(lt), case["T"]), P, "probability_scaling", rtol=1e-9)
    ctx.close(mcc_loss(T(lt), T=case["T"]), exp, "mcc_loss", rtol=1e-7)
    ctx.close(MCCLoss(T=case["T"])(y_pred_t=T(lt), y_pred_s=T(ls), y_s=None, features_t=T(ft)), exp, "MCCLoss", rtol=1e-7)
    p, q = r.permutation(len(lt)), r.permutation(lt.shape[1])
    ctx.close(mcc_loss(T(lt[p][:, q]), T=case["T"]), exp, "rows and classes in another order", rtol=1e-7)
    directional(ctx, lambda x: mcc_loss(x, T=case["T"]), [lt], "mcc_loss", r)
    ctx.hard(case["T"] != 1 or case["k"] > 2)


# ------------------------------------------------------------------ graphs


def gen_gda(draw):
    c = gen_loss(draw)
    c["nt"] = c["ns"]
    c["metric"] = draw(pick("gauss", "gauss", "cos", "euc"))
    c["laplac"] = draw(pick("laplac1", "laplac1", "laplac2", "laplac3"))
    return c


def adjacency(f, metric):
    if metric == "cos":
        g = f / np.linalg.norm(f, axis=1, keepdims=True)
        return g @ g.T
    D = cdist(f, f)
    return D if metric == "euc" else np.exp(-(D**2) / (2 * 1.5**2))


def laplacian(A, kind):
    v = A.sum(1)
    if kind == "laplac1":
        return -A / (v + 1e-7)[:, None]
    if kind == "laplac2":
        return np.diag(v) - A
    s = 1 / np.sqrt(v + 1e-7)
    return np.eye(len(A)) - s[:, None] * A * s


@facet("C27", "gda", gen_gda, 150, rule="gda: the domains differ")
def gda(case, ctx):
    r, fs, ft, *_ = arrays(case)
    m, l = case["metric"], case["laplac"]
    A, B = adjacency(fs, m), adjacency(ft, m)
    if m == "cos" and l != "laplac2" and min(np.abs(A.sum(1)).min(), np.abs(B.sum(1)).min()) < 1e-2:
        return
    if m == "cos" and l == "laplac3" and min(A.sum(1).min(), B.sum(1).min()) < 0:
        return
    sv = lambda L: np.linalg.svd(L, compute_uv=False)
    exp = np.linalg.norm(sv(laplacian(A, l)) - sv(laplacian(B, l)))
    ctx.close(gda_loss(T(fs), T(ft), metric=m, laplac=l), exp, "gda_loss", rtol=1e-5, atol=1e-6)
    ctx.close(gda_loss(T(fs[::-1].copy()), T(ft), metric=m, laplac=l), exp, "rows in another order", rtol=1e-5, atol=1e-6)
    ctx.raises(ValueError, lambda: gda_loss(T(fs), T(ft), metric="other"), "unknown metric")
    ctx.raises(ValueError, lambda: gda_loss(T(fs), T(ft), laplac="other"), "unknown Laplacian")
    if m == "gauss" and not case["same"] and exp > 1e-2:
        directional(ctx, lambda a, b: gda_loss(a, b, metric=m, laplac=l), [fs, ft], "gda_loss", r, rtol=1e-2)
    ctx.hard(exp > 1e-4)


def gen_nap(draw):
    c = gen_loss(draw)
    c["same"] = False
    c["K"] = draw(ints(1, 5))
    c["bank"] = draw(ints(0, 10))
    c["epoch"] = draw(ints(0, 6))
    c["max_epochs"] = draw(ints(6, 12))
    c["regs"] = [draw(pick(0.0, 0.5, 1.0, 2.0)) for _ in range(3)]
    return c


def nap_reference(ft, lt, mem, out, idx, K):
    total = weight = 0.0
    for i in range(len(ft)):
        d = ((mem - ft[i]) ** 2).sum(1)
        d[idx] = np.inf
        near = np.argsort(d, kind="stable")[:K]
        p = out[near].sum(0) / K
        c = int(p.argmax())
        total += p[c] * -logsoftmax(lt[i : i + 1])[0, c]
        weight += p[c]
    return total / (weight + 1e-7)


@facet("C27", "spa", gen_nap, 200, shards=2, rule="spa: the bank holds more rows than K others")
def spa(case, ctx):
    r, fs, ft, ys, ls, lt = arrays(case)
    n = min(len(fs), len(ft))
    fs, ft, lt = fs[:n], ft[:n], lt[:n]
    size = n + case["K"] + case["bank"]
    mem = r.normal(size=(size, case["d"])) + case["scale"]
    mem /= np.linalg.norm(mem, axis=1, keepdims=True)
    out = softmax(r.normal(size=(size, case["k"])))
    idx = r.permutation(size)[:n]
    exp = nap_reference(ft, lt, mem, out, idx, case["K"])
    # float32 settles near ties in its own way
    D = cdist(ft, mem) ** 2
    D[:, idx] = np.inf
    order = np.argsort(D, axis=1)
    Ds = np.take_along_axis(D, order, 1)[:, : case["K"] + 1]
    votes = np.sort(np.stack([out[o[: case["K"]]].mean(0) for o in order]), axis=1)
    if (np.diff(Ds)[:, -1] < 1e-3).any() or (votes[:, -1] - votes[:, -2] < 1e-4).any():
        return
    ti = torch.tensor(idx)
    f32 = lambda a: torch.tensor(np.asarray(a), dtype=torch.float32)
    got = nap_loss(f32(ft), f32(lt), f32(mem), f32(out), ti, K=case["K"])
    ctx.close(got, exp, "nap_loss", rtol=1e-3, atol=1e-4)
    # the whole SPA loss
    ps, pt = r.uniform(0.05, 0.95, size=n), r.uniform(0.05, 0.95, size=n)
    ra, rg, rn = case["regs"]
    mod = SPALoss(case["max_epochs"], memory_features=f32(mem), memory_outputs=f32(out), K=case["K"], reg_adv=ra, reg_gsa=rg, reg_nap=rn)
    ctx.expect(mod.n_epochs == 0, "the count of epochs starts at 0")
    mod.n_epochs = case["epoch"]
    x = case["epoch"] / case["max_epochs"]
    adv = -np.log(1 - ps).mean() - np.log(pt).mean()
    sv = lambda f: np.linalg.svd(laplacian(adjacency(f, "gauss"), "laplac1"), compute_uv=False)
    total = ra * (2 / (1 + np.exp(-10 * x)) - 1) * adv + rg * np.linalg.norm(sv(fs) - sv(ft)) + rn * x * exp
    got = mod(y_s=None, y_pred_s=None, y_pred_t=f32(lt), domain_pred_s=f32(ps), domain_pred_t=f32(pt), features_s=f32(fs), features_t=f32(ft), sample_idx_s=None, sample_idx_t=ti)
    ctx.close(got, total, "SPALoss", rtol=2e-3, atol=1e-3)
    ctx.hard(case["bank"] > 0)


# -------------------------------------------------------------- adversarial


@facet("C27", "adversarial", gen_loss, 150, rule="adversarial: the domains have different sizes")
def adversarial(case, ctx):
    r, fs, ft, ys, ls, lt = arrays(case)
    ns, nt = len(fs), len(ft)
    ps, pt = r.uniform(0.02, 0.98, size=ns), r.uniform(0.02, 0.98, size=nt)
    exp = -np.log(1 - ps).mean() - np.log(pt).mean()
    f32 = lambda a: torch.tensor(np.asarray(a), dtype=torch.float32)
    kw = dict(domain_pred_s=f32(ps), domain_pred_t=f32(pt), features_s=f32(fs), features_t=f32(ft), y_s=None, y_pred_s=None, sample_idx_t=None)
    ctx.close(DANNLoss()(**kw), exp, "DANNLoss", rtol=1e-4)
    ctx.close(CDANLoss()(**kw), exp, "CDANLoss", rtol=1e-4)
    mse = (ps**2).mean() + ((pt - 1) ** 2).mean()
    ctx.close(DANNLoss(torch.nn.MSELoss())(**kw), mse, "DANNLoss with another criterion", rtol=1e-4)
    ctx.close(CDANLoss(torch.nn.MSELoss())(**kw), mse, "CDANLoss with another criterion", rtol=1e-4)
    # margin disparity discrepancy
    qs, qt = r.normal(size=(ns, case["k"])), r.normal(size=(nt, case["k"]))
    gamma = case["scale"] + 1
    cs, ct = ls.argmax(1), lt.argmax(1)
    ce = -logsoftmax(qs)[np.arange(ns), cs].mean()
    sm = 0.9 * softmax(qt) + 0.1 / case["k"]
    mod_ce = np.log(1 - sm[np.arange(nt), ct]).mean()
    got = MDDLoss(gamma=gamma)(y_pred_s=T(ls), y_pred_t=T(lt), domain_pred_s=T(qs), domain_pred_t=T(qt), y_s=None)
    ctx.close(got, gamma * ce - mod_ce, "MDDLoss", rtol=1e-6)
    directional(ctx, lambda a, b: MDDLoss(gamma=gamma)(y_pred_s=T(ls), y_pred_t=T(lt), domain_pred_s=a, domain_pred_t=b), [qs, qt], "MDDLoss", r)
    for s in (0.0, 0.1, 0.4):
        sm = (1 - s) * softmax(qt) + s / case["k"]
        ctx.close(ModifiedCrossEntropyLoss(smoothing=s)(T(qt), torch.tensor(ct)), np.log(1 - sm[np.arange(nt), ct]).mean(), "ModifiedCrossEntropyLoss", rtol=1e-6)
    ctx.expect(float(DummyLoss()(**kw)) == 0, "DummyLoss is not 0")
    ctx.hard(ns != nt)


# ------------------------------------------------------------------ clusters


def gen_km(draw):
    return dict(n=draw(ints(4, 20)), d=draw(ints(2, 4)), k=draw(ints(1, 4)), seed=draw(SEED), init=draw(BOOL), n_init=draw(ints(1, 4)),
                max_iter=draw(pick(1, 2, 50)), state=draw(ints(0, 5)), numpy=draw(BOOL), scale=draw(pick(0.3, 1.5)))


def spherical(Z, C, max_iter, tol=1e-4):
    """Reference: returns inertia, centroids, iterations and the smallest margin met."""
    margin = np.inf
    for it in range(max_iter):
        norm = np.maximum(np.linalg.norm(C, axis=1), 1e-8)
        cos = Z @ C.T / norm
        if C.shape[0] > 1:
            s = np.sort(cos, axis=1)
            margin = min(margin, (s[:, -1] - s[:, -2]).min())
        lab = cos.argmax(1)
        N = np.stack([Z[lab == j].sum(0) for j in range(len(C))])
        delta = np.abs(C - N) - 1e-5 * np.abs(N)
        if np.all(delta <= tol):
            break
        C = N
    norm = np.maximum(np.linalg.norm(C, axis=1), 1e-8)
    return (0.5 * (1 - (Z * C[lab]).sum(1) / norm[lab])).sum(), C, it, margin


@facet("C27", "kmeans", gen_km, 200, rule="kmeans: more than one cluster and more than one iteration")
def kmeans(case, ctx):
    r = rng(case["seed"], 9)
    k = min(case["k"], case["n"])
    X = r.normal(size=(case["n"], case["d"])) + 3 * case["scale"] * r.normal(size=(k, case["d"]))[r.randint(k, size=case["n"])]
    Z = X / np.linalg.norm(X, axis=1, keepdims=True)
    init = Z[r.permutation(case["n"])[:k]]
    before = X.copy()
    kw = dict(n_clusters=k, n_init=case["n_init"], max_iter=case["max_iter"], random_state=case["state"])
    data = X if case["numpy"] else T(X)
    if case["init"]:
        km = SphericalKMeans(initial_centroids=T(init) if not case["numpy"] else torch.tensor(init, dtype=torch.float32), **kw).fit(data)
        inertia, C, it, margin = spherical(Z, init, case["max_iter"])
        if margin > 1e-5:
            ctx.close(km.cluster_centers_, C, "centroids", rtol=1e-3, atol=1e-3)
            ctx.close(km.inertia_, inertia, "inertia", rtol=1e-3, atol=1e-3)
            ctx.expect(km.n_iter_ == it + 1, f"{km.n_iter_} iterations instead of {it + 1}")
    else:
        km = SphericalKMeans(**kw).fit(data)
        state = torch.get_rng_state()
        again = SphericalKMeans(**kw).fit(data)
        ctx.same(km.cluster_centers_, again.cluster_centers_, "centroids with the same random_state")
        ctx.expect(torch.equal(state, torch.get_rng_state()), "an int random_state touches the global generator")
        # the restarts draw their starts one after the other: the best of them is kept
        gen = torch.Generator().manual_seed(case["state"])
        runs = [SphericalKMeans(**{**kw, "n_init": 1, "random_state": gen}).fit(data) for _ in range(case["n_init"])]
        best = min(runs, key=lambda m: float(m.inertia_))
        ctx.close(km.inertia_, best.inertia_, "inertia: the best of the restarts", rtol=1e-4, atol=1e-5)
        if sum(abs(float(m.inertia_ - best.inertia_)) < 1e-4 for m in runs) == 1:
            ctx.close(km.cluster_centers_, best.cluster_centers_, "centroids: those of the best restart", rtol=1e-4, atol=1e-5)
            ctx.expect(km.n_iter_ == best.n_iter_, "n_iter_: that of the best restart")
        # more restarts with the same seed can only be better
        more = SphericalKMeans(**{**kw, "n_init": case["n_init"] + 3}).fit(data)
        ctx.expect(more.inertia_ <= km.inertia_ + 1e-5, f"inertia {more.inertia_} with more restarts instead of at most {km.inertia_}")
    C = np.asarray(km.cluster_centers_, dtype=float)
    norm = np.maximum(np.linalg.norm(C, axis=1), 1e-8)
    cos = Z @ C.T / norm
    s = np.sort(cos, axis=1)
    sure = s[:, -1] - s[:, -2] > 1e-4 if k > 1 else np.ones(len(Z), bool)
    ctx.same(np.asarray(km.predict(data))[sure], cos.argmax(1)[sure], "predict")
    ctx.same(np.asarray(km.predict(data * 7.0))[sure], cos.argmax(1)[sure], "predict of scaled rows")
    ctx.same(X, before, "the rows given")
    ctx.hard(k > 1 and km.n_iter_ > 1)

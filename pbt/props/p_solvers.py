"""C20 numerical solvers of skada.utils."""

import warnings

import numpy as np
import torch
from scipy.optimize import linprog

from skada.utils import frank_wolfe, qp_solve, torch_minimize

from ..core import facet
from ..gens import BOOL, SEED, ints, pick, rng


def _psd(r, d, rank, scale):
    B = r.normal(size=(rank, d))
    return scale * B.T @ B / d


def gen_qp(draw):
    return dict(
        seed=draw(SEED), d=draw(ints(1, 6)), rank=draw(ints(1, 6)), scale=draw(pick(0.1, 1.0, 10.0)),
        c=draw(pick(True, True, False)),
        lb=draw(pick("none", "zero", "rand")), ub=draw(pick("none", "rand")),
        ineq=draw(ints(0, 3)), eq=draw(ints(0, 1)),
        x0=draw(pick(None, "feasible", "zeros")), log=draw(BOOL), explicit=draw(BOOL),
        tol=draw(pick(1e-10, 1e-8)),
    )


@facet("C20", "qp_scipy", gen_qp, 250, shards=2,
       rule="qp_scipy: at least one constraint is active at the solution")
def qp_scipy(case, ctx):
    r = rng(case["seed"])
    d = case["d"]
    Q = _psd(r, d, case["rank"], case["scale"]) + 1e-2 * np.eye(d)
    c = r.normal(size=d) * 2 if case["c"] else None
    z = r.uniform(0.1, 2.0, size=d)  # a feasible point
    lb = {"none": None, "zero": np.zeros(d), "rand": z - r.uniform(0, 1, d)}[case["lb"]]
    ub = None if case["ub"] == "none" else z + r.uniform(0, 1, d)
    A = b = Aeq = beq = None
    if case["ineq"]:
        A = r.normal(size=(case["ineq"], d))
        b = A @ z + r.uniform(0, 0.5, case["ineq"])
    if case["eq"] and d > 1:
        Aeq = r.normal(size=(1, d))
        beq = Aeq @ z
    kw = dict(c=c, A=A, b=b, Aeq=Aeq, beq=beq, lb=lb, ub=ub, tol=case["tol"], max_iter=2000, log=case["log"])
    if case["x0"]:
        kw["x0"] = z.copy() if case["x0"] == "feasible" else np.zeros(d)
    if case["explicit"]:
        kw["solver"] = "scipy"
    keep = {k: None if v is None else np.array(v) for k, v in kw.items() if k not in ("log", "solver")}
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        out = qp_solve(Q, **kw)
    for k, v in keep.items():
        if v is not None:
            ctx.same(kw[k], v, f"argument {k} after the call")
    ctx.expect(len(out) == (3 if case["log"] else 2), "number of outputs")
    x, val = np.asarray(out[0]), out[1]
    cc = np.zeros(d) if c is None else c

    def f(v):
        return 0.5 * v @ Q @ v + cc @ v

    ctx.close(val, f(x), "value of the objective at the solution", rtol=1e-9, atol=1e-12)
    if any("direction" in str(w.message) or "singular" in str(w.message).lower()
           or "LSQ" in str(w.message) for w in ws):
        ctx.label("solver gave up")
        return
    t = 1e-5
    if lb is not None:
        ctx.expect((x >= lb - t).all(), f"below the lower bound: {(x - lb).min()}")
    if ub is not None:
        ctx.expect((x <= ub + t).all(), f"above the upper bound: {(x - ub).max()}")
    if A is not None:
        ctx.expect((A @ x <= b + t).all(), f"inequality violated: {A @ x - b}")
    if Aeq is not None:
        ctx.expect(np.abs(Aeq @ x - beq).max() < t, f"equality violated: {Aeq @ x - beq}")
    # optimality certificate: no feasible direction descends (a linear program,
    # in a ball around x, so that it is bounded)
    g = Q @ x + cc
    box = [(max(-1e3 if lb is None else lb[i], x[i] - 5), min(1e3 if ub is None else ub[i], x[i] + 5))
           for i in range(d)]
    box = [(min(lo, x[i]), max(hi, x[i])) for i, (lo, hi) in enumerate(box)]
    lp = linprog(g, A_ub=A, b_ub=None if b is None else b + t, A_eq=Aeq, b_eq=None if Aeq is None else Aeq @ x,
                 bounds=box)
    if lp.status != 0:
        return
    gap = g @ x - lp.fun
    tol = 5e-3 * (1 + abs(f(x)) + np.abs(g).max())
    ctx.hard(bool(np.abs(g).max() > 1e-3))
    ctx.expect(gap < tol, f"the objective still decreases by {gap:.3g} in a feasible direction (value {f(x):.4g})")


def gen_fw(draw):
    return dict(
        seed=draw(SEED), d=draw(ints(1, 8)), rank=draw(ints(1, 8)), scale=draw(pick(0.1, 1.0, 5.0)),
        c=draw(pick(True, True, False)),
        form=draw(pick("eq", "two", "two", "direct")), pos=draw(pick("ones", "rand")),
        lo=draw(pick(0.0, 0.5, 1.0, -3.0)), width=draw(pick(0.0, 0.5, 4.0)),
        it=draw(pick(50, 300, 1000)), x0=draw(pick(None, None, "ones")),
    )


@facet("C20", "frank_wolfe", gen_fw, 250, shards=2,
       rule="frank_wolfe: the sum constraint is an interval, or its coefficients differ")
def fw(case, ctx):
    r = rng(case["seed"], 1)
    d = case["d"]
    Q = _psd(r, d, case["rank"], case["scale"])
    c = r.normal(size=d) * 2 if case["c"] else None
    cc = np.zeros(d) if c is None else c
    a = np.ones(d) if case["pos"] == "ones" else r.uniform(0.3, 3.0, d)
    lo, hi = case["lo"], max(case["lo"], 0.0) + case["width"] + 0.25
    if case["form"] == "eq" or case["width"] == 0:
        lo = hi
    ctx.hard(lo != hi or case["pos"] == "rand")
    ctx.label(case["form"])
    x0 = np.ones(d) if case["x0"] else None
    kw = dict(x0=x0, max_iter=case["it"])
    if case["form"] == "direct":
        x = frank_wolfe(lambda v: Q @ v + cc, a, max(lo, 0.0), hi, **kw)
        val = None
    elif case["form"] == "eq":
        x, val = qp_solve(Q, c, Aeq=a[None], beq=np.array([hi]), solver="frank-wolfe", **kw)
    else:
        x, val = qp_solve(Q, c, A=np.stack([a, -a]), b=np.array([hi, -lo]), solver="frank-wolfe", **kw)
    x = np.asarray(x)
    if x0 is not None:
        ctx.same(x0, np.ones(d), "x0 after the call")

    def f(v):
        return 0.5 * v @ Q @ v + cc @ v

    if val is not None:
        ctx.close(val, f(x), "value of the objective", rtol=1e-9, atol=1e-12)
    t = 1e-9 * (1 + hi)
    ctx.expect((x >= -t).all(), f"negative coordinate {x.min()}")
    ctx.expect(max(lo, 0) - t <= a @ x <= hi + t, f"constraint value {a @ x} outside [{lo}, {hi}]")
    # f(x) - f* <= max_iter guarantee of the method with step 2 / (k + 1)
    L = np.linalg.eigvalsh(Q)[-1]
    far = hi / a.min()
    bound = 2 * L * 2 * far**2 / (case["it"] + 1)
    best = _line_search_fw(Q, cc, a, max(lo, 0.0), hi)
    gap = f(x) - f(best)
    ctx.expect(gap <= bound + 1e-8 * (1 + abs(f(x))), f"objective {f(x):.6g}, but {f(best):.6g} is reachable (guarantee {bound:.3g})")


def _line_search_fw(Q, c, a, lo, hi, it=800):
    d = len(a)
    x = np.full(d, (lo + hi) / 2 / d) / a
    for _ in range(it):
        g = Q @ x + c
        k = (g / a).argmin()
        v = np.zeros(d)
        v[k] = (hi if g[k] < 0 else lo) / a[k]
        s = v - x
        den = s @ Q @ s
        num = -(g @ s)
        if num <= 1e-14:
            break
        x = x + (1.0 if den <= 1e-15 else min(1.0, num / den)) * s
    return x


def gen_reject(draw):
    return dict(kind=draw(pick("solver", "Aeq rows", "A rows", "not opposite", "empty", "none")),
                d=draw(ints(1, 4)), seed=draw(SEED))


@facet("C20", "reject", gen_reject, 60, rule="reject: a form the frank-wolfe solver cannot handle")
def reject(case, ctx):
    d = case["d"]
    r = rng(case["seed"], 2)
    Q, c, one = np.eye(d), r.normal(size=d), np.ones((1, d))
    ctx.hard(case["kind"] != "solver")
    k = case["kind"]
    kw = dict(solver="frank-wolfe")
    if k == "solver":
        kw = dict(solver="simplex", A=one, b=np.ones(1))
    elif k == "Aeq rows":
        kw.update(Aeq=np.ones((2, d)), beq=np.ones(2))
    elif k == "A rows":
        kw.update(A=np.ones((3, d)), b=np.ones(3))
    elif k == "not opposite":
        kw.update(A=np.stack([one[0], -2 * one[0]]), b=np.array([1.0, -0.5]))
    elif k == "empty":
        kw.update(A=np.stack([one[0], -one[0]]), b=np.array([1.0, -1.5]))
    ctx.raises(ValueError, lambda: qp_solve(Q, c, **kw), k)


@facet("C20", "single_row", lambda draw: dict(d=draw(ints(2, 4)), seed=draw(ints(0, 50))), 10,
       rule="single_row: the minimum is interior to the inequality")
def single_row(case, ctx):
    """Known finding: one inequality row is treated as an equality."""
    d = case["d"]
    m = rng(case["seed"], 4).uniform(0.05, 0.15, size=d)
    x, _ = qp_solve(np.eye(d), -m, A=np.ones((1, d)), b=np.array([1.0]), solver="frank-wolfe", max_iter=3000)
    ctx.hard()
    ctx.expect((x >= -1e-9).all() and x.sum() <= 1 + 1e-9, "feasible")
    if np.abs(x - m).max() > 0.05:
        ctx.fail(f"the minimum of the problem is {m}, got {x}", finding="fw-single-inequality")


def gen_torch(draw):
    return dict(
        seed=draw(SEED), shapes=draw(pick([[3]], [[2, 2]], [[2], [3]], [[1], [2, 2], [1]])),
        fun=draw(pick("quad", "quad", "logcosh", "quartic")), as_list=draw(BOOL), tensor=draw(BOOL),
        start=draw(pick("zeros", "rand")), cond=draw(pick(1.0, 30.0)), tol=draw(pick(1e-6, 1e-4)),
        capped=draw(pick(False, False, False, True)),
    )


@facet("C20", "torch_minimize", gen_torch, 150,
       rule="torch_minimize: more than one variable, or a function that is not quadratic")
def tmin(case, ctx):
    r = rng(case["seed"], 3)
    shapes = case["shapes"]
    opt = [r.normal(size=s) for s in shapes]
    wts = [r.uniform(1.0, case["cond"] + 1e-9, size=s) for s in shapes]
    start = [np.zeros(s) if case["start"] == "zeros" else r.normal(size=s) for s in shapes]
    ctx.hard(len(shapes) > 1 or case["fun"] != "quad")

    def loss(*xs):
        tot = 0
        for x, o, w in zip(xs, opt, wts):
            e = x - torch.from_numpy(o)
            w = torch.from_numpy(w)
            if case["fun"] == "quad":
                tot = tot + (w * e**2).sum()
            elif case["fun"] == "logcosh":
                tot = tot + (w * torch.log(torch.cosh(e))).sum()
            else:
                tot = tot + (w * (e**2 + 0.1 * e**4)).sum()
        return tot + 0.75

    x0 = [torch.from_numpy(s.copy()) if case["tensor"] else s.copy() for s in start]
    single = len(shapes) == 1 and not case["as_list"]
    arg = x0[0] if single else (x0 if case["as_list"] else tuple(x0))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        sol, val = torch_minimize(loss, arg, tol=case["tol"], max_iter=1 if case["capped"] else 500)
    warned = any("did not converge" in str(w.message) for w in ws)
    for s, x in zip(start, x0):
        ctx.same(np.asarray(x), s, "x0 after the call")
    sols = sol if isinstance(sol, list) else [sol]
    ctx.expect(isinstance(sol, list) == (len(shapes) > 1), f"type of the solution {type(sol)}")
    ctx.expect([list(np.shape(s)) for s in sols] == [list(s) for s in shapes], "shapes of the solution")
    ctx.close(val, loss(*[torch.from_numpy(np.asarray(s)) for s in sols]).item(), "loss at the solution", rtol=1e-12)
    xs = [torch.tensor(np.asarray(s), requires_grad=True) for s in sols]
    loss(*xs).backward()
    g = max(float(x.grad.abs().max()) for x in xs)
    ctx.expect(warned == (g > case["tol"]), f"gradient {g:.3g}, tolerance {case['tol']}, warned={warned}")
    if not case["capped"]:
        for s, o in zip(sols, opt):
            ctx.close(s, o, "the minimum", rtol=0, atol=3e-3)
        ctx.close(val, 0.75, "the minimal value", rtol=0, atol=1e-5)

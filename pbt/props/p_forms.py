"""C31 the container, number type and memory layout of the data do not matter."""

import numpy as np
import pandas as pd
import skada
from hypothesis import strategies as st
from skada import make_da_pipeline
from skada.metrics import (
    CircularValidation,
    DeepEmbeddedValidation,
    ImportanceWeightedScorer,
    MaNoScorer,
    MixValScorer,
    PredictionEntropyScorer,
    SoftNeighborhoodDensity,
    SupervisedScorer,
)
from skada.model_selection import (
    DomainShuffleSplit,
    LeaveOneDomainOut,
    SourceTargetShuffleSplit,
    StratifiedDomainShuffleSplit,
)
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.model_selection import cross_validate
from sklearn.naive_bayes import GaussianNB
from sklearn.preprocessing import MinMaxScaler, StandardScaler

from ..catalog import E, build, gen_method, task_of
from ..core import facet
from ..gens import describe_problem, gen_problem, make_problem, mask_y, pick, rng
from .p_catalog import Unfit, fit, outs

X_FORMS = ("array", "array", "list", "rows", "frame", "frame_shuffled", "frame_repeated", "fortran", "strided", "readonly", "object", "int64", "int32", "int16", "float32")
Y_FORMS = ("array", "array", "list", "series", "series_shuffled", "float", "int32", "strided", "readonly")
D_FORMS = ("array", "array", "list", "series", "series_shuffled", "float", "int8", "int32", "strided", "readonly")


def strided(a):
    b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
    v = b[tuple(slice(None, None, 2) for _ in a.shape)]
    v[...] = a
    return v


def index(kind, n, r):
    if kind.endswith("shuffled"):
        return r.permutation(n)
    if kind.endswith("repeated"):
        return np.zeros(n, dtype=int)
    return np.arange(n)


def form(a, kind, r):
    """`a` in another container; the values stay the same."""
    if kind == "list":
        return a.tolist()
    if kind == "rows":
        return [row for row in a]
    if kind.startswith("frame"):
        return pd.DataFrame(a, columns=[f"f{i}" for i in range(a.shape[1])], index=index(kind, len(a), r))
    if kind.startswith("series"):
        return pd.Series(a, index=index(kind, len(a), r))
    if kind == "fortran":
        return np.asfortranarray(a)
    if kind == "strided":
        return strided(a)
    if kind == "object":
        return a.astype(object)
    if kind == "readonly":
        a = a.copy()
        a.setflags(write=False)
        return a
    if kind in ("int64", "int32", "int16", "int8", "float32", "float"):
        if np.isnan(a.astype(float)).any():
            return a.copy()
        out = a.astype(kind)
        return out if np.array_equal(out, a) else a.copy()
    return a.copy()


def take(a, idx):
    if hasattr(a, "iloc"):
        return a.iloc[idx]
    if isinstance(a, list):
        return [a[i] for i in idx]
    return a[idx]


def gen_forms(draw):
    c = gen_method(draw)
    c["X"], c["y"], c["sd"] = draw(pick(*X_FORMS)), draw(pick(*Y_FORMS)), draw(pick(*D_FORMS))
    c["Xt"], c["sdt"] = draw(pick("same", "array", "list", "frame_shuffled")), draw(pick("same", "array", "list", "series_shuffled"))
    c["den"] = 64 if c["X"] in ("float32", "fortran", "strided") else draw(pick(1, 1, 4, 64))
    return c


SMOOTH = ("CORAL", "LinearOTMapping", "MultiLinearMongeAlignment", "EntropicOTMapping", "no adaptation", "source scaling", "per-domain scaling")
EXACT = ("array", "list", "rows", "object", "frame", "frame_shuffled", "frame_repeated", "readonly")


@facet("C31", "methods", gen_forms, 200, shards=8, rule="methods: the method fits and at least one argument is given in another form")
def methods(case, ctx):
    """Every method gives the same predictions for the same values in another container."""
    X, y, sd = make_problem(case)
    X = np.round(3 * case["den"] * X) / case["den"]  # exact in every number type
    if case["X"].startswith("int"):
        X = np.round(X)
        if case["params"].get("weight_estimator") == "@gmm":
            return  # the Gaussian mixture of scikit-learn truncates the means for integer samples
    ym = mask_y(y, sd, task_of(case))
    describe_problem(case, ctx)
    t = np.flatnonzero(sd < 0)
    ctx.label(case["method"], "X=" + case["X"], "y=" + case["y"], "sd=" + case["sd"])
    try:
        est = fit(build(case), X, ym, sd)
        ref = outs(est, X[t], sd[t])
        ref["score"] = np.asarray(est.score(X[t], y[t], sample_domain=sd[t]))
    except Unfit:
        return
    r = rng(case["seed"], 31)
    a, b, d = form(X, case["X"], r), form(ym, case["y"], r), form(sd, case["sd"], r)
    at = take(a, t) if case["Xt"] == "same" else form(X[t], case["Xt"], r)
    dt = take(d, t) if case["sdt"] == "same" else form(sd[t], case["sdt"], r)
    est = fit(build(case), a, b, d)
    got = outs(est, at, dt)
    got["score"] = np.asarray(est.score(at, take(form(y, case["y"], r), t), sample_domain=dt))
    what = f"X as {case['X']}, y as {case['y']}, sample_domain as {case['sd']}"
    ctx.expect(set(got) == set(ref), f"{what}: methods {sorted(got)} and {sorted(ref)}")
    for m in ref:
        if case["X"] in EXACT or case["X"].startswith("int"):
            ctx.same(got[m].astype(float), ref[m].astype(float), f"{what}: {m}")
        elif case["den"] == 64 and case["base"] in ("logreg", "nb", "ridge") and (m == "predict_proba" or task_of(case) == "reg"):
            if case["X"] == "float32" and E[case["method"]].kind != "weight" and case["method"] not in SMOOTH:
                continue  # small differences can grow
            ctx.close(got[m], ref[m], f"{what}: {m}", rtol=2e-2, atol=2e-2)
    ctx.hard((case["X"], case["y"], case["sd"]) != ("array",) * 3)


# ------------------------------------------------ selectors, scorers, splitters


def gen_sel(draw):
    c = gen_problem(draw, task=draw(pick("classif", "reg")), min_n=8, max_n=14)
    steps = st.tuples(pick("Shared", "PerDomain", "SelectSource", "SelectTarget", "SelectSourceTarget"), pick("standard", "minmax"))
    c["steps"] = draw(st.lists(steps, min_size=1, max_size=3))
    c["final"] = draw(pick("Shared", "PerDomain", "SelectSource", "SelectTarget", "SelectSourceTarget"))
    c["weights"] = draw(pick("none", "none", "array", "list", "series_shuffled"))
    if {"SelectSource", "SelectTarget"} & {n for n, _ in c["steps"]}:
        c["weights"] = "none"  # these steps drop rows, not weights that a later step asks for
    c["X"], c["y"], c["sd"] = draw(pick(*X_FORMS)), draw(pick(*Y_FORMS)), draw(pick(*D_FORMS))
    c["sdt"] = draw(pick("same", "array", "list", "series_shuffled"))
    return c


@facet("C31", "selectors", gen_sel, 300, shards=4, rule="selectors: at least one argument is given in another form")
def selectors(case, ctx):
    """Rows are routed by position, whatever container and index hold them."""
    X, y, sd = make_problem(case)
    X = np.round(4 * X) / (1 if case["X"].startswith("int") else 4)
    y = mask_y(y, np.abs(sd), task_of(case))  # nothing masked, float for regression
    describe_problem(case, ctx)
    ctx.label("final=" + case["final"], "X=" + case["X"], "sd=" + case["sd"])
    r = rng(case["seed"], 32)
    w = None if case["weights"] == "none" else r.rand(len(y)) + 0.5

    def pipe():
        sel = lambda n, e: getattr(skada, n)(e, **({"mask_target_labels": False} if n == "PerDomain" else {}))
        steps = [sel(n, StandardScaler() if k == "standard" else MinMaxScaler()) for n, k in case["steps"]]
        last = LogisticRegression(C=5.0) if case["k"] else Ridge(0.5)
        if w is not None:
            last = last.set_fit_request(sample_weight=True)
        return make_da_pipeline(*steps, sel(case["final"], last))

    def run(X, y, sd, w, Xt, sdt):
        est = pipe().fit(X, y, sample_domain=sd, **({} if w is None else {"sample_weight": w}))
        return outs(est, Xt, sdt)

    def attempt(*a):
        try:
            return run(*a)
        except ValueError as e:
            if any(s in str(e) for s in ("0 sample(s)", "samples are missing", "one class", "not present in the fitted")):
                return None
            raise

    test = r.permutation(len(X))[: len(X) - 2]
    ref = attempt(X, y, sd, w, X[test], sd[test])
    a, b, d = form(X, case["X"], r), form(y, case["y"], r), form(sd, case["sd"], r)
    at = take(a, test)
    dt = take(d, test) if case["sdt"] == "same" else form(sd[test], case["sdt"], r)
    got = attempt(a, b, d, None if w is None else form(w, case["weights"], r), at, dt)
    what = f"X as {case['X']}, y as {case['y']}, sample_domain as {case['sd']}, weights as {case['weights']}"
    ctx.expect((ref is None) == (got is None), f"{what}: fits {got is not None}, with arrays {ref is not None}")
    if ref is None:
        ctx.label("refused")
        return
    ctx.expect(set(got) == set(ref), f"{what}: methods {sorted(got)} and {sorted(ref)}")
    exact = case["X"] in EXACT
    for m in ref:
        if exact:
            ctx.same(got[m].astype(float), ref[m].astype(float), f"{what}: {m}")
        elif m != "predict" or not case["k"]:
            ctx.close(got[m], ref[m], f"{what}: {m}", rtol=1e-2, atol=1e-2)
    ctx.hard((case["X"], case["y"], case["sd"]) != ("array",) * 3)


SCORERS = {
    "sup": lambda: SupervisedScorer(),
    "iw": lambda: ImportanceWeightedScorer(),
    "entropy": lambda: PredictionEntropyScorer(),
    "snd": lambda: SoftNeighborhoodDensity(),
    "dev": lambda: DeepEmbeddedValidation(random_state=0),
    "circular": lambda: CircularValidation(),
    "mixval": lambda: MixValScorer(random_state=0),
    "mano": lambda: MaNoScorer(),
}
SPLITTERS = {
    "SourceTargetShuffleSplit": lambda: SourceTargetShuffleSplit(n_splits=3, test_size=0.3, random_state=1),
    "DomainShuffleSplit": lambda: DomainShuffleSplit(n_splits=3, test_size=0.3, random_state=1),
    "StratifiedDomainShuffleSplit": lambda: StratifiedDomainShuffleSplit(n_splits=3, test_size=0.5, random_state=1),
    "LeaveOneDomainOut": lambda: LeaveOneDomainOut(max_n_splits=3, test_size=0.3, random_state=1),
}


def gen_eval(draw):
    c = gen_problem(draw, min_n=12, max_n=18, label_sets=[[0, 1, 2], [5, 2, 9]])
    c["what"] = draw(st.sampled_from(sorted(SCORERS) + sorted(SPLITTERS) + ["cross_validate"]))
    c["X"], c["y"], c["sd"] = draw(pick(*[f for f in X_FORMS if f != "float32"])), draw(pick(*Y_FORMS)), draw(pick(*D_FORMS))
    return c


@facet("C31", "evaluation", gen_eval, 250, shards=3, rule="evaluation: at least one argument is given in another form")
def evaluation(case, ctx):
    """Scores and splits are the same for the same values in another container."""
    X, y, sd = make_problem(case)
    X = np.round(4 * X) / (1 if case["X"].startswith("int") else 4)
    what = case["what"]
    if what == "LeaveOneDomainOut":  # domains are given as source and as target
        X, y, sd = np.concatenate([X, X + 1]), np.concatenate([y, y]), np.concatenate([np.abs(sd), -np.abs(sd)])
    ym = mask_y(y, sd)
    describe_problem(case, ctx)
    ctx.label(what, "X=" + case["X"], "sd=" + case["sd"])
    r = rng(case["seed"], 33)
    a, b, d = form(X, case["X"], r), form(ym, case["y"], r), form(sd, case["sd"], r)
    truth = form(y, case["y"], r)
    pipe = lambda: make_da_pipeline(StandardScaler(), GaussianNB() if what != "iw" else LogisticRegression().set_score_request(sample_weight=True))
    if what in SCORERS:
        est = pipe().fit(X, ym, sample_domain=sd)
        kw = {"target_labels": y} if what == "sup" else {}
        ref = SCORERS[what]()(est, X, ym, sample_domain=sd, **kw)
        got = SCORERS[what]()(est, a, b, sample_domain=d, **({"target_labels": truth} if kw else {}))
        ctx.close(got, ref, f"{what}", rtol=1e-7, atol=1e-9)
    elif what == "cross_validate":
        cv = lambda: SPLITTERS["StratifiedDomainShuffleSplit"]()
        one = lambda A, B, D, T: cross_validate(pipe(), A, B, cv=cv(), scoring={"sup": SupervisedScorer(), "mano": MaNoScorer()},
                                                params={"sample_domain": D, "target_labels": T}, error_score="raise")
        ref, got = one(X, ym, sd, y), one(a, b, d, truth)
        for k in ("test_sup", "test_mano"):
            ctx.close(got[k], ref[k], f"cross_validate {k}", rtol=1e-7, atol=1e-9)
    else:
        ref = list(SPLITTERS[what]().split(X, ym, sd))
        got = list(SPLITTERS[what]().split(a, b, d))
        ctx.expect(len(ref) == len(got), f"{what}: number of splits")
        for (tr, te), (tr2, te2) in zip(ref, got):
            ctx.same(np.asarray(tr2), tr, f"{what}: train rows")
            ctx.same(np.asarray(te2), te, f"{what}: test rows")
    ctx.hard((case["X"], case["y"], case["sd"]) != ("array",) * 3)

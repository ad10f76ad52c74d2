"""C06 target-label secrecy, C07 purity, C08 row order, C09 histories and copies,
C12 default domains, C30 domain labels are names: over every shallow method."""

import copy
import pickle
import warnings

import numpy as np
from hypothesis import strategies as st
from skada import PerDomain, SelectSource, SelectSourceTarget, SelectTarget, make_da_pipeline
from skada.base import Shared
from sklearn.base import BaseEstimator, TransformerMixin, clone

from ..catalog import E, base_of, build, gen_method, outputs, task_of, value
from ..core import facet
from ..gens import BOOL, SEED, describe_problem, gen_problem, ints, make_problem, mask_y, pick, rng


class Unfit(Exception):
    """The method (or its base estimator) refuses this problem."""


REFUSALS = ("class", "decision_function", "positive weights", "sample_weight.shape")


def fit(est, X, y, sd):
    try:
        return est.fit(X, y, sample_domain=sd)
    except ValueError as e:
        # single class left, hinge loss without decision function, ...
        if any(w in str(e) for w in ("one class", "single class", "number of classes", "decision_function", "same class",
                                     "at least 2 classes", "at least two classes")):
            raise Unfit(str(e)) from e
        raise


def outs(est, X, sd, **kw):
    out = {"predict": np.asarray(est.predict(X, sample_domain=sd, **kw))}
    for m in ("predict_proba", "predict_log_proba", "decision_function"):
        if m != "decision_function" and est.steps[-1][0] == "dasvmclassifier":
            continue  # the default SVC draws its calibration folds at random
        if hasattr(est, m):
            try:
                out[m] = np.asarray(getattr(est, m)(X, sample_domain=sd, **kw))
            except ValueError as e:
                if "does not support" not in str(e):
                    raise
    return out


def same_outs(ctx, a, b, what, exact=True):
    ctx.expect(set(a) == set(b), f"{what}: methods {sorted(a)} and {sorted(b)}")
    for m in a:
        if exact:
            ctx.same(a[m], b[m], f"{what}: {m}")
        elif m == "predict" and a[m].dtype.kind in "iu" or m == "decision_function" and "predict_proba" in a:
            pass  # compared through probabilities
        else:
            lo = "log" in m  # the logarithm of a probability near 0 says nothing about an error in it
            ctx.close(np.exp(a[m]) if lo else a[m], np.exp(b[m]) if lo else b[m], f"{what}: {m}", rtol=1e-3, atol=1e-3)


def data(case, ctx):
    X, y, sd = make_problem(case)
    describe_problem(case, ctx)
    ctx.label(case["method"], "base=" + case["base"])
    return X, y, mask_y(y, sd, task_of(case)), sd


# ------------------------------------------------------------------- C06


def gen_secret(draw):
    c = gen_method(draw)
    c["kinds"] = sorted(draw(st.sets(pick("true", "swap", "const", "alien", "partial", "noise"), min_size=1, max_size=3)))
    c["dtype"] = draw(pick("same", "float", "int32", "list"))
    return c


def other(kind, case, y, ym, sd):
    t = sd < 0
    out = y.astype(float)
    r = rng(case["seed"], 77)
    lab = np.unique(y[~t])
    if task_of(case) == "classif":
        if kind == "swap":
            out[t] = lab[(np.searchsorted(lab, y[t]) + 1) % len(lab)]
        elif kind == "const":
            out[t] = lab[0]
        elif kind == "alien":
            out[t] = 99
        elif kind == "partial":
            out[t & (r.rand(len(y)) < 0.5)] = -1
        elif kind == "noise":
            out[t] = lab[r.randint(len(lab), size=t.sum())]
        return out.astype(int)
    if kind == "swap":
        out[t] = -3 * out[t] + 0.25
    elif kind == "const":
        out[t] = 0.5
    elif kind == "alien":
        out[t] = 1e6
    elif kind == "partial":
        out[t & (r.rand(len(y)) < 0.5)] = np.nan
    elif kind == "noise":
        out[t] = r.normal(size=t.sum())
    return out


@facet("C06", "labels", gen_secret, 90, shards=6, rule="labels: the method fits and predicts at least two values")
def secrecy(case, ctx):
    X, y, ym, sd = data(case, ctx)
    t = sd < 0
    try:
        ref = outs(fit(build(case), X, ym, sd), X[t], sd[t])
    except Unfit:
        ctx.label("refused")
        return
    for kind in case["kinds"]:
        yo = other(kind, case, y, ym, sd)
        if case["dtype"] == "float":
            yo = yo.astype(float)
        elif case["dtype"] == "int32" and task_of(case) == "classif":
            yo = yo.astype(np.int32)
        before = yo.copy()
        est = fit(build(case), X, yo, sd)
        ctx.same(yo, before, "the labels of the caller")
        got = outs(est, X[t], sd[t])
        for m in ref:
            ctx.same(np.asarray(got[m], dtype=float), np.asarray(ref[m], dtype=float), f"{m} with {kind} target labels against masked ones")
    ctx.hard(len(np.unique(ref["predict"])) > 1)


class Watch(TransformerMixin, BaseEstimator):
    """A transformer that notes the rows and labels it is fitted on."""

    LOG = []

    def __init__(self, tag=0):
        self.tag = tag

    def fit(self, X, y=None):
        Watch.LOG.append((self.tag, np.array(X), None if y is None else np.array(y)))
        self.fitted_ = True
        return self

    def transform(self, X):
        return np.asarray(X) + 0.0


class WatchDomains(Watch):
    """One that takes the domains."""

    __metadata_request__fit = {"sample_domain": True}

    def fit(self, X, y=None, sample_domain=None):
        return super().fit(X, y)


class WatchLastAlone(BaseEstimator):
    """A final estimator that notes the same."""

    def __init__(self, tag=0):
        self.tag = tag

    def fit(self, X, y=None):
        Watch.LOG.append((self.tag, np.array(X), None if y is None else np.array(y)))
        self.fitted_ = True
        return self

    def predict(self, X):
        return np.zeros(len(X))


SELECTORS = dict(shared=Shared, perdomain=PerDomain, source=SelectSource, target=SelectTarget, both=SelectSourceTarget, plain=lambda e: e)


def gen_steps(draw):
    c = gen_problem(draw, max_sources=2, max_targets=2, min_n=6, max_n=10, task=draw(pick("classif", "classif", "reg")))
    c["steps"] = [[draw(pick(*SELECTORS)), draw(BOOL)] for _ in range(draw(ints(1, 3)))]
    # rows of a kind that one selector dropped are not there for the next
    only = next((s for s, _ in c["steps"] if s in ("source", "target", "both")), None)
    c["steps"] = [[only if s in ("source", "target", "both") else s, d] for s, d in c["steps"]]
    c["default"] = draw(pick("shared", "shared", "per_domain"))
    c["method"], c["base"] = "no adaptation", "logreg"
    c["kinds"] = [draw(pick("true", "swap", "const", "alien", "partial", "noise"))]
    c["via"] = draw(pick("fit", "fit", "fit_transform"))
    c["nest"] = draw(BOOL)
    return c


@facet("C06", "steps", gen_steps, 120, shards=2, rule="steps: a step is given labels and the target labels given are not all masked")
def secret_steps(case, ctx):
    """No step of a pipeline is given a target label (but those under or
    after a target selector, which does not mask: there the label is the row's own)."""
    X, y, sd = make_problem(case)
    describe_problem(case, ctx)
    ym = mask_y(y, sd, case["task"])
    yo = other(case["kinds"][0], case, y, ym, sd)
    steps = [SELECTORS[sel]((WatchDomains if dom else Watch)(i)) for i, (sel, dom) in enumerate(case["steps"])]
    last = WatchLastAlone(99)
    # (steps of a nested pipeline keep the names they got there)
    if case["nest"] and 1 < len(steps) == len({dom for _, dom in case["steps"]}):
        pipe = make_da_pipeline(steps[0], make_da_pipeline(*steps[1:], default_selector=case["default"]), last, default_selector=case["default"])
    else:
        pipe = make_da_pipeline(*steps, last, default_selector=case["default"])
    Watch.LOG.clear()
    if case["via"] == "fit":
        pipe.fit(X, yo, sample_domain=sd)
    else:
        pipe[:-1].fit_transform(X, yo, sample_domain=sd)
    target = {row.tobytes() for row in X[sd < 0]}
    known = {row.tobytes(): v for row, v in zip(X[sd >= 0], y[sd >= 0])}
    given = {row.tobytes(): v for row, v in zip(X, yo)}
    seen = 0
    ctx.expect(Watch.LOG, "no step was fitted")
    for tag, rows, labels in Watch.LOG:
        if labels is None:
            continue
        ctx.expect(len(rows) == len(labels), f"step {tag}: {len(rows)} rows and {len(labels)} labels")
        for row, v in zip(np.ascontiguousarray(rows), labels):
            if row.tobytes() in target:
                hidden = np.isnan(v) if case["task"] == "reg" else v == -1
                if any(name in ("target", "both") for name, _ in case["steps"][: tag + 1]):
                    # these selectors are there to hand target labels on, to
                    # their own step and to what follows it
                    hidden = hidden or given[row.tobytes()] == v
                ctx.expect(hidden, f"step {tag} ({case['steps'][tag] if tag != 99 else 'last'}) is given the label {v} of a target row")
            else:
                ctx.expect(known[row.tobytes()] == v, f"step {tag} is given the label {v} for a source row")
            seen += 1
    ctx.label(*(s for s, _ in case["steps"]))
    ctx.hard(seen > 0 and case["kinds"][0] != "partial")


# ------------------------------------------------------------------- C07


def fingerprint(o, depth=0):
    if isinstance(o, np.ndarray):
        return ("nd", o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, (str, bytes, int, float, bool, type(None), np.generic)):
        return repr(o)
    if isinstance(o, dict):
        return ("dict", tuple((repr(k), fingerprint(v, depth + 1)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(fingerprint(v, depth + 1) for v in o))
    if hasattr(o, "__dict__") and depth < 8:
        return (type(o).__name__, fingerprint(vars(o), depth + 1))
    return repr(type(o))


def gen_pure(draw):
    c = gen_method(draw)
    c["layout"] = draw(pick("C", "F", "view", "readonly"))
    c["targets"] = draw(pick("masked", "true"))
    return c


@facet("C07", "inputs", gen_pure, 80, shards=6, rule="inputs: the method fits")
def purity(case, ctx):
    """fit, predict, transform, score leave arrays, parameters and estimators as given."""
    X, y, ym, sd = data(case, ctx)
    yin = (ym if case["targets"] == "masked" else y).copy()
    t = sd < 0
    try:
        ref = outs(fit(build(case), X, yin, sd), X[t], sd[t])
    except Unfit:
        return
    if case["layout"] == "F":
        Xin = np.asfortranarray(X)
    elif case["layout"] == "view":
        Xin = np.repeat(X, 2, axis=0)[::2]
    else:
        Xin = X.copy()
    arrays = dict(X=Xin, y=yin, sample_domain=sd.copy())
    copies = {k: v.copy() for k, v in arrays.items()}
    if case["layout"] == "readonly":
        for v in arrays.values():
            v.setflags(write=False)
    e = E[case["method"]]
    base = base_of(e, case)
    params = {k: value(v) for k, v in case["params"].items()}
    given = dict(params)
    before = fingerprint([base, params])
    est = e.make(base, params)
    inners = {n: s.get_params(deep=False).get("base_estimator") for n, s in est.steps}
    steps_before = {n: fingerprint(s) for n, s in inners.items()}
    fit(est, arrays["X"], arrays["y"], arrays["sample_domain"])
    got = outs(est, arrays["X"][t], arrays["sample_domain"][t])
    if case["layout"] == "readonly":
        same_outs(ctx, got, ref, "read-only arrays")
    elif case["layout"] == "view":
        same_outs(ctx, got, ref, "non-contiguous arrays", exact=case["base"] in ("tree", "treereg"))
    Xt, sdt = arrays["X"][t], arrays["sample_domain"][t]
    yt = y[t]
    c2 = (Xt.copy(), sdt.copy(), yt.copy())
    est.predict(Xt, sample_domain=sdt)
    est.score(Xt, yt, sample_domain=sdt)
    if e.kind not in ("perdomain", "mlm"):
        est.predict(arrays["X"], sample_domain=arrays["sample_domain"], allow_source=True)
    for m in ("transform",):
        head = est[:-1]
        if len(est.steps) > 1 and hasattr(head, m):
            head.transform(Xt, sample_domain=sdt)
    for name, a, b in zip(("X", "sample_domain", "y"), c2, (Xt, sdt, yt)):
        ctx.same(b, a, f"{name} given to predict, score, transform")
    for k, v in copies.items():
        ctx.same(arrays[k], v, f"{k} given to fit and predict")
    ctx.expect(fingerprint([base, params]) == before, "the estimators and parameters given were modified")
    ctx.expect(all(params[k] is given[k] for k in params), "parameters replaced")
    for n, inner in inners.items():
        ctx.expect(fingerprint(inner) == steps_before[n], f"step {n}: fitting modified the estimator given to the selector")
    if case["layout"] != "readonly" and case["base"] not in ("knn", "knnreg"):  # the neighbours of scikit-learn keep a reference
        arrays["X"] *= -3
        arrays["y"][:] = arrays["y"][0]
        arrays["sample_domain"][:] = arrays["sample_domain"][0]
        same_outs(ctx, outs(est, c2[0], c2[1]), got, "after the caller reused the arrays given to fit", exact=case["layout"] == "C")
    ctx.hard()


ALONE = [n for n in E if E[n].kind not in ("plain", "perdomain")]


def gen_alone(draw):
    c = gen_method(draw, only=ALONE)
    c["targets"] = draw(pick("masked", "true"))
    return c


@facet("C07", "standalone", gen_alone, 60, shards=3, rule="standalone: the estimator has a parameter that is an estimator")
def standalone(case, ctx):
    """An adapter or estimator used without a pipeline leaves its parameters and arrays as given,
    and fitted again it gives what a fresh one does."""
    X, y, ym, sd = data(case, ctx)
    yin = (ym if case["targets"] == "masked" else y).copy()
    e = E[case["method"]]
    solo = e.kind == "solo"

    def inner():
        est = build(case).steps
        return clone(est[-1][1] if solo else dict(est)[e.adapter]).base_estimator

    def use(est, X, yin, sd):
        t = sd < 0
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                if solo:
                    est.fit(X, yin, sample_domain=sd)
                    return [est.predict(X[t])]
                out = est.fit_transform(X, yin, sample_domain=sd)
                out = list(out) if isinstance(out, tuple) else [out]
                return out + [est.transform(X[t], sample_domain=sd[t])]
            except (ValueError, IndexError) as ex:
                return [type(ex).__name__]

    def flat(out):
        return [np.asarray(v) for o in out for v in (o.values() if isinstance(o, dict) else [o]) if v is not None]

    est = inner()
    before = fingerprint(est.get_params(deep=False))
    objects = {k: v for k, v in est.get_params(deep=False).items()}
    arrays = dict(X=X.copy(), y=yin.copy(), sample_domain=sd.copy())
    first = flat(use(est, *arrays.values()))
    for k, v in dict(X=X, y=yin, sample_domain=sd).items():
        ctx.same(arrays[k], v, f"{k} given to a standalone {type(est).__name__}")
    ctx.expect(fingerprint(est.get_params(deep=False)) == before, "fitting a standalone estimator modified its parameters")
    ctx.expect(all(est.get_params(deep=False)[k] is v for k, v in objects.items()), "fitting replaced a parameter")
    # other data in between
    use(est, X[::-1] * 2 + 1, yin[::-1], sd[::-1])
    ctx.expect(fingerprint(est.get_params(deep=False)) == before, "fitting again modified the parameters")
    random_state = e.random and case["params"].get("random_state") is None
    if not random_state and case["base"] != "default" and case["method"] != "DASVMClassifier":
        again = flat(use(est, X, yin, sd))
        ctx.expect(len(again) == len(first), "refitting: number of outputs")
        for a, b in zip(first, again):
            if a.dtype.kind in "fc":
                ctx.close(a, b, "an estimator fitted again on the same data", rtol=1e-9, atol=1e-9)
            else:
                ctx.same(a, b, "an estimator fitted again on the same data")
    ctx.label("fits" if first and first[0].dtype.kind != "U" else "refused")
    ctx.hard(any(hasattr(v, "fit") for v in objects.values()))


# ------------------------------------------------------------------- C08


ORDER_FIT = [n for n in E if n not in ("KLIEPReweight", "DASVMClassifier", "GradualEstimator", "JDOTClassifier", "JDOTRegressor", "MMDLSConSMapping")]


def gen_rows(draw):
    c = gen_method(draw, only=ORDER_FIT, min_n=10, max_n=18)
    c["base"] = "ridge" if c["task"] == "reg" else draw(pick("logreg", "logreg", "nb"))
    if c["method"] == "MMDTarSReweight" and c["base"] == "nb":
        c["base"] = "logreg"  # a class can have weight 0, where naive Bayes gives NaN
    if c["params"].get("n_components", 1) is None:
        c["params"]["n_components"] = 2
    if "n_neighbors" in c["params"]:
        c["params"]["n_neighbors"] = 1  # ties: with more, equal votes are settled by position
    if c["method"] == "OTLabelProp":
        c["params"]["reg"] = 0.5  # an exact plan can give two labels the same mass
    c["p"] = draw(SEED)
    return c


@facet("C08", "fit_rows", gen_rows, 60, shards=6, rule="fit_rows: the method fits and scores differ between rows")
def fit_rows(case, ctx):
    X, y, ym, sd = data(case, ctx)
    t = sd < 0
    p = rng(case["p"], 3).permutation(len(X))
    try:
        a = outs(fit(build(case), X, ym, sd), X[t], sd[t])
        b = outs(fit(build(case), X[p], ym[p], sd[p]), X[t], sd[t])
    except Unfit:
        return
    same_outs(ctx, b, a, "rows of fit in another order", exact=False)
    ctx.hard(np.ptp(a.get("predict_proba", a["predict"]).astype(float)) > 1e-3)


def gen_prows(draw):
    c = gen_method(draw)
    c["p"] = draw(SEED)
    return c


@facet("C08", "predict_rows", gen_prows, 80, shards=6, rule="predict_rows: the method fits and predicts at least two values")
def predict_rows(case, ctx):
    """The prediction of a target row depends on this row only."""
    X, y, ym, sd = data(case, ctx)
    t = sd < 0
    try:
        est = fit(build(case), X, ym, sd)
    except Unfit:
        return
    r = rng(case["p"], 4)
    Z = np.concatenate([X[t], X[t][: 4] + 0.3 * r.normal(size=X[t][:4].shape)])
    sz = np.concatenate([sd[t], sd[t][:4]])
    full = outs(est, Z, sz)
    p = r.permutation(len(Z))
    k = 1 + r.randint(len(Z) - 1)
    for what, idx in (("in another order", p), ("a subset", p[:k]), ("one row", p[:1]), ("repeated", np.r_[p, p[:3]])):
        part = outs(est, Z[idx], sz[idx])
        for m in full:
            if m == "predict" and full[m].dtype.kind in "iu":
                sure = np.ones(len(idx), bool)
                if "predict_proba" in full and full["predict_proba"].shape[1] > 1:
                    q = np.sort(full["predict_proba"][idx], axis=1)
                    sure = q[:, -1] - q[:, -2] > 1e-6
                elif "decision_function" in full and "predict_proba" not in full:
                    q = full["decision_function"][idx]
                    q = np.sort(q, axis=1)[:, -1] - np.sort(q, axis=1)[:, -2] if q.ndim == 2 else np.abs(q)
                    sure = q > 1e-6
                ctx.same(part[m][sure], full[m][idx][sure], f"{m} of rows {what}")
            else:
                ctx.close(part[m], full[m][idx], f"{m} of rows {what}", rtol=1e-6, atol=1e-7)
    ctx.hard(len(np.unique(full["predict"])) > 1)


def gen_trows(draw):
    c = gen_method(draw, kinds=("map",), exclude=("EntropicOTMapping",))
    c["p"] = draw(SEED)
    c["fresh"] = draw(BOOL)
    return c


@facet("C08", "transform_rows", gen_trows, 60, shards=4, rule="transform_rows: the representation differs from the rows")
def transform_rows(case, ctx):
    """The representation of a row, source rows included, depends on this row only."""
    X, y, ym, sd = data(case, ctx)
    try:
        est = fit(build(case), X, ym, sd)[:-1]
    except Unfit:
        return
    r = rng(case["p"], 4)
    Z, sz = X, sd
    if case["fresh"]:
        Z, sz = np.concatenate([X, X[:5] + 0.3 * r.normal(size=X[:5].shape)]), np.concatenate([sd, sd[:5]])
    full = est.transform(Z, sample_domain=sz, allow_source=True)
    p = r.permutation(len(Z))
    first = np.r_[0, 1 + r.permutation(len(Z) - 1)]
    sub = p[: 2 + r.randint(len(Z) - 2)]
    for what, idx in (("in another order", p), ("in another order after the first", first), ("a subset", sub), ("source only", p[sz[p] >= 0]),
                      ("one row", p[:1]), ("repeated", np.r_[p, p[:3]])):
        got = est.transform(Z[idx], sample_domain=sz[idx], allow_source=True)
        ctx.close(got, full[idx], f"rows {what}", rtol=1e-5, atol=1e-6)
    ctx.hard(full.shape != Z.shape or not np.allclose(full, Z))


# ------------------------------------------------------------------- C09


def gen_hist(draw):
    c = gen_method(draw)
    c["seed2"] = draw(SEED)
    c["params2"] = {k: draw(st.sampled_from(v)) for k, v in E[c["method"]].grid.items()}
    c["ops"] = draw(st.lists(pick("refit", "predict", "clone", "deepcopy", "pickle", "params", "otherfit", "failfit", "sibling"), min_size=1, max_size=5))
    return c


def set_adapter_params(case, est, params):
    name = E[case["method"]].adapter
    names = [s for s, _ in est.steps]
    step = name if name in names else next(s for s in names if s == name)
    est.set_params(**{f"{step}__{k}": value(v) for k, v in params.items()})
    return est


@facet("C09", "history", gen_hist, 70, shards=6, rule="history: at least two operations, one of which fits or changes parameters")
def history(case, ctx):
    """After any history of fits, copies and parameter changes, fitting gives what a
    fresh estimator with the same parameters gives."""
    X, y, ym, sd = data(case, ctx)
    t = sd < 0
    other_case = {**case, "seed": case["seed2"]}
    X2, y2, sd2 = make_problem(other_case)
    X2 = 3 * X2[:, : X.shape[1]] + 1
    ym2 = mask_y(y2, sd2, task_of(case))
    est = build(case)
    params = dict(case["params"])
    fitted = None

    def try_fit(e, *a):
        try:
            return outs(fit(e, *a), X[t], sd[t])
        except Unfit:
            return None

    fresh = {}

    def reference(ps):
        key = repr(sorted(ps.items()))
        if key not in fresh:
            fresh[key] = try_fit(build(case, ps), X, ym, sd)
        return fresh[key]

    for op in case["ops"]:
        if op == "refit":
            try_fit(est, X, ym, sd)
        elif op == "otherfit":
            try:
                fit(est, X2, ym2, sd2)
            except Unfit:
                pass
        elif op == "failfit":
            try:
                est.fit(X[:, :0], ym, sample_domain=sd)
            except Exception:
                pass
        elif op == "predict":
            try:
                est.predict(X[t], sample_domain=sd[t])
            except Exception:
                pass
        elif op == "clone":
            est = clone(est)
        elif op == "deepcopy":
            est = copy.deepcopy(est)
        elif op == "pickle":
            est = pickle.loads(pickle.dumps(est))
        elif op == "params" and case["params2"]:
            params = dict(case["params2"])
            set_adapter_params(case, est, params)
        elif op == "sibling":
            # another estimator of the same kind must not share state
            sib = build(case, case["params2"])
            try_fit(sib, X2, ym2, sd2)
            if case["params"]:
                set_adapter_params(case, sib, case["params2"])
    ref = reference(params)
    got = try_fit(est, X, ym, sd)
    ctx.expect((ref is None) == (got is None), "a fresh estimator and this one differ in whether they can be fitted")
    if ref is None:
        return
    same_outs(ctx, got, ref, f"after {case['ops']}")
    for what, dup in (("deepcopy", copy.deepcopy(est)), ("pickle", pickle.loads(pickle.dumps(est)))):
        same_outs(ctx, outs(dup, X[t], sd[t]), got, f"{what} of the fitted estimator")
    a = fingerprint([s.get_params()["base_estimator"] for _, s in clone(est).steps if "base_estimator" in s.get_params()])
    b = fingerprint([s.get_params()["base_estimator"] for _, s in build(case, params).steps if "base_estimator" in s.get_params()])
    ctx.expect(a == b, "the clone has other parameters than a fresh estimator")
    ctx.hard(len(case["ops"]) > 1 and set(case["ops"]) & {"refit", "otherfit", "params", "sibling", "failfit"} != set())


ALONE = [n for n in E if E[n].kind not in ("plain", "perdomain")]


def gen_alone(draw):
    c = gen_method(draw, kinds=("weight", "map", "prop", "solo"))
    c["seed2"], c["shift"] = draw(SEED), draw(pick(1.0, 3.0))
    c["ops"] = draw(st.lists(pick("fit", "other", "other", "fit_transform", "other", "clone", "pickle", "transform", "setsame"), min_size=2, max_size=5))
    return c


def alone(case):
    """The adapter or estimator itself, outside its pipeline."""
    est = build(case)
    name = E[case["method"]].adapter
    return next(s for n, s in est.steps if n == name).base_estimator


def flat(v):
    """Arrays of what fit_transform, transform or predict return."""
    if isinstance(v, tuple):
        X, *y, params = v
        return {"X": np.asarray(X), **{f"y{i}": np.asarray(a) for i, a in enumerate(y)}, **{k: np.asarray(a) for k, a in params.items() if a is not None}}
    return {"X": np.asarray(v)}


def learnt(e):
    """The numbers and arrays among the public attributes of a fitted estimator."""
    params = e.get_params(deep=False)
    out = {}
    for k, v in vars(e).items():
        if k.startswith("_") or k in params:
            continue
        if isinstance(v, (list, tuple)):
            out[f"{k} length"] = np.asarray(len(v))
            out.update({f"{k} {i}": a for i, a in enumerate(v) if isinstance(a, np.ndarray)})
        elif isinstance(v, (np.ndarray, float, int)):
            out[k] = np.asarray(v)
    return {k: v for k, v in out.items() if v.dtype.kind in "biuf"}


@facet("C09", "standalone", gen_alone, 120, shards=6, rule="standalone: at least two operations, one of which fits on other rows")
def standalone(case, ctx):
    """An adapter fitted outside a pipeline keeps its parameters, and fits like a fresh one."""
    X, y, ym, sd = data(case, ctx)
    X2, y2, sd2 = make_problem({**case, "seed": case["seed2"]})
    X2 = case["shift"] * X2[:, : X.shape[1]] + 1
    ym2 = mask_y(y2, sd2, task_of(case))
    solo, prop = (E[case["method"]].kind == k for k in ("solo", "prop"))
    fit_name = "fit_transform" if prop else "fit"  # label propagation has no fit alone

    def results(e):
        if solo:
            e.fit(X, ym, sample_domain=sd)
            return {"X": np.asarray(e.predict(X[sd < 0])), **learnt(e)}
        out = {"fit_transform " + k: v for k, v in flat(e.fit_transform(X, ym, sample_domain=sd)).items()}
        out.update({"transform " + k: v for k, v in flat(e.transform(X, sample_domain=sd, allow_source=True)).items()})
        getattr(e, fit_name)(X, ym, sample_domain=sd)
        out.update({"fit, transform " + k: v for k, v in flat(e.transform(X, sample_domain=sd, allow_source=True)).items()})
        out.update(learnt(e))
        return out

    def attempt(f):
        try:
            return f()
        except ValueError as err:
            if any(w in str(err) for w in ("one class", "single class", "number of classes", "decision_function", "at least 2 classes", "at least two classes", "same class")):
                return None
            raise

    ref = attempt(lambda: results(alone(case)))
    if ref is None:
        return
    est = alone(case)
    params = fingerprint(est.get_params())
    fitted = False
    for op in case["ops"]:
        if op in ("fit", "fit_transform"):
            f = getattr(est, op if not (solo or prop) else fit_name)
            attempt(lambda: f(X, ym, sample_domain=sd))
            fitted = True
        elif op == "other":
            attempt(lambda: getattr(est, fit_name)(X2, ym2, sample_domain=sd2))
            fitted = True
        elif op == "clone":
            est, fitted = clone(est), False
        elif op == "pickle":
            est = pickle.loads(pickle.dumps(est))
        elif op == "transform" and fitted:
            t = sd < 0
            attempt(lambda: est.predict(X[t]) if solo else est.transform(X[t], sample_domain=sd[t]))
        elif op == "setsame":
            est.set_params(**est.get_params(deep=False))
        ctx.expect(fingerprint(est.get_params()) == params, f"{op} changed the parameters")
    got = attempt(lambda: results(est))
    ctx.expect(got is not None and set(ref) <= set(got), f"after {case['ops']}: other results than a fresh one")
    for k in ref:
        ctx.same(got[k], ref[k], f"after {case['ops']}: {k}")
    ctx.expect(fingerprint(est.get_params()) == params, "fitting changed the parameters")
    ctx.expect(fingerprint(clone(est).get_params()) == params, "the clone of a fitted adapter has other parameters")
    ctx.hard(len(case["ops"]) > 1 and "other" in case["ops"])


# ------------------------------------------------------------------- C12

GATED = ("weight", "map", "prop")


def gen_default(draw):
    c = gen_method(draw, exclude=("MultiLinearMongeAlignment", "per-domain scaling"))
    c["labels2"] = draw(pick("same", "other"))
    return c


@facet("C12", "defaults", gen_default, 80, shards=5, rule="defaults: the method fits and predicts at least two values")
def defaults(case, ctx):
    X, y, ym, sd = data(case, ctx)
    t = sd < 0
    e = E[case["method"]]
    try:
        est = fit(build(case), X, ym, sd)
    except Unfit:
        return
    ref = outs(est, X[t], sd[t])
    got = {"predict": np.asarray(est.predict(X[t]))}
    for m in ref:
        if m != "predict":
            got[m] = np.asarray(getattr(est, m)(X[t]))
    same_outs(ctx, got, ref, "without sample_domain against the domains of the target rows")
    same_outs(ctx, outs(est, X[t], np.full(t.sum(), -11)), ref, "with another target label")
    acc = est.score(X[t], y[t])
    ctx.close(acc, est.score(X[t], y[t], sample_domain=sd[t]), "score without sample_domain", rtol=1e-12)
    if e.kind in GATED:
        s = ~t
        for m in ref:
            ctx.raises(ValueError, lambda: getattr(est, m)(X[s], sample_domain=sd[s]), f"{m} of source rows without allow_source")
            ctx.raises(ValueError, lambda: getattr(est, m)(X, sample_domain=sd), f"{m} of all rows without allow_source")
            ctx.raises(ValueError, lambda: getattr(est, m)(X, sample_domain=sd, allow_source=False), f"{m} of all rows with allow_source=False")
            full = np.asarray(getattr(est, m)(X, sample_domain=sd, allow_source=True))
            ctx.expect(len(full) == len(X), f"{m} of all rows with allow_source")
            ctx.close(full[t], ref[m], f"{m} of target rows among all rows with allow_source", rtol=1e-6, atol=1e-7)
        ctx.raises(ValueError, lambda: est.score(X, y, sample_domain=sd), "score of all rows without allow_source")
    ctx.hard(len(np.unique(ref["predict"])) > 1)


def gen_auto(draw):
    c = gen_method(draw, exclude=("per-domain scaling",))
    c["alone"] = draw(BOOL)
    c["y"] = draw(pick("array", "list", "float"))
    return c


@facet("C12", "fit_defaults", gen_auto, 80, shards=5, rule="fit_defaults: the method fits and predicts at least two values")
def fit_defaults(case, ctx):
    """Fitting on masked labels without domain labels is fitting with one source and one target domain."""
    X, y, ym, sd = data(case, ctx)
    t = sd < 0
    two = np.where(t, -2, 1)
    e = E[case["method"]]
    yin = ym.tolist() if case["y"] == "list" else ym.astype(float) if case["y"] == "float" else ym
    solo = case["alone"] and e.kind == "solo"

    def made():
        return next(s for n, s in build(case).steps if n == e.adapter).base_estimator if solo else build(case)

    def results(est):
        return {"predict": np.asarray(est.predict(X[t]))} if solo else outs(est, X[t], np.full(t.sum(), -2))

    try:
        ref = results(fit(made(), X, ym, two))
    except Unfit:
        return
    got = results(made().fit(X, yin))
    for m in ref:
        ctx.same(got[m].astype(float), ref[m].astype(float), f"{m} after fit without sample_domain")
    ctx.hard(len(np.unique(ref["predict"])) > 1)


# ------------------------------------------------------------------- C30


def gen_names(draw):
    c = gen_method(draw, max_sources=3, max_targets=3, min_n=7, max_n=12)
    c["add"] = draw(pick(0, 1, 5, 40))
    c["zero"] = draw(BOOL)
    c["dtype"] = draw(pick("int64", "int32", "float"))
    return c


@facet("C30", "relabel", gen_names, 80, shards=6, rule="relabel: the method fits and there are at least three domains")
def relabel(case, ctx):
    """Renaming domains, keeping their order and their side, changes nothing."""
    X, y, ym, sd = data(case, ctx)
    t = sd < 0
    src, tgt = np.unique(sd[~t]), np.unique(sd[t])
    gap = 3 + case["add"]
    # order kept on each side
    new_s = (0 if case["zero"] else 1) + gap * np.arange(len(src))
    new_t = -1 - case["add"] - 2 * np.arange(len(tgt))[::-1]
    sd2 = np.empty(len(sd), dtype=int)
    sd2[~t] = new_s[np.searchsorted(src, sd[~t])]
    sd2[t] = new_t[np.searchsorted(tgt, sd[t])]
    sd2 = sd2.astype(case["dtype"])
    try:
        a = outs(fit(build(case), X, ym, sd), X[t], sd[t])
        b = outs(fit(build(case), X, ym, sd2), X[t], sd2[t])
    except Unfit:
        return
    same_outs(ctx, b, a, f"domains renamed to {new_s.tolist()} {new_t.tolist()}")
    ctx.hard(len(src) + len(tgt) > 2)

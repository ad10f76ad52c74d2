"""C05 selector routing, C10 pipeline composition, C11 adapter metadata."""

import contextlib
import io
import tempfile

import numpy as np
from sklearn.base import BaseEstimator, clone
from sklearn.decomposition import PCA
from sklearn.linear_model import LinearRegression, LogisticRegression
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import MinMaxScaler, StandardScaler
from sklearn.utils.metaestimators import available_if

from skada import (
    PerDomain,
    SelectSource,
    SelectSourceTarget,
    SelectTarget,
    Shared,
    make_da_pipeline,
)
from skada.base import BaseAdapter, BaseSelector, IncompatibleMetadataError

from ..core import facet
from ..gens import BOOL, SEED, ints, pick, rng

SELECTORS = dict(
    Shared=Shared, PerDomain=PerDomain, SelectSource=SelectSource,
    SelectTarget=SelectTarget, SelectSourceTarget=SelectSourceTarget,
)


def _ids(X):
    """Row identifiers live in the first column (of the first slice for 3-D)."""
    X = np.asarray(X)
    return X.reshape(len(X), -1)[:, 0]


class _Rec(BaseEstimator):
    """Records what it was fitted with."""

    def __init__(self, tag=0, has_ft=True, dtype="float64", falsy=False):
        self.tag = tag
        self.has_ft = has_ft
        self.dtype = dtype
        self.falsy = falsy

    def __bool__(self):
        return not self.falsy

    def _note(self, X, y, sample_weight, sample_domain):
        self.rec_ = dict(
            X=np.array(X),
            y=None if y is None else np.array(y),
            w=None if sample_weight is None else np.array(sample_weight),
            d=None if sample_domain is None else np.array(sample_domain),
        )
        self.key_ = float(np.sum(_ids(X)) + 1000 * self.tag)
        self.calls_ = []
        return self

    def _out(self, X, method):
        self.calls_.append((method, _ids(X).copy()))
        r = (_ids(X) * 3 + self.key_).astype(self.dtype)
        return np.stack([_ids(X).astype(self.dtype), r], axis=1)


class _FitPlain:
    def fit(self, X, y=None):
        return self._note(X, y, None, None)


class _FitMeta:
    def fit(self, X, y=None, sample_weight=None, sample_domain=None):
        return self._note(X, y, sample_weight, sample_domain)


class _Predict:
    def predict(self, X):
        return self._out(X, "predict")

    def predict_proba(self, X):
        return self._out(X, "predict_proba")

    def decision_function(self, X):
        return self._out(X, "decision_function")


class PlainPredictor(_FitPlain, _Predict, _Rec):
    pass


class MetaPredictor(_FitMeta, _Predict, _Rec):
    pass


class PlainTransformer(_FitPlain, _Rec):
    def transform(self, X):
        return self._out(X, "transform")

    @available_if(lambda self: self.has_ft)
    def fit_transform(self, X, y=None):
        return self.fit(X, y).transform(X)


class MetaTransformer(_FitMeta, _Rec):
    def transform(self, X):
        return self._out(X, "transform")

    @available_if(lambda self: self.has_ft)
    def fit_transform(self, X, y=None, sample_weight=None, sample_domain=None):
        return self.fit(X, y, sample_weight, sample_domain).transform(X)


def gen_routing(draw):
    sel = draw(pick(*SELECTORS))
    kinds = ["PlainPredictor", "MetaPredictor", "PlainTransformer", "MetaTransformer"]
    kind = draw(pick(*kinds))
    n = draw(ints(2, 14))
    pool = draw(pick([1, -2], [1, 2, -3], [3, -1, -4], [1, 2, -1, -2], [0, 5, -5], [7, -7]))
    labels = [draw(pick(*pool)) for _ in range(n)]
    return dict(
        sel=sel, kind=kind, labels=labels,
        ndim=draw(pick(2, 2, 3)) if sel != "SelectSourceTarget" else 2,
        y=draw(pick("class", "class", "class", "reg", None)),
        premasked=draw(BOOL),
        mask=draw(BOOL),
        req_w=draw(BOOL), req_d=draw(BOOL),
        req2=draw(pick(None, None, [True, True], [True, False], [False, True], [False, False])),
        give_w=draw(BOOL),
        has_ft=draw(BOOL),
        falsy=draw(pick(False, False, True)),
        via=draw(pick("direct", "pipeline")),
        entry=draw(pick("fit", "fit_transform")),
        same_est=draw(BOOL),
        kdtype=draw(pick(["float64", "float64"], ["int64", "float64"], ["float64", "float32"])),
        ydtype=draw(pick("int64", "int64", "int8", "float64", "uint8")),
        seed=draw(SEED),
        refit=draw(BOOL),
        subset=draw(pick("all", "reversed", "half", "one_side")),
        method=draw(pick("predict", "predict_proba", "decision_function")),
    )


def _requests(case, tag):
    """What the estimator asks for at fit: (sample_weight, sample_domain)."""
    if tag == 2 and case.get("req2") is not None:
        return case["req2"]
    return case["req_w"], case["req_d"]


def _make(case, tag, dtype="float64"):
    cls = globals()[case["kind"]]
    est = cls(tag=tag, has_ft=case["has_ft"], dtype=dtype, falsy=case["falsy"])
    if case["kind"].startswith("Meta"):
        req_w, req_d = _requests(case, tag)
        est.set_fit_request(sample_weight=req_w, sample_domain=req_d)
    return est


@facet(
    "C05", "routing", gen_routing, 700, shards=4,
    rule="routing: at least two domains present with interleaved rows, and labels "
    "or weights given",
)
def check_routing(case, ctx):
    r = rng(case["seed"])
    sd = np.array(case["labels"])
    n = len(sd)
    src = sd >= 0
    sel, kind = case["sel"], case["kind"]
    predictor = kind.endswith("Predictor")
    can_mask = sel in ("Shared", "PerDomain", "SelectSource")
    mask = case["mask"] if can_mask else False
    X = np.zeros((n, 3) if case["ndim"] == 2 else (n, 2, 3))
    X[...] = r.normal(size=X.shape)
    X.reshape(n, -1)[:, 0] = r.permutation(np.arange(10, 10 + n))
    ids = _ids(X)
    if case["y"] == "class":
        y = r.randint(0, 3, n).astype(case["ydtype"])
    elif case["y"] == "reg":
        y = r.normal(size=n)
        # values that only mean "masked" for class labels are ordinary numbers here
        for l in np.unique(sd):
            rows = np.where(sd == l)[0]
            if len(rows) > 1:
                y[r.choice(rows)] = r.choice([-1.0, 0.0, -2.0])
    else:
        y = None
    premask = case["premasked"] and y is not None and y.dtype.kind in "if"
    masked_val = -1 if case["y"] == "class" else np.nan
    if premask and can_mask:
        y = y.copy()
        y[~src] = masked_val
    w = r.permutation(np.arange(1, n + 1)) / 8.0 if case["give_w"] else None
    ctx.label(sel, kind, f"y={case['y']}", f"mask={mask}", case["via"])

    dts = case["kdtype"]
    if sel == "SelectSourceTarget":
        a = _make(case, 1, dts[0])
        b = None if case["same_est"] else _make(case, 2, dts[1])
        selector = SelectSourceTarget(a, b)
    else:
        a, b = _make(case, 1), None
        if sel == "SelectTarget":
            selector = SelectTarget(a)
        else:
            selector = SELECTORS[sel](a, mask_target_labels=mask)

    # ----- reference model
    y_model = None if y is None else np.array(y, dtype=float)
    if y is not None and mask:
        y_model[~src] = masked_val
    meta = kind.startswith("Meta")
    uses_d = meta and case["req_d"]
    uses_w = meta and case["req_w"] and w is not None
    any_w = meta and w is not None and (case["req_w"] or b is not None and _requests(case, 2)[0])
    keep = np.ones(n, bool)
    if y is not None and predictor and not uses_d:
        keep = (y_model != -1) if case["y"] == "class" else np.isfinite(y_model)
    groups = {
        "Shared": lambda: {"": np.ones(n, bool)},
        "SelectSource": lambda: {"": src},
        "SelectTarget": lambda: {"": ~src},
        "PerDomain": lambda: {l: sd == l for l in np.unique(sd)},
        "SelectSourceTarget": lambda: {"source": src, "target": ~src},
    }[sel]()
    kw = dict(sample_domain=sd.copy())
    if any_w:
        # weights are routed only to estimators that ask for them
        kw["sample_weight"] = w.copy()
    expect_error = sel == "SelectSourceTarget" and (src.all() or not src.any())
    if sel == "SelectSourceTarget" and y is not None and len(y) and not expect_error:
        pass
    if sel in ("SelectSource", "SelectTarget") and not groups[""].any():
        return
    if sel == "Shared" and not keep.any():
        return
    if sel == "PerDomain" and not keep.any():
        return
    if sel == "SelectSourceTarget" and premask:
        return
    if y is not None and case["y"] == "reg" and (mask or premask) and not src.any():
        pass

    target = make_da_pipeline(selector) if case["via"] == "pipeline" else selector
    fitter = target
    X0, y0 = X.copy(), None if y is None else y.copy()
    # the estimator stays the last step, so that requests are strict
    use_ft = case["entry"] == "fit_transform" and not predictor

    if use_ft and any_w and case["via"] == "pipeline":
        try:
            fitter.fit_transform(X, y, **kw)
        except TypeError as e:
            ctx.fail(f"requested sample_weight refused by the pipeline: {e}",
                     finding="fit-transform-weights")
        except ValueError:
            ctx.expect(expect_error, "fit_transform raised")
        return

    def run_fit():
        if use_ft:
            return fitter.fit_transform(X, y, **kw)
        fitter.fit(X, y, **kw)
        return None

    if expect_error:
        ctx.raises(ValueError, run_fit, "SelectSourceTarget without one of the sides")
        return
    out = run_fit()
    if case["refit"]:
        if case["via"] == "pipeline":
            fitter = target = clone(target)
            selector = fitter[-1]
        out = run_fit()
    ctx.hard(len(set(case["labels"])) > 1 and (y is not None or w is not None)
             and bool(np.any(np.diff(src.astype(int)) != 0)))
    ctx.same(X, X0, "X after fit")
    if y is not None:
        ctx.same(y, y0, "y after fit")
    ctx.same(kw["sample_domain"], sd, "sample_domain after fit")

    # ----- the fitted estimators saw exactly their rows
    fitted = {}
    for key, rows in groups.items():
        rows = rows & keep
        if sel == "PerDomain" and not rows.any():
            ctx.expect(key not in selector.estimators_,
                       f"an estimator was fitted for domain {key} that has no row left")
            continue
        est = selector.get_estimator(*([] if key == "" else [key]))
        fitted[key] = est
        base = a if (b is None or key == "source") else b
        ctx.expect(est is not base, "the given estimator instance was fitted in place")
        ctx.expect(not hasattr(base, "rec_"), "the given estimator instance was fitted")
        ctx.expect(est.tag == base.tag, f"estimator for {key!r} comes from the wrong base")
        rec = est.rec_
        ctx.same(_ids(rec["X"]), ids[rows], f"{sel}[{key}] rows given to fit")
        ctx.same(rec["X"], X[rows], f"{sel}[{key}] X given to fit")
        if y is None:
            ctx.expect(rec["y"] is None, f"{sel}[{key}] got labels although y is None")
        else:
            ctx.same(np.asarray(rec["y"], float), y_model[rows], f"{sel}[{key}] y given to fit")
        wants_w, wants_d = _requests(case, base.tag)
        if meta and wants_w and w is not None:
            ctx.expect(rec["w"] is not None, f"{sel}[{key}] did not get sample_weight")
            ctx.same(rec["w"], w[rows], f"{sel}[{key}] sample_weight given to fit")
        else:
            ctx.expect(rec["w"] is None, f"{sel}[{key}] got unrequested sample_weight")
        if meta and wants_d:
            ctx.expect(rec["d"] is not None, f"{sel}[{key}] did not get sample_domain")
            ctx.same(rec["d"], sd[rows], f"{sel}[{key}] sample_domain given to fit")
        else:
            ctx.expect(rec["d"] is None, f"{sel}[{key}] got unrequested sample_domain")
    if sel == "PerDomain":
        ctx.expect(set(selector.estimators_) == set(fitted), "domains of fitted estimators")

    def expected_out(rows_idx):
        res = np.zeros((len(rows_idx), 2))
        for j, i in enumerate(rows_idx):
            key = next(k for k in fitted if k == "" or groups[k][i]) if sel not in (
                "SelectSource", "SelectTarget") else ""
            res[j] = [ids[i], ids[i] * 3 + fitted[key].key_]
        return res

    if out is not None:
        # a final transformer returns a container of the transformed rows
        Z = out._features if hasattr(out, "_features") else out
        rows = np.where(groups[""])[0] if sel in ("SelectSource", "SelectTarget") else np.arange(n)
        ctx.close(Z, expected_out(rows), f"{sel} fit_transform output", rtol=0, atol=1e-9)

    # ----- prediction: every row goes to its own estimator, in row order
    order = np.arange(n)
    if case["subset"] == "reversed":
        order = order[::-1]
    elif case["subset"] == "half":
        order = r.permutation(n)[: max(1, n // 2)]
    elif case["subset"] == "one_side":
        order = np.where(src)[0] if src.any() else order
    if sel == "PerDomain":
        unseen = [i for i in order if sd[i] not in fitted]
        if unseen:
            ctx.raises(
                ValueError,
                lambda: getattr(target, "predict" if predictor else "transform")(
                    X[order], sample_domain=sd[order]),
                "a domain without a fitted estimator",
            )
            order = np.array([i for i in order if sd[i] in fitted])
            if not len(order):
                return
    method = case["method"] if predictor else "transform"
    for est in fitted.values():
        est.calls_ = []
    res = getattr(target, method)(X[order], sample_domain=sd[order])
    ctx.close(res, expected_out(order), f"{sel}.{method} output", rtol=0, atol=1e-9)
    for key, est in fitted.items():
        rows = [i for i in order if key == "" or groups[key][i]] if sel not in (
            "SelectSource", "SelectTarget") else list(order)
        got = [c for c in est.calls_]
        ctx.expect(all(m == method for m, _ in got), f"{sel}[{key}] called {got}")
        ctx.same(np.concatenate([c for _, c in got]) if got else np.zeros(0),
                 ids[np.array(rows, int)], f"{sel}[{key}] rows given to {method}")


# --------------------------------------------------------------- C10 pipelines


def _steps(names):
    out = []
    for nm in names:
        out.append({
            "scale": lambda: StandardScaler(), "minmax": lambda: MinMaxScaler(),
            "pca": lambda: PCA(n_components=2, svd_solver="full"),
            "logreg": lambda: LogisticRegression(),
            "rec": lambda: PlainTransformer(tag=3),
        }[nm]())
    return out


def gen_pipeline(draw):
    k = draw(ints(1, 4))
    steps = []
    for _ in range(k):
        steps.append([
            # whitened data has no principal axes: PCA only as a first step
            draw(pick("scale", "minmax", "pca") if not steps else pick("scale", "minmax")),
            draw(pick("none", "none", "Shared", "PerDomain", "SelectSource", "SelectTarget")),
            draw(pick(None, None, "n1", "n2", "n3")),
        ])
    return dict(
        steps=steps,
        final=draw(pick("logreg", "logreg", "scale")),
        final_wrap=draw(pick("none", "none", "Shared", "SelectSource")),
        final_name=draw(pick(None, "clf")),
        default=draw(pick("shared", "shared", "per_domain", "PerDomain", "callable")),
        mask=draw(BOOL),
        nest=draw(ints(0, k)),
        nest_name=draw(pick(None, "blk")),
        n=draw(ints(10, 24)),
        seed=draw(SEED),
    )


def _wrap(est, how):
    return est if how == "none" else SELECTORS[how](est)


DEFAULTS = {
    "shared": ("shared", Shared), "per_domain": ("per_domain", PerDomain),
    "PerDomain": (PerDomain, PerDomain),
    "callable": (lambda est, mask_target_labels=True: Shared(est, mask_target_labels=mask_target_labels), Shared),
}


def _auto_names(selectors):
    names = []
    for s in selectors:
        nm = type(s.base_estimator).__name__.lower()
        names.append(("perdomain_" if isinstance(s, PerDomain) else "") + nm)
    out = []
    for i, nm in enumerate(names):
        if names.count(nm) > 1:
            out.append(f"{nm}-{names[:i + 1].count(nm)}")
        else:
            out.append(nm)
    return out


@facet(
    "C10", "compose", gen_pipeline, 160, shards=4,
    rule="compose: several steps, of which some share a type, are wrapped or nested",
)
def check_compose(case, ctx):
    default, default_cls = DEFAULTS[case["default"]]
    user, used = [], set()
    for nm, wrap, name in case["steps"]:
        est = _wrap(_steps([nm])[0], wrap)
        if name in used:
            name = None
        used.add(name)
        user.append((name, est))
    user.append((case["final_name"], _wrap(_steps([case["final"]])[0], case["final_wrap"])))
    protos = [(n, clone(e)) for n, e in user]

    def mk(steps, **kw):
        return make_da_pipeline(
            *[e if n is None else (n, e) for n, e in steps],
            default_selector=default, mask_target_labels=case["mask"], **kw,
        )

    flat = mk(user)
    # ----- structure
    ctx.expect(isinstance(flat, Pipeline), "make_da_pipeline returns a Pipeline")
    ctx.expect(len(flat.steps) == len(user), "number of steps")
    for (n_, given), (_, s) in zip(user, flat.steps):
        ctx.expect(isinstance(s, BaseSelector), "every step is a selector")
        if isinstance(given, BaseSelector):
            ctx.expect(s is given, "a step that is already a selector is kept")
        else:
            ctx.expect(type(s) is default_cls, f"default selector {type(s)}")
            ctx.expect(s.base_estimator is given, "the selector wraps the given estimator")
            ctx.expect(s.mask_target_labels == case["mask"], "mask_target_labels is passed on")
    auto = _auto_names([s for _, s in flat.steps])
    want = [a if n is None else n for a, (n, _) in zip(auto, user)]
    ctx.expect([n for n, _ in flat.steps] == want, f"names {[n for n, _ in flat.steps]} expected {want}")

    # ----- data
    r = rng(case["seed"])
    n = case["n"]
    X = r.normal(size=(n, 3)) + 3
    sd = r.permutation(np.where(np.arange(n) % 2 == 0, 1, -2))
    X[sd < 0] *= 2
    # both classes in each domain
    y = np.zeros(n, int)
    for l in (1, -2):
        y[np.where(sd == l)[0][::2]] = 1
    drops = any(w in ("SelectSource", "SelectTarget") for _, w, _ in case["steps"])
    final_pd = isinstance(flat.steps[-1][1], PerDomain)
    ctx.hard(len(user) > 2)
    ctx.label(case["default"], f"nest={case['nest']}", f"drops={drops}")

    # ----- clone equivalence and nesting
    sel_seq = [w for _, w, _ in case["steps"]]
    if drops:
        # once rows are dropped, later selectors of the other side would be empty
        kinds = {w for w in sel_seq + [case["final_wrap"]] if w.startswith("Select")}
        if len(kinds) > 1:
            return
        if final_pd or "SelectTarget" in kinds or any(
            isinstance(s, PerDomain) for _, s in flat.steps
        ):
            return
    if case["final"] == "logreg" and final_pd and case["mask"]:
        idx_eval = np.where(sd == 1)[0]
    else:
        idx_eval = np.arange(n)

    def predict(p):
        p.fit(X, y, sample_domain=sd)
        m = p.predict_proba if case["final"] == "logreg" else p.transform
        return m(X[idx_eval], sample_domain=sd[idx_eval])

    ref = _manual(protos, default_cls, case, X, y, sd, idx_eval)
    p1 = predict(flat)
    ctx.close(p1, ref, "pipeline against the steps applied one by one", rtol=1e-8)
    ctx.close(predict(clone(flat)), ref, "clone of the pipeline", rtol=1e-8)
    k = case["nest"]
    if 0 < k:
        inner = make_da_pipeline(
            *[e if n is None else (n, e) for n, e in [(n, clone(e)) for n, e in protos[:k]]],
            default_selector=default, mask_target_labels=case["mask"],
        )
        inner_names = [n for n, _ in inner.steps]
        nm = case["nest_name"]
        outer = mk([(nm, inner)] + [(n, clone(e)) for n, e in protos[k:]])
        ctx.expect(len(outer.steps) == len(user), "a nested DA pipeline is unrolled")
        got = [n for n, _ in outer.steps][:k]
        want = inner_names if nm is None else [f"{nm}__{i}" for i in inner_names]
        ctx.expect(got == want, f"nested names {got}, expected {want}")
        try:
            got = predict(outer)
        except ValueError as e:
            if nm is not None and "must not contain __" in str(e):
                ctx.fail(f"a named nested DA pipeline cannot be fitted: {e}",
                         finding="named-nested-pipeline")
                return
            raise
        ctx.close(got, ref, "nested pipeline against the flat one", rtol=1e-8)


def _manual(protos, default_cls, case, X, y, sd, idx_eval):
    """Apply the selectors' documented semantics by hand."""
    Z, yy, dd = X, y, sd
    Ze, de = X[idx_eval], sd[idx_eval]
    for j, (_, e) in enumerate(protos):
        cls = type(e) if isinstance(e, BaseSelector) else default_cls
        base = e.base_estimator if isinstance(e, BaseSelector) else e
        mask = e.mask_target_labels if isinstance(e, BaseSelector) else case["mask"]
        last = j == len(protos) - 1
        if cls is SelectSource:
            rows = dd >= 0
        elif cls is SelectTarget:
            rows = dd < 0
        else:
            rows = np.ones(len(dd), bool)
        Z, yy, dd = Z[rows], yy[rows], dd[rows]
        predictor = not hasattr(base, "transform")
        keep = (dd >= 0) if (predictor and mask) else np.ones(len(dd), bool)
        doms = [None] if cls is not PerDomain else list(np.unique(dd[keep]))
        ests = {}
        for d in doms:
            m = keep if d is None else keep & (dd == d)
            ests[d] = clone(base).fit(Z[m], yy[m])
        meth = "predict_proba" if predictor else "transform"

        def apply(A, labels):
            if cls is not PerDomain:
                return getattr(ests[None], meth)(A)
            out = [getattr(ests[l], meth)(a[None])[0] for a, l in zip(A, labels)]
            return np.array(out)

        Ze = apply(Ze, de)
        if not last:
            Z = apply(Z, dd)
    return Ze


def gen_options(draw):
    return dict(memory=draw(BOOL), verbose=draw(BOOL), fits=draw(ints(1, 3)),
                default=draw(pick("shared", "per_domain")), with_mean=draw(BOOL),
                adapter=draw(BOOL), n=draw(ints(6, 12)), seed=draw(SEED))


@facet("C10", "options", gen_options, 40, rule="options: a memory is given and the pipeline is fitted on several data")
def check_options(case, ctx):
    """memory and verbose are those of the pipeline, and change no result."""
    r = rng(case["seed"], 6)
    n = case["n"]
    ctx.hard(case["memory"] and case["fits"] > 1)

    def steps():
        mid = [RowAdapter("w", False)] if case["adapter"] else []
        return [StandardScaler(with_mean=case["with_mean"]), *mid, IdTransformer(),
                RecClf().set_fit_request(sample_weight=True, sample_domain=False)]

    kw = dict(default_selector=case["default"])
    with tempfile.TemporaryDirectory() as d:
        memory = d if case["memory"] else None
        plain = make_da_pipeline(*steps(), **kw)
        pipe = make_da_pipeline(*steps(), memory=memory, verbose=case["verbose"], **kw)
        ctx.expect(pipe.memory == memory, f"memory is {pipe.memory}")
        ctx.expect(pipe.verbose is case["verbose"], f"verbose is {pipe.verbose}")
        for i in range(case["fits"]):
            X = r.normal(size=(n, 2))
            X[:, 0] = r.permutation(np.arange(1, n + 1))
            sd = np.where(r.permutation(n) % 2 == 0, 1, -2)
            y = r.randint(0, 2, n)
            # a fit on the same data comes from the memory
            for _ in range(2):
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    pipe.fit(X, y, sample_domain=sd)
                ctx.expect(("Pipeline" in out.getvalue()) == case["verbose"], "verbose output")
                plain.fit(X, y, sample_domain=sd)
                ests = [p[-1].get_estimator(1) if case["default"] == "per_domain" else p[-1].get_estimator()
                        for p in (pipe, plain)]
                a, b = [e.rec_ for e in ests]
                for k in a:
                    ctx.expect((a[k] is None) == (b[k] is None), f"{k} given or not with a memory")
                    if a[k] is not None:
                        ctx.close(a[k], b[k], f"{k} with a memory")
                idx = sd > 0 if case["default"] == "per_domain" else sd < 0
                ctx.close(pipe.predict(X[idx], sample_domain=sd[idx], allow_source=True),
                          plain.predict(X[idx], sample_domain=sd[idx], allow_source=True), "predict with a memory")


def gen_bad_pipe(draw):
    return dict(kind=draw(pick("empty", "name", "type", "return")),
                s=draw(pick("foo", "Shared", "", "per-domain")), i=draw(ints(0, 9)))


@facet("C10", "reject", gen_bad_pipe, 30, rule="reject: a selector name or type that does not exist")
def check_bad_pipe(case, ctx):
    k = case["kind"]
    ctx.hard(k != "empty")
    if k == "empty":
        ctx.raises(TypeError, lambda: make_da_pipeline(), "no steps")
    elif k == "name":
        ctx.raises(ValueError, lambda: make_da_pipeline(StandardScaler(), default_selector=case["s"]), "unknown selector")
    elif k == "type":
        ctx.raises(ValueError, lambda: make_da_pipeline(StandardScaler(), default_selector=case["i"]), "selector type")
    else:
        ctx.raises(ValueError, lambda: make_da_pipeline(
            StandardScaler(), default_selector=lambda e, mask_target_labels: e), "selector output")


def gen_params(draw):
    return dict(
        sel=draw(pick(*SELECTORS)), mask=draw(BOOL), mean=draw(BOOL), std=draw(BOOL),
        set_mask=draw(pick(None, True, False)), set_std=draw(pick(None, True, False)),
        named=draw(BOOL),
    )


@facet("C10", "params", gen_params, 60, rule="params: a parameter is changed through the pipeline")
def check_params(case, ctx):
    """get_params / set_params / clone of a selector are consistent."""
    base = StandardScaler(with_mean=case["mean"], with_std=case["std"])
    sel = case["sel"]
    ctx.hard(case["set_mask"] is not None or case["set_std"] is not None)
    if sel == "SelectSourceTarget":
        s = SelectSourceTarget(base, StandardScaler(with_mean=not case["mean"]))
        c = clone(s)
        ctx.expect(c.source_estimator.with_mean == case["mean"]
                   and c.target_estimator.with_mean != case["mean"], "clone of SelectSourceTarget")
        if case["set_std"] is not None:
            s.set_params(source_estimator__with_std=case["set_std"])
            ctx.expect(s.source_estimator.with_std == case["set_std"], "set_params source_estimator__")
            ctx.expect(s.target_estimator.with_std is True, "set_params changed the other estimator")
        return
    mask = case["mask"] if sel != "SelectTarget" else False
    s = SELECTORS[sel](base, mask_target_labels=mask)
    pipe = make_da_pipeline(("s", s), LogisticRegression())
    c = clone(pipe).named_steps["s"]
    ctx.expect(type(c) is SELECTORS[sel], "clone keeps the selector class")
    ctx.expect(c.mask_target_labels == mask, f"clone of {sel} changed mask_target_labels to {c.mask_target_labels}")
    ctx.expect(c.base_estimator is not base and c.base_estimator.with_mean == case["mean"]
               and c.base_estimator.with_std == case["std"], "clone keeps base parameters")
    if case["set_std"] is not None:
        pipe.set_params(s__with_std=case["set_std"])
        ctx.expect(base.with_std == case["set_std"], "set_params reaches the base estimator")
        ctx.expect(pipe.get_params()["s__with_std"] == case["set_std"], "get_params after set_params")
        ctx.expect(clone(pipe).named_steps["s"].base_estimator.with_std == case["set_std"], "clone after set_params")
    if case["set_mask"] is not None and sel != "SelectTarget":
        pipe.set_params(s__mask_target_labels=case["set_mask"])
        ctx.expect(s.mask_target_labels == case["set_mask"], "set_params mask_target_labels")
    ctx.raises(ValueError, lambda: pipe.set_params(s__no_such_parameter=1), "unknown parameter")


# --------------------------------------------------------- C11 adapter metadata


class RowAdapter(BaseAdapter):
    """Adapter whose outputs are functions of row ids."""

    def __init__(self, mode="weights", drop=False, scale=2.0):
        self.mode = mode
        self.drop = drop
        self.scale = scale

    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        self.fitted_ = True
        ids = X[:, 0]
        keep = (ids.astype(int) % 3 != 0) if self.drop else np.ones(len(X), bool)
        out = {}
        if "w" in self.mode:
            out["sample_weight"] = (ids * self.scale)[keep]
        if "d" in self.mode:
            out["sample_domain"] = np.asarray(sample_domain)[keep]
        if "y" in self.mode:
            new_y = np.where(np.asarray(sample_domain) < 0, ids.astype(int) % 2, y)
            return X[keep], new_y[keep], out
        return X[keep], out

    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        return X


class RecClf(BaseEstimator):
    def fit(self, X, y=None, sample_weight=None, sample_domain=None):
        self.rec_ = dict(X=X, y=y, w=sample_weight, d=sample_domain)
        return self

    def predict(self, X):
        return X[:, 0]


def gen_meta(draw):
    # y-mode needs predicts_target_labels semantics; rows are dropped only by
    # adapters that give labels and domains for the rows they keep
    drop = draw(BOOL)
    return dict(
        mode="wdy" if drop else draw(pick("w", "w", "wd", "d", "y", "wy", "")),
        drop=drop,
        mid=draw(pick("none", "scaler", "rec", "source")),
        req=draw(pick(True, False, None)),
        user_w=draw(BOOL),
        req_d=draw(pick(True, False)),
        masked=draw(BOOL),
        mask=draw(BOOL),
        n=draw(ints(4, 16)),
        seed=draw(SEED),
        second=draw(BOOL),
        per_domain=draw(BOOL),
    )


class IdTransformer(PlainTransformer):
    def _out(self, X, method):
        return np.asarray(X, float).copy()


class WIdTransformer(_FitMeta, _Rec):
    """Identity that takes weights and domains when it asked for them."""

    def transform(self, X):
        return np.asarray(X, float).copy()

    def fit_transform(self, X, y=None, sample_weight=None, sample_domain=None):
        return self.fit(X, y, sample_weight, sample_domain).transform(X)


def gen_nested_meta(draw):
    k = draw(ints(1, 3))
    return dict(
        mids=[[draw(pick("plain", "meta", "adapter")), draw(pick(None, None, True, False)),
               draw(pick(True, False))] for _ in range(k)],
        # ends of the (recursively) nested prefixes; the adapter is step 0
        cuts=sorted({draw(ints(1, k + 1)) for _ in range(draw(ints(1, 2)))}),
        req=draw(pick(True, True, False, None)), mode=draw(pick("w", "w", "wd")),
        n=draw(ints(4, 10)), seed=draw(SEED),
    )


@facet("C10", "nested_meta", gen_nested_meta, 150, shards=2,
       rule="nested_meta: an adapter emits weights and a nested block holds a further step")
def check_nested_meta(case, ctx):
    """Nesting changes neither the weights that reach a step nor what is refused."""
    r = rng(case["seed"], 4)
    n = case["n"]
    X = r.normal(size=(n, 2))
    X[:, 0] = r.permutation(np.arange(1, n + 1))
    sd = np.where(r.permutation(n) % 2 == 0, 1, -2)
    y = r.randint(0, 2, n)

    def steps():
        out = [RowAdapter(case["mode"], False)]
        for kind, req, has_ft in case["mids"]:
            if kind == "plain":
                out.append(IdTransformer(has_ft=has_ft))
            elif kind == "adapter":
                out.append(RowAdapter("w", False, 5.0))
            else:
                t = WIdTransformer()
                t.set_fit_request(sample_domain=has_ft)
                if req is not None:
                    t.set_fit_request(sample_weight=req)
                out.append(t)
        est = RecClf().set_fit_request(sample_domain=False)
        if case["req"] is not None:
            est.set_fit_request(sample_weight=case["req"])
        return out + [est]

    def run(pipe):
        try:
            pipe.fit(X, y, sample_domain=sd)
        except IncompatibleMetadataError:
            return "refused"
        recs = []
        for _, s in pipe.steps:
            e = s.get_estimator()
            if hasattr(e, "rec_"):
                recs.append({k: None if e.rec_[k] is None else np.array(e.rec_[k])
                             for k in ("X", "y", "w", "d")})
        return recs

    flat = run(make_da_pipeline(*steps()))
    rest, at = steps(), 0
    block = None
    for cut in case["cuts"]:
        take = rest[at:cut]
        block = make_da_pipeline(*([] if block is None else [block]), *take)
        at = cut
    nested = make_da_pipeline(block, *rest[at:])
    ctx.hard(max(case["cuts"]) > 1)
    ctx.label("refused" if flat == "refused" else "fitted", f"depth={len(case['cuts'])}")
    got = run(nested)
    if flat == "refused" or isinstance(got, str):
        ctx.expect(isinstance(got, str) and flat == "refused",
                   "nesting changed whether weights nobody asked for are refused: "
                   f"flat {'refused' if flat == 'refused' else 'fitted'}, nested "
                   f"{'refused' if isinstance(got, str) else 'fitted'}")
        return
    ctx.expect(len(got) == len(flat), "recording steps")
    for i, (a, b) in enumerate(zip(flat, got)):
        for k in a:
            ctx.expect((a[k] is None) == (b[k] is None), f"step {i}: {k} given or not")
            if a[k] is not None:
                ctx.same(b[k], a[k], f"step {i}: {k} of the nested pipeline")


@facet(
    "C11", "adapter_output", gen_meta, 300, shards=2,
    rule="adapter_output: an adapter emits weights, labels or domains and the "
    "final estimator requests at least one of them",
)
def check_meta(case, ctx):
    r = rng(case["seed"])
    n = case["n"]
    X = r.normal(size=(n, 3))
    ids = r.permutation(np.arange(1, n + 1)).astype(float)
    X[:, 0] = ids
    sd = np.where(r.permutation(n) % 2 == 0, 1, -2)
    if not ((sd > 0).any() and (sd < 0).any()):
        return
    y = r.randint(0, 2, n)
    src = sd >= 0
    if case["masked"]:
        y[~src] = -1
    mode = case["mode"]
    predicts = "y" in mode
    adapter = RowAdapter(mode, case["drop"])
    if predicts:
        adapter.predicts_target_labels = True
    est = RecClf().set_fit_request(sample_weight=case["req"], sample_domain=case["req_d"])
    steps = [adapter]
    if case.get("per_domain") and not predicts and not case["drop"]:
        # one adapter per domain gives each row what the shared one gives
        steps = [PerDomain(adapter, mask_target_labels=case["mask"])]
        ctx.label("adapter per domain")
    if case["second"] and "w" in mode:
        # a later adapter's weights replace the earlier ones
        steps.append(RowAdapter("w", False, 5.0))
    if case["mid"] == "scaler":
        steps.append(IdTransformer(has_ft=True))
    elif case["mid"] == "rec":
        steps.append(IdTransformer(has_ft=False))
    elif case["mid"] == "source":
        steps.append(SelectSource(IdTransformer()))
    steps.append(est)
    pipe = make_da_pipeline(*steps, mask_target_labels=case["mask"])
    kw = dict(sample_domain=sd)
    ctx.label(f"mode={mode}", f"mid={case['mid']}", f"req={case['req']}")

    emits_w = "w" in mode
    if emits_w and case["req"] is None:
        ctx.hard()
        try:
            pipe.fit(X, y, **kw)
        except IncompatibleMetadataError:
            return
        except Exception as e:
            ctx.fail(f"weights nobody asked for: {type(e).__name__}: {e}")
            return
        ctx.fail("sample_weight of the adapter was dropped silently")
        return
    if case["req"] is None:
        return
    pipe.fit(X, y, **kw)
    rec = pipe[-1].get_estimator().rec_
    ctx.hard((emits_w and case["req"]) or predicts)

    keep = (ids.astype(int) % 3 != 0) if case["drop"] else np.ones(n, bool)
    if case["mid"] == "source":
        keep &= src
    # labels
    if predicts:
        ym = np.where(~src, ids.astype(int) % 2, y)
    else:
        ym = y.copy()
        if case["mask"]:
            ym[~src] = -1
    if not case["req_d"]:
        keep &= ym != -1
    scale = 5.0 if (case["second"] and emits_w) else 2.0
    ctx.same(rec["X"], X[keep], "rows reaching the estimator")
    ctx.same(rec["y"], ym[keep], "labels reaching the estimator")
    if emits_w and case["req"]:
        ctx.expect(rec["w"] is not None, "sample_weight of the adapter did not reach the estimator")
        ctx.close(rec["w"], (ids * scale)[keep], "sample_weight reaching the estimator", rtol=0, atol=1e-12)
    else:
        ctx.expect(rec["w"] is None, "unrequested sample_weight reached the estimator")
    if case["req_d"]:
        ctx.same(rec["d"], sd[keep], "sample_domain reaching the estimator")
    # evaluation data is not touched by the adapter
    ctx.same(pipe.predict(X[~src], sample_domain=sd[~src]), ids[~src], "prediction")

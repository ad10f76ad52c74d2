"""C33: searching and validating a pipeline is doing the same fits by hand."""

import contextlib
import copy

import numpy as np
import torch
from hypothesis import strategies as st
from joblib import parallel_backend
from scipy.special import logsumexp
from sklearn.base import BaseEstimator, ClassifierMixin, clone
from sklearn.metrics import accuracy_score, r2_score
from sklearn.model_selection import GridSearchCV, ParameterGrid, RandomizedSearchCV, cross_val_score, cross_validate
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import FunctionTransformer, StandardScaler
from skorch.callbacks import Callback

from skada import make_da_pipeline
from skada.metrics import SupervisedScorer
from skada.model_selection import LeaveOneDomainOut, SourceTargetShuffleSplit, StratifiedDomainShuffleSplit

from ..catalog import E, build, gen_method, task_of, value
from ..core import facet
from ..gens import BOOL, describe_problem, ints, make_problem, mask_y, pick
from . import p_net
from .p_metrics import unsup

def gen_search(draw):
    c = gen_method(draw, fast=True, max_sources=2, max_targets=2, min_n=14, max_n=22)
    e = E[c["method"]]
    names = sorted(k for k, v in e.grid.items() if len(v) > 1)
    c["over"] = sorted(draw(st.sets(st.sampled_from(names), min_size=1, max_size=2))) if names else []
    c["how"] = draw(pick("grid", "grid", "random", "score"))
    c["cv"] = draw(pick("stratdomain", "sourcetarget", "lodo", "list"))
    c["rs"] = draw(ints(0, 99))
    reg = task_of(c) == "reg"
    proba = e.proba and c["base"] not in ("svc", "default") and not reg
    scorers = ["sup", "circular"] + (["entropy", "snd", "mixval", "mano"] if proba else []) + (["iw"] if e.kind != "solo" else [])
    if proba and e.kind not in ("mlm", "perdomain"):
        scorers.append("dev")  # C21's known finding dev-source-features
    c["scorer"] = draw(pick(*scorers))
    # in threads kernels are rounded in another way, which trees amplify
    c["threads"] = draw(pick(1, 1, 2)) if c["base"] not in ("tree", "treereg") else 1
    c["multi"] = draw(BOOL)
    c["clone"] = draw(BOOL)
    c["y"] = draw(pick("masked", "masked", "true")) if c["scorer"] != "circular" else "masked"
    return c


def pipeline(case, params):
    est = build(case, params)
    if case["scorer"] == "iw":
        est.steps[-1][1].base_estimator.set_score_request(sample_weight=True)
    return est


def folds(case):
    cls = dict(stratdomain=StratifiedDomainShuffleSplit, sourcetarget=SourceTargetShuffleSplit, list=SourceTargetShuffleSplit)
    if case["cv"] == "lodo":
        return LeaveOneDomainOut(max_n_splits=2, random_state=case["rs"])
    return cls[case["cv"]](n_splits=2, test_size=0.4, random_state=case["rs"])


def scorer_of(name):
    return SupervisedScorer() if name == "sup" else unsup(name)


def by_hand(case, est, X, y, ym, sd, te):
    """The score of a fitted estimator on the rows te."""
    if case["scorer"] == "sup":
        tt = te[sd[te] < 0]
        metric = r2_score if task_of(case) == "reg" else accuracy_score
        return metric(y[tt], est.predict(X[tt], sample_domain=sd[tt]))
    return unsup(case["scorer"])(est, X[te], ym[te], sample_domain=sd[te])


def results(est, X, sd):
    out = [np.asarray(est.predict(X, sample_domain=sd))]
    # the default SVC of DASVM draws its calibration folds at random
    if hasattr(est, "predict_proba") and est.steps[-1][0] != "dasvmclassifier":
        try:
            out.append(np.asarray(est.predict_proba(X, sample_domain=sd)))
        except ValueError:
            pass
    return out


@facet("C33", "search", gen_search, 60, shards=4, rule="search: two candidates have different scores")
def search(case, ctx):
    """A search reports, for each candidate, the scores of a fresh estimator with these
    parameters fitted on the training rows alone, and refits the best one on all rows."""
    X, y, sd = make_problem(case)
    describe_problem(case, ctx)
    e = E[case["method"]]
    ym = mask_y(y, sd, task_of(case))
    ctx.label(case["method"], case["how"], case["cv"], case["scorer"])
    if case["cv"] == "lodo" and len(np.unique(sd)) < 3:
        case = {**case, "cv": "stratdomain"}
    cv = folds(case)
    try:
        splits = list(cv.split(X, ym, sd))
    except ValueError:
        ctx.label("cannot split")
        return
    yy = ym if case["y"] == "masked" else y  # a pipeline hides the true labels of the targets
    if case["cv"] == "list" or case["y"] == "true":
        cv = splits
    grid = {k: e.grid[k] for k in case["over"]}
    candidates = list(ParameterGrid(grid)) if case["how"] != "score" else [{}]
    table = {}

    def fresh(cand, rows):
        p = {**case["params"], **cand}
        return pipeline(case, p).fit(X[rows], ym[rows], sample_domain=sd[rows])

    try:
        for i, cand in enumerate(candidates):
            for f, (tr, te) in enumerate(splits):
                table[i, f] = by_hand(case, fresh(cand, tr), X, y, ym, sd, np.asarray(te))
        whole = [fresh(cand, np.arange(len(X))) for cand in candidates]
    except ValueError:
        ctx.label("refused")  # a class is missing, the base estimator needs more rows, ...
        return
    except IndexError:
        if case["method"] != "JCPOTLabelProp":
            raise
        ctx.label("refused")  # the sources of the fold do not share their classes
        return
    if any(not np.isfinite(v) for v in table.values()):
        ctx.label("score undefined")
        return
    params = {"sample_domain": sd}
    scoring = scorer_of(case["scorer"])
    key = "score"
    if case["scorer"] == "sup":
        params["target_labels"] = y
    if case["multi"]:
        scoring, key = {"u": scoring}, "u"
    est = pipeline(case, case["params"])
    if case["clone"]:
        est = clone(est)
    given = {f"{e.adapter}__{k}": [value(v) for v in vs] for k, vs in grid.items()}
    pairs = {k: list(zip(vs, given[f"{e.adapter}__{k}"])) for k, vs in grid.items()}
    with parallel_backend("threading") if case["threads"] > 1 else contextlib.nullcontext():
        if case["how"] == "score":
            if case["multi"]:
                got = cross_validate(est, X, yy, cv=cv, scoring=scoring, params=params, error_score="raise", n_jobs=case["threads"])["test_u"]
            else:
                got = cross_val_score(est, X, yy, cv=cv, scoring=scoring, params=params, error_score="raise", n_jobs=case["threads"])
            ctx.close(got, [table[0, f] for f in range(len(splits))], f"scores of {case['method']}", rtol=1e-6, atol=1e-8)
            ctx.hard(len(set(got)) > 1)
            return
        kw = dict(cv=cv, scoring=scoring, refit=case["multi"] and "u" or True, error_score="raise", n_jobs=case["threads"])
        if case["how"] == "grid":
            gs = GridSearchCV(est, given, **kw)
        else:
            gs = RandomizedSearchCV(est, given, n_iter=len(candidates), random_state=case["rs"], **kw)
        before = repr(est.get_params())
        gs.fit(X, yy, **params)
        ctx.expect(repr(est.get_params()) == before, "the search changed the parameters of the estimator it was given")
    res = gs.cv_results_
    for j, cand in enumerate(res["params"]):
        i = next(i for i, c in enumerate(candidates) if 
                 all(any(v is c[k] and o is cand[f"{e.adapter}__{k}"] for v, o in pairs[k]) for k in c))
        for f in range(len(splits)):
            ctx.close(res[f"split{f}_test_{key}"][j], table[i, f], f"{case['method']} with {cand}: score of fold {f}", rtol=1e-6, atol=1e-8)
        if j == gs.best_index_:
            best = i
    means = res[f"mean_test_{key}"]
    ctx.expect(means[gs.best_index_] >= means.max(), "the best candidate is not the one with the largest score")
    ctx.hard(len({round(float(m), 9) for m in means}) > 1)
    t = sd < 0
    ref = results(whole[best], X[t], sd[t])
    if e.kind not in ("mlm", "perdomain"):
        ctx.same(gs.predict(X[t]), gs.best_estimator_.predict(X[t]), "predict of the search and of its best estimator")
    for g, w in zip(results(gs.best_estimator_, X[t], sd[t]), ref):
        ctx.expect(g.dtype == w.dtype, "predictions of the best estimator: type")
        ctx.close(g, w, f"predictions of the refitted {case['method']}", rtol=1e-5, atol=1e-7)


# ------------------------------------------------------------------ deep networks


class Frozen(ClassifierMixin, BaseEstimator):
    """What a trained network answers, as a plain classifier."""

    __metadata_request__predict = {"sample_domain": True, "allow_source": True}
    __metadata_request__predict_proba = {"sample_domain": True, "allow_source": True}
    __metadata_request__score = {"sample_domain": True, "allow_source": True, "sample_weight": True}

    def __init__(self, table=None, k=2):
        self.table, self.k = table, k

    def fit(self, X, y=None):
        return self

    def __sklearn_is_fitted__(self):
        return True

    @property
    def classes_(self):
        return np.arange(self.k)

    def predict_proba(self, X, sample_domain=None, allow_source=False):
        z = self.table(X)
        z = np.exp(z - z.max(axis=1, keepdims=True))
        return z / z.sum(axis=1, keepdims=True)

    def predict(self, X, sample_domain=None, allow_source=False):
        return self.predict_proba(X).argmax(axis=1)

    def score(self, X, y, sample_domain=None, sample_weight=None, allow_source=False):
        return accuracy_score(y, self.predict(X), sample_weight=sample_weight)


def gen_networks(draw):
    c = p_net.gen_net(draw)
    c["bs"] = draw(ints(2, 4))
    c["epochs"] = draw(ints(1, 2))
    c["ns"], c["nt"] = draw(ints(10, 16)), draw(ints(10, 16))
    c["drop"] = draw(pick(0.0, 0.5))
    c["pipe"] = draw(BOOL)
    c["scorer"] = draw(pick("sup", "iw", "entropy", "snd", "mixval", "mano", "dev"))
    c["how"] = draw(pick("direct", "cv", "cv", "grid"))
    c["rs"] = draw(ints(0, 50))
    if c["method"] == "TargetOnly":
        c["method"] = "MCC"  # cross validation masks the labels that TargetOnly needs
    return c


@facet("C33", "networks", gen_networks, 40, shards=4, rule="networks: always")
def networks(case, ctx):
    """Scores of a network, alone or at the end of a pipeline, are those of the classifier that it
    became by training on the training rows: predictions in evaluation mode, row by row."""
    X, y, sd = p_net.problem(case)
    t = sd < 0
    ym = np.where(t, -1, y)
    ctx.label(case["method"], case["scorer"], case["how"], f"pipe={case['pipe']}")

    class Seeded(Callback):
        def on_train_begin(self, net, **kw):
            torch.manual_seed(case["seed"])

    def make(reg):
        base = p_net.Net(case["d"], 4, case["k"], seed=case["init"], drop=case["drop"])
        net = p_net.build({**case, "reg": reg}, base=base, max_epochs=case["epochs"], callbacks=[("seed", Seeded())], lr=0.05)
        return make_da_pipeline(StandardScaler(), net) if case["pipe"] else net

    def logits(est, rows):
        if case["pipe"]:
            rows = est[:-1].transform(rows)
            net = est.steps[-1][1].base_estimator_
        else:
            net = est
        module = copy.deepcopy(net.module_.base_module_).eval()
        with torch.no_grad():
            return module.fc1(torch.tanh(module.fc0(torch.tensor(np.asarray(rows, dtype="float32"))))).numpy().astype(float)

    def hidden(est, rows):
        module = copy.deepcopy(est.module_.base_module_).eval()
        with torch.no_grad():
            return torch.tanh(module.fc0(torch.tensor(np.asarray(rows, dtype="float32")))).numpy()

    def expected(est, te):
        yy = y[te] if case["scorer"] == "sup" else ym[te]
        tt = te[sd[te] < 0]
        if case["scorer"] == "sup":
            return accuracy_score(y[tt], logits(est, X[tt]).argmax(1))
        if case["scorer"] == "mano" and not case["pipe"]:
            L = logits(est, X[tt])
            logp = L - logsumexp(L, axis=1, keepdims=True)
            P = np.exp(logp)
            if -logp.mean() <= 5:
                P = 1 + L + L**2 / 2
                P = P - P.min(axis=1, keepdims=True)
                P = P / P.sum(axis=1, keepdims=True)
            return float(np.mean(P**4) ** 0.25)
        if case["scorer"] == "dev":
            if case["pipe"]:
                steps = [("scaler", est[0]), ("e", Frozen(lambda Z: head(est, Z), case["k"]))]
            else:
                steps = [("f", FunctionTransformer(lambda Z: hidden(est, Z))), ("e", Frozen(lambda Z: last(est, Z), case["k"]))]
            return unsup("dev")(Pipeline(steps), X[te], yy, sample_domain=sd[te])
        stand_in = Pipeline([("e", Frozen(lambda Z: logits(est, Z), case["k"]))])
        return unsup(case["scorer"])(stand_in, X[te], yy, sample_domain=sd[te])

    def head(est, Z):
        module = copy.deepcopy(est.steps[-1][1].base_estimator_.module_.base_module_).eval()
        with torch.no_grad():
            return module.fc1(torch.tanh(module.fc0(torch.tensor(np.asarray(Z, dtype="float32"))))).numpy().astype(float)

    def last(est, F):
        module = copy.deepcopy(est.module_.base_module_).eval()
        with torch.no_grad():
            return module.fc1(torch.tensor(np.asarray(F, dtype="float32"))).numpy().astype(float)

    tol = dict(rtol=2e-4, atol=2e-5)
    params = {"sample_domain": sd}
    if case["scorer"] == "sup":
        params["target_labels"] = y
    scorer = scorer_of(case["scorer"])
    ctx.hard()
    if case["how"] == "direct":
        est = make(case["reg"]).fit(X, ym, sample_domain=sd)
        rows = np.arange(len(X))
        got = [scorer(est, X, ym, **params) for _ in range(2)]
        ctx.close(got[0], expected(est, rows), f"{case['scorer']} right after training", **tol)
        ctx.close(got[1], got[0], f"{case['scorer']} again", **tol)
        return
    cv = SourceTargetShuffleSplit(n_splits=2, test_size=0.5, random_state=case["rs"])
    splits = list(cv.split(X, ym, sd))
    if case["how"] == "cv":
        res = cross_validate(make(case["reg"]), X, ym, cv=cv, scoring=scorer, params=params, return_estimator=True, error_score="raise")
        for f, (tr, te) in enumerate(splits):
            ctx.close(res["test_score"][f], expected(res["estimator"][f], te), f"{case['scorer']} of fold {f}", **tol)
            fresh = make(case["reg"]).fit(X[tr], ym[tr], sample_domain=sd[tr])
            ctx.close(logits(res["estimator"][f], X), logits(fresh, X), f"network of fold {f}", rtol=1e-3, atol=1e-4)
        return
    # a search over the learning rate
    name = "lr" if not case["pipe"] else make(0).steps[-1][0] + "__lr"
    rates = [0.02, 0.2]
    gs = GridSearchCV(make(case["reg"]), {name: rates}, cv=cv, scoring=scorer, error_score="raise").fit(X, ym, **params)
    for j, lr in enumerate(rates):
        for f, (tr, te) in enumerate(splits):
            fresh = make(case["reg"])
            fresh.set_params(**{name: lr}).fit(X[tr], ym[tr], sample_domain=sd[tr])
            ctx.close(gs.cv_results_[f"split{f}_test_score"][j], expected(fresh, te), f"{case['scorer']} of fold {f} with lr={lr}", rtol=2e-3, atol=2e-4)
    best = make(case["reg"]).set_params(**{name: gs.best_params_[name]}).fit(X, ym, sample_domain=sd)
    ctx.close(logits(gs.best_estimator_, X), logits(best, X), "refitted network", rtol=1e-3, atol=1e-4)

"""The functions that make the pipeline of a method hand their parameters to its adapter."""

import inspect

import skada
from sklearn.base import clone
from sklearn.linear_model import LogisticRegression

from .core import facet
from .gens import BOOL, SEED, pick, rng


class Value:
    """A parameter value that is like no other (clones to itself)."""

    def __init__(self, name):
        self.name = name

    def __sklearn_clone__(self):
        return self

    def __repr__(self):
        return f"<{self.name}>"


TEXT = dict(metric="cityblock", norm="max", weights="distance", algorithm="brute", kernel="poly", solver="scipy", base_method="lpp")
NUMBER = dict(n_components=2, random_state=11, n_jobs=2, eps=0.13, reg=0.21, gamma=0.7, test_size=0.4, degree=4, n_iter_max=31)


def value(p, r):
    if p.name in TEXT:
        return TEXT[p.name]
    if p.name in NUMBER:
        return NUMBER[p.name]
    if isinstance(p.default, bool):
        return not p.default
    if isinstance(p.default, int):
        return p.default + 1 + int(r.randint(9))
    if isinstance(p.default, float):
        return (p.default or 1.0) * float(r.uniform(1.1, 3))
    return Value(p.name)


def adapters(pipe, cls):
    seen = []
    for v in pipe.get_params(deep=True).values():
        if type(v) is cls and not any(v is o for o in seen):
            seen.append(v)
    return seen


def parameters(prop, pairs, n=60):
    """Registers the facet `parameters` of the property for {function name: adapter}."""

    def gen(draw):
        return dict(method=draw(pick(*sorted(pairs))), share=draw(pick(0.0, 0.2, 0.5, 1.0)), base=draw(BOOL), clone=draw(BOOL), seed=draw(SEED))

    @facet(prop, "parameters", gen, n, rule="parameters: at least two parameters are given")
    def check(case, ctx):
        """Each parameter given to the function is that of the adapter in the pipeline."""
        make, cls = getattr(skada, case["method"]), pairs[case["method"]]
        r = rng(case["seed"], 8)
        sig = inspect.signature(make).parameters
        names = [p for p in inspect.signature(cls).parameters if p in sig]
        given = {p: value(sig[p], r) for p in names if r.uniform() < case["share"]}
        base = LogisticRegression(C=0.37) if case["base"] else None
        pipe = make(base, **given)
        if case["clone"]:
            pipe = clone(pipe)
        found = adapters(pipe, cls)
        ctx.expect(len(found) == 1, f"{len(found)} adapters in the pipeline of {case['method']}")
        got = found[0].get_params(deep=False)
        for p in names:
            if p in given:
                ctx.expect(got[p] is given[p] or got[p] == given[p], f"{case['method']}({p}={given[p]!r}) has an adapter with {p}={got[p]!r}")
        if base is not None:
            ctx.expect(any(getattr(v, "C", None) == 0.37 for v in pipe.get_params(deep=True).values()), "the base estimator is not in the pipeline")
        ctx.label(case["method"])
        ctx.hard(len(given) > 1)

    return check

"""Every shallow method of the library, buildable from a JSON case."""

import numpy as np
import ot
import skada
from hypothesis import strategies as st
from skada import PerDomain, SelectSource, SelectTarget, make_da_pipeline
from skada._gradual_da import GradualEstimator
from sklearn.ensemble import RandomForestClassifier
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.mixture import GaussianMixture
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KernelDensity, KNeighborsClassifier, KNeighborsRegressor
from sklearn.preprocessing import MinMaxScaler, StandardScaler
from sklearn.svm import SVC
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from .gens import BOOL, SEED, gen_problem, ints, make_problem, pick

WEIGHTED = {
    "logreg": lambda: LogisticRegression().set_fit_request(sample_weight=True),
    "nb": lambda: GaussianNB().set_fit_request(sample_weight=True),
    "tree": lambda: DecisionTreeClassifier(max_depth=3, random_state=0).set_fit_request(sample_weight=True),
    "svc": lambda: SVC(C=2.0).set_fit_request(sample_weight=True),
    "default": lambda: None,
}
PLAIN = {
    "logreg": lambda: LogisticRegression(),
    "nb": lambda: GaussianNB(),
    "tree": lambda: DecisionTreeClassifier(max_depth=3, random_state=0),
    "svc": lambda: SVC(C=2.0),
    "knn": lambda: KNeighborsClassifier(3),
    "default": lambda: None,
}
REG_W = {
    "ridge": lambda: Ridge(0.5).set_fit_request(sample_weight=True),
    "treereg": lambda: DecisionTreeRegressor(max_depth=3, random_state=0).set_fit_request(sample_weight=True),
}
REG = {"ridge": lambda: Ridge(0.5), "knnreg": lambda: KNeighborsRegressor(3)}


class Entry:
    def __init__(self, name, make, grid, kind, tasks="c", adapter=None, proba=True, random=False, multi=True, binary=False, slow=False, need=0):
        self.name, self.make, self.grid, self.kind, self.tasks = name, make, grid, kind, tasks
        self.adapter, self.proba, self.random, self.multi, self.binary, self.slow = adapter, proba, random, multi, binary, slow
        self.need = need


def _fn(name):
    f = getattr(skada, name)
    return lambda base, params: f(**({} if base is None else {"base_estimator": base}), **params)


E = {}


def add(name, grid, kind, **kw):
    E[name] = Entry(name, kw.pop("make", None) or _fn(name), grid, kind, adapter=kw.pop("adapter", f"{name}Adapter".lower()), **kw)


V = dict  # parameter values are named, so that cases stay JSON
OBJECTS = {
    "kde": lambda: KernelDensity(bandwidth=0.7),
    "gmm": lambda: GaussianMixture(1, reg_covar=1e-2, random_state=0),
    "logreg01": lambda: LogisticRegression(C=0.1),
    "nbclf": lambda: GaussianNB(),
    "rbfsvc": lambda: SVC(kernel="rbf"),
    "linsvc": lambda: SVC(kernel="linear", C=0.5),
    "emd": lambda: ot.da.EMDTransport(),
    "sinkhorn": lambda: ot.da.SinkhornTransport(reg_e=0.5),
}


def value(v):
    return OBJECTS[v[1:]]() if isinstance(v, str) and v.startswith("@") else v


add("DensityReweight", V(weight_estimator=[None, "@kde", "@gmm"]), "weight", tasks="cr")
add("GaussianReweight", V(reg=["auto", 0.1, 0.5]), "weight", tasks="cr")
add("DiscriminatorReweight", V(domain_classifier=[None, "@logreg01", "@nbclf"]), "weight", tasks="cr")
add("KLIEPReweight", V(gamma=[1.0, 0.3, "auto", "scale", [0.1, 1.0], ["scale", 0.2], [1.0, "auto"]], n_centers=[100, 5], random_state=[0, 3]), "weight", tasks="cr", random=True)
add("NearestNeighborReweight", V(n_neighbors=[1, 3], laplace_smoothing=[False, True], p=[2, 1]), "weight", tasks="cr")
add("KMMReweight", V(kernel=["rbf", "laplacian"], gamma=[None, 0.5], solver=["frank-wolfe", "scipy"], smooth_weights=[False, True]), "weight", tasks="cr")
add("MMDTarSReweight", V(gamma=[1.0, 0.3], reg=[1e-10, 1e-3]), "weight", tasks="cr")

add("OTMapping", V(metric=["sqeuclidean", "euclidean"], norm=[None, "max"]), "map", tasks="cr")
add("EntropicOTMapping", V(reg_e=[1.0, 5.0], norm=[None, "max"]), "map", tasks="cr")
add("ClassRegularizerOTMapping", V(norm=["lpl1", "l1l2"], reg_e=[1.0, 3.0], reg_cl=[0.1, 1.0]), "map")
add("LinearOTMapping", V(reg=[1.0, 0.01], bias=[True, False]), "map", tasks="cr")
add("CORAL", V(reg=["auto", 0.1, 1e-3]), "map", tasks="cr")
add("MMDLSConSMapping", V(gamma=[1.0, 0.3], reg_k=[1e-10, 1e-3], max_iter=[20]), "map", slow=True)
add("MultiLinearMongeAlignment", V(reg=[1e-3, 0.1], bias=[True, False]), "mlm", tasks="cr")

add("SubspaceAlignment", V(n_components=[None, 1, 2], random_state=[0, 5]), "map", tasks="cr")
add("TransferComponentAnalysis", V(kernel=["rbf", "linear"], n_components=[None, 1, 2], mu=[0.1, 1.0]), "map", tasks="cr")
add("TransferJointMatching", V(kernel=["rbf", "linear"], n_components=[None, 1, 2], tradeoff=[0.01, 0.5], max_iter=[20]), "map", tasks="cr")
add("TransferSubspaceLearning", V(n_components=[None, 1, 2], base_method=["flda", "pca"], mu=[0.1, 1.0], reg=[0.01, None], max_iter=[10]), "map", slow=True)

add("OTLabelProp", V(reg=[0, 0.5], metric=["sqeuclidean", "euclidean"]), "prop", tasks="cr")
add("JCPOTLabelProp", V(reg=[1, 0.5], metric=["sqeuclidean"]), "prop")


def _solo(cls):
    return lambda base, params: make_da_pipeline(StandardScaler(), cls(**({} if base is None else {"base_estimator": base}), **params))


add("JDOTRegressor", V(alpha=[0.5, 0.1], n_iter_max=[10]), "solo", tasks="r", make=_solo(skada.JDOTRegressor), adapter="jdotregressor", proba=False)
add("JDOTClassifier", V(alpha=[0.5, 0.1], metric=["multinomial", "hinge"], n_iter_max=[10]), "solo", make=_solo(skada.JDOTClassifier), adapter="jdotclassifier")
add("DASVMClassifier", V(k=[1, 3], max_iter=[5, 1000]), "solo", make=_solo(skada.DASVMClassifier), adapter="dasvmclassifier", binary=True, proba=False)
add("GradualEstimator", V(alpha=[1.0, 0.5], n_steps=[2, 4], ot_method=["@emd", "@sinkhorn"]), "solo", make=_solo(GradualEstimator), adapter="gradualestimator")


def _plain(base, params):
    return make_da_pipeline(StandardScaler(), base if base is not None else LogisticRegression())


def _perdomain(base, params):
    return make_da_pipeline(PerDomain(StandardScaler()), base if base is not None else LogisticRegression())


def _selsource(base, params):
    return make_da_pipeline(SelectSource(StandardScaler()), base if base is not None else LogisticRegression())


add("no adaptation", {}, "plain", tasks="cr", make=_plain)
add("per-domain scaling", {}, "perdomain", tasks="cr", make=_perdomain)
add("source scaling", {}, "plain", tasks="cr", make=_selsource)


def bases(e, task):
    if e.name == "JDOTRegressor":
        return ["default", "ridge", "knnreg"]
    if e.name == "JDOTClassifier":
        return ["default", "logreg", "nb"]
    if e.name == "DASVMClassifier":
        return ["default", "svc"]
    if e.name == "GradualEstimator":
        return ["logreg", "nb", "knn"]
    if task == "r":
        return list(REG_W if e.kind == "weight" else REG)
    if e.name in ("MMDTarSReweight", "KMMReweight", "NearestNeighborReweight", "KLIEPReweight"):
        return [b for b in WEIGHTED if b not in ("svc", "default")]  # weights of a whole class can be 0, which SVC does not support
    return list(WEIGHTED if e.kind == "weight" else PLAIN)


def base_of(e, case):
    b = case["base"]
    if b == "default":
        return None
    if e.name == "JDOTClassifier":
        return WEIGHTED[b]()
    for d in ((WEIGHTED, REG_W) if e.kind == "weight" else (PLAIN, REG)):
        if b in d:
            return d[b]()
    raise KeyError(b)


def gen_method(draw, only=None, exclude=(), kinds=None, tasks="cr", fast=False, **kw):
    names = [n for n, e in E.items() if (only is None or n in only) and n not in exclude
             and (kinds is None or e.kind in kinds) and any(t in tasks for t in e.tasks) and not (fast and e.slow)]
    e = E[draw(st.sampled_from(names))]
    task = draw(st.sampled_from([t for t in e.tasks if t in tasks]))
    base = draw(st.sampled_from(bases(e, task)))
    params = {k: draw(st.sampled_from(v)) for k, v in e.grid.items()}
    if task == "r":
        c = gen_problem(draw, task="reg", **{**dict(max_sources=2, max_targets=2, min_n=8, max_n=16), **kw})
    else:
        c = gen_problem(draw, classes=(2, 2) if e.binary or params.get("metric") == "hinge" else (2, 3),
                        label_sets=[[0, 1, 2], [3, 1, 7]], **{**dict(max_sources=2, max_targets=2, min_n=8, max_n=16), **kw})
    c.update(method=e.name, base=base, params=params)
    return c


def build(case, params=None):
    e = E[case["method"]]
    p = case["params"] if params is None else params
    return e.make(base_of(e, case), {k: value(v) for k, v in p.items()})


def task_of(case):
    return "classif" if case["task"] == "classif" else "reg"


def outputs(est, X, sd, **kw):
    """Every prediction the estimator offers, by method name."""
    out = {"predict": np.asarray(est.predict(X, sample_domain=sd, **kw))}
    for m in ("predict_proba", "predict_log_proba", "decision_function"):
        if hasattr(est, m):
            out[m] = np.asarray(getattr(est, m)(X, sample_domain=sd, **kw))
    return out

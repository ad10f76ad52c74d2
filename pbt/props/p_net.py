"""C28: domain-aware criterion, modules and networks."""

import copy

import numpy as np
import torch
import torch.nn.functional as F
from hypothesis import strategies as st
from sklearn.base import clone
from sklearn.metrics import accuracy_score
from sklearn.preprocessing import StandardScaler
from skada import make_da_pipeline
from skada.deep import CAN, CDAN, DAN, DANN, MCC, MDD, SPA, DeepCoral, DeepJDOT, SourceOnly, TargetOnly
from skada.deep._adversarial import CDANModule, ModifiedCrossEntropyLoss
from skada.deep.base import DeepDADataset, DomainAwareCriterion, DomainAwareModule
from skada.deep.losses import cdd_loss, dan_loss, deepcoral_loss, deepjdot_loss, gda_loss, mcc_loss
from skada.deep.modules import DomainClassifier
from skada.deep.utils import SphericalKMeans, check_generator
from skorch.dataset import Dataset

from ..core import facet
from ..gens import BOOL, SEED, ints, pick, rng


class Net(torch.nn.Module):
    """Two layers; the hidden one is what the methods adapt."""

    def __init__(self, d=3, h=4, k=3, seed=0, drop=0.0, wide=False):
        super().__init__()
        torch.manual_seed(seed)
        self.wide = wide
        self.fc0 = torch.nn.Linear(d, h)
        self.act = torch.nn.Tanh()
        self.drop = torch.nn.Dropout(drop)
        self.fc1 = torch.nn.Linear(h, k)

    def forward(self, X, sample_weight=None):
        f = self.act(self.fc0(X))
        out = self.fc1(self.drop(f))
        if sample_weight is not None and getattr(self, "weighted", False):
            out = out * sample_weight[:, None]
        return out


# ------------------------------------------------------------------- criterion


class Recorder(torch.nn.Module):
    def __init__(self, value):
        super().__init__()
        self.value, self.calls = value, []

    def forward(self, **kw):
        self.calls.append(kw)
        return kw["y_pred_s"].sum() * self.value + kw["y_pred_t"].sum() * self.value * 2


def gen_crit(draw):
    n = draw(ints(2, 10))
    return dict(
        n=n, k=draw(ints(2, 4)), seed=draw(SEED), reg=draw(pick(0, 0.5, 1, 3)), reduction=draw(pick("mean", "sum", "none")),
        tot=draw(BOOL), dom=draw(pick("none", "vec", "mat")), feat=draw(BOOL), idx=draw(BOOL),
        sd=[draw(pick(0, 1, 2, -1, -3)) for _ in range(n)],
    )


@facet("C28", "criterion", gen_crit, 200, rule="criterion: source and target rows are interleaved and reg is not 0")
def criterion(case, ctx):
    r = rng(case["seed"], 2)
    n, k = case["n"], case["k"]
    sd = np.array(case["sd"])
    if (sd >= 0).all() or (sd < 0).all():
        sd[0] = -1 - sd[0]
    s, t = sd >= 0, sd < 0
    t32 = lambda a: torch.tensor(np.asarray(a), dtype=torch.float32)
    out = r.normal(size=(n, k))
    y = r.randint(k, size=n)
    if not case["tot"]:
        y[t] = -1
    dom = {"none": None, "vec": t32(r.rand(n)), "mat": t32(r.rand(n, k))}[case["dom"]]
    feat = t32(r.normal(size=(n, 3))) if case["feat"] else None
    idx = torch.tensor(r.permutation(n)) if case["idx"] else None
    rec = Recorder(0.25)
    crit = DomainAwareCriterion(torch.nn.CrossEntropyLoss(), rec, reg=case["reg"], reduction=case["reduction"], train_on_target=case["tot"])
    got = crit((t32(out), dom, feat, torch.tensor(sd), idx), torch.tensor(y))
    side = t if case["tot"] else s
    lp = np.log(np.exp(out) / np.exp(out).sum(1, keepdims=True))
    ce = -lp[np.arange(n), y % k][side]
    adapt = 0.25 * (out[s].sum() + 2 * out[t].sum())
    base = {"mean": ce.mean(), "sum": ce.sum(), "none": ce}[case["reduction"]]
    ctx.close(got.numpy(), base + case["reg"] * adapt, "base loss + reg * adaptation loss", rtol=1e-4, atol=1e-4)
    ctx.expect(len(rec.calls) == 1, "the adaptation loss is called once")
    kw = rec.calls[0]
    ctx.same(kw["y_s"], y[s], "labels given to the adaptation loss")
    for name, a in (("y_pred", t32(out)), ("domain_pred", dom), ("features", feat), ("sample_idx", idx)):
        for side_name, m in (("s", s), ("t", t)):
            v = kw[f"{name}_{side_name}"]
            if a is None:
                ctx.expect(v is None, f"{name}_{side_name} is not None")
            else:
                ctx.same(v, np.asarray(a)[m], f"{name}_{side_name} given to the adaptation loss")
    ctx.hard(case["reg"] != 0 and np.abs(np.diff(s.astype(int))).sum() > 1)


# ---------------------------------------------------------------------- modules


def gen_module(draw):
    return dict(n=draw(ints(2, 8)), d=draw(ints(2, 4)), h=draw(ints(2, 5)), k=draw(ints(2, 4)), seed=draw(SEED),
                kind=draw(pick("plain", "plain", "cdan", "cdan")), max_features=draw(pick(4096, 3, 1, "exact", "exact", "below")), layer=draw(pick("act", "fc0", "fc1")),
                clf=draw(BOOL), state=draw(ints(0, 3)), copy=draw(pick("no", "clone", "deepcopy")), weights=draw(BOOL))


@facet("C28", "module", gen_module, 150, rule="module: there is a domain classifier")
def module(case, ctx):
    r = rng(case["seed"], 4)
    n, h, k = case["n"], case["h"], case["k"]
    net = Net(case["d"], h, k, seed=case["seed"])
    net.weighted = case["weights"]
    X = torch.tensor(r.normal(size=(n, case["d"])), dtype=torch.float32)
    with torch.no_grad():
        hidden = net.fc0(X)
        feats = {"fc0": hidden, "act": torch.tanh(hidden), "fc1": net.fc1(torch.tanh(hidden))}[case["layer"]].numpy()
        logits = net.fc1(torch.tanh(hidden)).numpy()
    nf = feats.shape[1]
    cdan = case["kind"] == "cdan"
    bound = {"exact": nf * k, "below": max(1, nf * k - 1)}.get(case["max_features"], case["max_features"])
    size = min(nf * k, bound) if cdan else nf
    clf = torch.nn.Linear(size, 2) if (case["clf"] or cdan) else None
    if cdan:
        m = CDANModule(net, case["layer"], clf, max_features=bound, random_state=case["state"])
    else:
        m = DomainAwareModule(net, case["layer"], clf)
    if case["copy"] == "clone":
        p = {q: v.clone() for q, v in m.state_dict().items()}
        m = clone(m)
        ctx.expect(all(torch.equal(p[q], v) for q, v in m.state_dict().items()), "the clone has other weights")
    elif case["copy"] == "deepcopy":
        m = copy.deepcopy(m)
    sd = torch.tensor(r.randint(-2, 2, size=n))
    idx = torch.arange(n)
    w = {}
    if case["weights"]:
        # the module is given the weights
        w["sample_weight"] = torch.tensor(r.rand(n) + 0.5, dtype=torch.float32)
        logits = logits * w["sample_weight"].numpy()[:, None]
    with torch.no_grad():
        first = m(X[:1].repeat(n + 1, 1), sample_domain=None, is_fit=False)  # another batch before
        y, dom, f, sd2, idx2 = m(X, sample_domain=sd, sample_idx=idx, is_fit=True, **w)
        y2 = m(X, **w)
        y3, f3 = m(X, return_features=True, **w)
    ctx.close(y, logits, "predictions while fitting", rtol=1e-5, atol=1e-6)
    ctx.close(y2, logits, "predictions", rtol=1e-5, atol=1e-6)
    ctx.close(y3, logits, "predictions next to features", rtol=1e-5, atol=1e-6)
    ctx.close(f, feats, "features while fitting", rtol=1e-5, atol=1e-6)
    ctx.close(f3, feats, "features", rtol=1e-5, atol=1e-6)
    ctx.expect(len(first) == n + 1 and sd2 is sd and idx2 is idx, "domains and indices are passed on")
    if clf is None:
        ctx.expect(dom is None, "domain predictions without a domain classifier")
        return
    if cdan:
        outer = (logits[:, :, None] * feats[:, None, :]).reshape(n, -1)
        if nf * k > bound:
            gen = torch.Generator().manual_seed(case["state"])
            A = torch.randn(size=(nf, bound), generator=gen).numpy()
            B = torch.randn(size=(k, bound), generator=gen).numpy()
            outer = (feats @ A) / np.sqrt(bound) * (logits @ B)
    else:
        outer = feats
    c = m.domain_classifier_
    ctx.close(dom, outer @ c.weight.detach().numpy().T + c.bias.detach().numpy(), "domain predictions", rtol=1e-4, atol=1e-5)
    ctx.label(case["kind"], "random layer" if cdan and nf * k > bound else "full")
    ctx.hard()


# --------------------------------------------------------------------- networks

METHODS = ["SourceOnly", "TargetOnly", "DeepCoral", "DAN", "DeepJDOT", "CAN", "DANN", "CDAN", "MDD", "MCC", "SPA"]


def gen_net(draw, **kw):
    ns = draw(ints(4, 9))
    c = dict(
        method=draw(pick(*METHODS)), ns=ns, nt=ns if kw.get("equal") else draw(ints(4, 9)),
        k=draw(ints(2, 3)), d=draw(ints(2, 3)), seed=draw(SEED), reg=draw(pick(0.0, 0.5, 1.0, 2.0)),
        init=draw(ints(0, 20)), order=draw(BOOL), domains=draw(ints(1, 2)), zero=draw(BOOL),
        extra=draw(pick(0.5, 1.0, 2.0)),
    )
    if c["method"] == "SPA":
        c["domains"] = 1
    return c


def problem(case):
    r = rng(case["seed"], 12)
    n = case["ns"] + case["nt"]
    sd = np.concatenate([
        (0 if case["zero"] else 1) + r.randint(case["domains"], size=case["ns"]),
        -1 - r.randint(case["domains"], size=case["nt"]),
    ])
    y = np.arange(n) % case["k"]
    y[: case["ns"]] = np.arange(case["ns"]) % case["k"]
    X = r.normal(size=(n, case["d"])) + 1.5 * y[:, None] + 0.8 * (sd < 0)[:, None]
    if case["order"]:
        p = r.permutation(n)
        X, y, sd = X[p], y[p], sd[p]
    return X.astype("float32"), y.astype("int64"), sd


CUSTOM = dict(
    SourceOnly=("base",), TargetOnly=("base",), DeepCoral=("base", "centered"), DAN=("base", "defaults"), DeepJDOT=("base", "domain"), CAN=("base", "defaults"),
    DANN=("base", "domain", "classifier"), CDAN=("base", "domain", "classifier", "bound"), MDD=("base", "classifier"),
    MCC=("base",), SPA=("base", "domain", "classifier"),
)


def base_criterion(case):
    return torch.nn.CrossEntropyLoss(label_smoothing=0.2) if "base" in case.get("custom", ()) else torch.nn.CrossEntropyLoss()


def domain_criterion(case):
    if case["method"] == "DeepJDOT":
        return torch.nn.CrossEntropyLoss(reduction="none", label_smoothing=0.3)
    return torch.nn.MSELoss() if "domain" in case.get("custom", ()) else torch.nn.BCELoss()


BOUND = 5


def custom(case):
    """The optional arguments of the case, and the domain classifier they include."""
    c, m, k = case.get("custom", ()), case["method"], case["k"]
    out = {}
    if "base" in c:
        out["base_criterion"] = base_criterion(case)
    if "domain" in c:
        out["target_criterion" if m == "DeepJDOT" else "domain_criterion"] = domain_criterion(case)
    if "centered" in c:
        out["assume_centered"] = True
    if "bound" in c:
        out["max_features"] = BOUND
    if "classifier" in c:
        width = 4 if m != "CDAN" else min(4 * k, BOUND if "bound" in c else 4096)
        with torch.random.fork_rng():
            torch.manual_seed(case["init"] + 50)
            last = [torch.nn.Linear(3, k)] if m == "MDD" else [torch.nn.Linear(3, 1), torch.nn.Sigmoid(), torch.nn.Flatten(0)]
            clf = torch.nn.Sequential(torch.nn.Linear(width, 3), torch.nn.Tanh(), *last)
        out["disc_classifier" if m == "MDD" else "domain_classifier"] = clf
    return out


def build(case, base=None, layer="act", **kw):
    """The network of the case, and what its adaptation loss should be."""
    base = Net(case["d"], 4, case["k"], seed=case["init"]) if base is None else base
    m, reg, k = case["method"], case["reg"], case["k"]
    opts = dict(train_split=None, verbose=0, batch_size=case.get("bs", 4), lr=0.05, max_epochs=1)
    opts.update(custom(case))
    opts.update(kw)
    torch.manual_seed(case["init"] + 1)
    g = dict(num_features=4) if "classifier" not in case.get("custom", ()) else {}
    no_classes = {} if "classifier" in case.get("custom", ()) else dict(n_classes=k)
    if m in ("SourceOnly", "TargetOnly"):
        return {"SourceOnly": SourceOnly, "TargetOnly": TargetOnly}[m](base, layer, **opts)
    if m == "DeepCoral":
        return DeepCoral(base, layer, reg=reg, **opts)
    if m == "DAN":
        if "defaults" in case.get("custom", ()):
            return DAN(base, layer, reg=reg, **opts)
        return DAN(base, layer, reg=reg, sigmas=[case["extra"], 2 * case["extra"]], **opts)
    if m == "DeepJDOT":
        return DeepJDOT(base, layer, reg_dist=reg, reg_cl=case["extra"], **opts)
    if m == "CAN":
        if "defaults" in case.get("custom", ()):
            return CAN(base, layer, reg=reg, **opts)
        return CAN(base, layer, reg=reg, sigmas=[case["extra"]], class_threshold=1, distance_threshold=2.0, **opts)
    if m == "DANN":
        return DANN(base, layer, reg=reg, **g, **opts)
    if m == "CDAN":
        return CDAN(base, layer, reg=reg, **g, **no_classes, **opts)
    if m == "MDD":
        return MDD(base, layer, reg=reg, gamma=case["extra"], **g, **no_classes, **opts)
    if m == "MCC":
        return MCC(base, layer, reg=reg, T=case["extra"], **opts)
    if m == "SPA":
        net = SPA(base, layer, reg_adv=reg, reg_gsa=case["extra"], reg_nap=case.get("nap", 0.0), **g, **opts)
        net.criterion__adapt_criterion.K = 1
        return net
    raise KeyError(m)


def adaptation(case, base, clf, X, y, s, t):
    """The adaptation term of each method on these rows."""
    m, reg, x = case["method"], case["reg"], case["extra"]
    c = case.get("custom", ())
    f = torch.tanh(base.fc0(X))
    out = base.fc1(f)
    fs, ft = f[s], f[t]
    if m == "DeepCoral":
        return reg * deepcoral_loss(fs, ft, assume_centered="centered" in c)
    if m == "DAN":
        return reg * dan_loss(fs, ft, sigmas=None if "defaults" in c else [x, 2 * x])
    if m == "DeepJDOT":
        return deepjdot_loss(y[s], out[t], fs, ft, reg, x, criterion=domain_criterion(case) if "domain" in c else None)
    if m == "MCC":
        return reg * mcc_loss(out[t], T=x)
    if m == "CAN":
        with torch.no_grad():
            g = F.normalize(fs, dim=1)
            cen = torch.stack([g[y[s] == c].sum(0) for c in range(case["k"])])
            km = SphericalKMeans(n_clusters=case["k"], initial_centroids=cen, random_state=0).fit(ft)
        if "defaults" in c:
            return reg * cdd_loss(y[s], fs, ft, km)
        return reg * cdd_loss(y[s], fs, ft, km, sigmas=[x], distance_threshold=2.0, class_threshold=1)
    if m == "CDAN":
        if "bound" in c and 4 * case["k"] > BOUND:
            gen = torch.Generator().manual_seed(42)
            A, B = (torch.randn(size=(n, BOUND), generator=gen) for n in (4, case["k"]))
            f = (f @ A) / BOUND**0.5 * (out @ B)
        else:
            f = (out[:, :, None] * f[:, None, :]).reshape(len(X), -1)
    dom = clf(f)
    if m == "MDD":
        return reg * (x * F.cross_entropy(dom[s], out[s].argmax(1)) - ModifiedCrossEntropyLoss()(dom[t], out[t].argmax(1)))
    crit = domain_criterion(case)
    bce = crit(dom[s], torch.zeros(int(s.sum()))) + crit(dom[t], torch.ones(int(t.sum())))
    if m in ("DANN", "CDAN"):
        return reg * bce
    if m == "SPA":
        e = 1 / case["epochs"]
        return reg * float(2 / (1 + np.exp(-10 * e)) - 1) * bce + x * gda_loss(fs, ft, metric="gauss")
    raise KeyError(m)


def gen_step(draw):
    c = gen_net(draw, equal=True)
    c["reduction"] = draw(pick("mean", "mean", "sum"))
    c["form"] = draw(pick("arrays", "dict", "dataset", "set_params", "clone"))
    c["epochs"] = 1
    c["custom"] = [o for o in CUSTOM[c["method"]] if draw(ints(0, 2)) == 0]
    return c


def states(net):
    return {k: v.detach().clone().numpy() for k, v in net.state_dict().items() if v.dtype.is_floating_point}


@facet("C28", "step", gen_step, 60, shards=4, rule="step: a method that adapts, with a weight that is not 0")
def step(case, ctx):
    """One epoch on the whole data is one gradient step on base loss + adaptation loss."""
    X, y, sd = problem(case)
    case = {**case, "bs": case["ns"]}
    ym = y.copy()
    if case["method"] != "TargetOnly":
        ym[sd < 0] = -1
    extra = {} if case["reduction"] == "mean" else dict(criterion__reduction="sum")
    kw = {}
    if case["form"] == "set_params" and case["method"] in ("DeepCoral", "DAN", "CAN", "DANN", "CDAN", "MDD", "MCC"):
        net = build({**case, "reg": 7.0}, **extra)
        net.set_params(criterion__reg=case["reg"])
    else:
        net = build(case, **extra)
    if case["form"] == "clone":
        net = clone(net)
    base = copy.deepcopy(net.module__base_module)
    clf = copy.deepcopy(getattr(net, "module__domain_classifier", None))
    args = {"dict": (dict(X=X, sample_domain=sd), ym), "dataset": (DeepDADataset(X, ym, sd), None)}.get(case["form"], (X, ym, sd))
    torch.manual_seed(case["seed"])
    net.fit(*args)
    # the reference step
    base.train()
    s, t = torch.tensor(sd >= 0), torch.tensor(sd < 0)
    Xt, yt = torch.tensor(X), torch.tensor(y)
    side = t if case["method"] == "TargetOnly" else s
    if clf is not None:
        clf.train()
    crit = base_criterion(case)
    crit.reduction = case["reduction"]
    loss = crit(base(Xt[side]), yt[side])
    if case["method"] not in ("SourceOnly", "TargetOnly"):
        loss = loss + adaptation(case, base, clf, Xt, yt, s, t)
    loss.backward()
    for name, mod, fitted in (("network", base, net.module_.base_module_), ("domain classifier", clf, net.module_.domain_classifier_)):
        if mod is None:
            continue
        got = dict(fitted.named_parameters())
        for pname, p in mod.named_parameters():
            g = 0 * p if p.grad is None else p.grad
            ctx.close(got[pname].detach(), (p - 0.05 * g).detach(), f"{case['method']}: {name} {pname} after one step", rtol=1e-4, atol=2e-5)
    ctx.close(net.history[-1, "train_loss"], float(loss.detach()), "training loss in the history", rtol=1e-3, atol=1e-4)
    ctx.label(case["method"], "form=" + case["form"], *(f"custom={o}" for o in case["custom"]))
    ctx.hard(case["method"] not in ("SourceOnly", "TargetOnly") and case["reg"] > 0)


def gen_weights(draw):
    c = gen_net(draw, equal=True)
    c["method"] = draw(pick("SourceOnly", "SourceOnly", "TargetOnly", "DeepCoral", "MCC"))
    c["form"] = draw(pick("arrays", "dict", "dataset"))
    return c


@facet("C28", "weights", gen_weights, 60, shards=2, rule="weights: always")
def weights(case, ctx):
    """With a per-sample criterion the loss of each sample is weighted by its own weight."""
    X, y, sd = problem(case)
    case = {**case, "bs": case["ns"]}
    ym = y.copy()
    if case["method"] != "TargetOnly":
        ym[sd < 0] = -1
    w = rng(case["seed"], 33).rand(len(X)).astype("float32") * 2
    net = build(case, criterion__reduction="none")
    base = copy.deepcopy(net.module__base_module)
    torch.manual_seed(case["seed"])
    if case["form"] == "dict":
        net.fit(dict(X=X, sample_domain=sd, sample_weight=w), ym)
    elif case["form"] == "dataset":
        net.fit(DeepDADataset(X, ym, sd, w), None)
    else:
        net.fit(X, ym, sample_domain=sd, sample_weight=w)
    s, t = torch.tensor(sd >= 0), torch.tensor(sd < 0)
    side = t if case["method"] == "TargetOnly" else s
    Xt, yt = torch.tensor(X), torch.tensor(y)
    per = F.cross_entropy(base(Xt[side]), yt[side], reduction="none")
    if case["method"] in ("DeepCoral", "MCC"):
        per = per + adaptation(case, base, None, Xt, yt, s, t)
    (torch.tensor(w)[side] * per).mean().backward()
    for pname, p in base.named_parameters():
        g = 0 * p if p.grad is None else p.grad
        ctx.close(dict(net.module_.base_module_.named_parameters())[pname].detach(), (p - 0.05 * g).detach(), f"{case['method']}: {pname} after one weighted step", rtol=1e-4, atol=2e-5)
    if case["method"] == "SourceOnly":
        other = build(case)
        ctx.raises(ValueError, lambda: other.fit(X, ym, sample_domain=sd, sample_weight=w), "weights with a criterion that averages")
    ctx.label(case["method"], "form=" + case["form"])
    ctx.hard()


def gen_secret(draw):
    c = gen_net(draw)
    c["bs"] = draw(ints(2, 4))
    c["epochs"] = draw(ints(1, 3))
    c["kind"] = draw(pick("swap", "const", "random"))
    c["nap"] = draw(pick(0.0, 1.0))
    c["drop"] = draw(pick(0.0, 0.5))
    return c


def train(case, X, y, sd, **kw):
    base = Net(case["d"], 4, case["k"], seed=case["init"], drop=case.get("drop", 0.0))
    net = build(case, base=base, layer=case.get("at", "act"), max_epochs=case["epochs"], **kw)
    torch.manual_seed(case["seed"])
    net.fit(X, y, sample_domain=sd)
    return net


@facet("C28", "secret", gen_secret, 40, shards=4, rule="secret: several batches or epochs")
def secret(case, ctx):
    """Target labels never influence training (TargetOnly apart); the baselines only see their side."""
    X, y, sd = problem(case)
    t = sd < 0
    r = rng(case["seed"], 3)
    ym = y.copy()
    ym[t] = -1
    yo = y.copy()
    yo[t] = {"swap": (y[t] + 1) % case["k"], "const": 0 * y[t], "random": r.randint(case["k"], size=t.sum())}[case["kind"]]
    if case["method"] == "TargetOnly":
        ref = train(case, X, y, sd)
        X2, y2 = X.copy(), y.copy()
        X2[~t] += r.normal(size=X2[~t].shape).astype("float32")
        y2[~t] = (y2[~t] + 1) % case["k"]
        got = train(case, X2, y2, sd)
        what = "other source rows and labels with TargetOnly"
    else:
        ref = train(case, X, ym, sd)
        X2 = X
        if case["method"] == "SourceOnly":
            X2 = X.copy()
            X2[t] += r.normal(size=X2[t].shape).astype("float32")
        got = train(case, X2, yo, sd)
        what = "other target labels"
    a, b = states(ref.module_), states(got.module_)
    for name in a:
        ctx.same(b[name], a[name], f"{case['method']} with {what}: {name}")
    init = Net(case["d"], 4, case["k"], seed=case["init"])
    moved = not np.array_equal(states(init)["fc0.weight"], a["base_module_.fc0.weight"])
    ctx.expect(moved or min(case["ns"], case["nt"]) < case["bs"], "training leaves the network as it was")
    ctx.label(case["method"])
    ctx.hard(case["epochs"] > 1 or max(case["ns"], case["nt"]) // case["bs"] > 1)


# -------------------------------------------------------------------- prediction


def gen_pred(draw):
    c = gen_net(draw)
    c["bs"] = draw(ints(2, 4))
    c["epochs"] = 1
    c["drop"] = draw(pick(0.0, 0.5))
    c["pbs"] = draw(pick(1, 3, 128))
    c["at"] = draw(pick("act", "drop"))
    c["first"] = draw(pick("features", "proba", "score", "clone", "deepcopy"))
    c["p"] = draw(SEED)
    return c


@facet("C28", "predict", gen_pred, 40, shards=4, rule="predict: source and target rows are interleaved")
def predict(case, ctx):
    """Predictions, features and scores of a fitted network are those of its module, row by row."""
    X, y, sd = problem(case)
    t = sd < 0
    ym = y.copy()
    if case["method"] != "TargetOnly":
        ym[t] = -1
    net = train(case, X, ym, sd, iterator_valid__batch_size=case["pbs"])
    base = copy.deepcopy(net.module_.base_module_).eval()
    first = {"features": lambda: net.predict_features(X), "proba": lambda: net.predict_proba(X, sd, allow_source=True),
             "score": lambda: net.score(X, y, sd),
             "clone": lambda: clone(net), "deepcopy": lambda: copy.deepcopy(net)}[case["first"]]()  # right after training, nothing else called yet
    with torch.no_grad():
        hidden = torch.tanh(base.fc0(torch.tensor(X)))
        logits = base.fc1(hidden)
        P = torch.softmax(logits, 1).numpy()
        hidden = hidden.numpy()
    tol = dict(rtol=1e-4, atol=1e-6)
    gap = np.sort(P, axis=1)
    sure = gap[:, -1] - gap[:, -2] > 1e-5
    lab = P.argmax(1)
    if case["first"] == "clone":
        # sklearn copies the base module, as it is now: the clone trains from there
        again = clone(net)
        torch.manual_seed(case["seed"])
        again.fit(X, ym, sample_domain=sd)
        torch.manual_seed(case["seed"])
        first.fit(X, ym, sample_domain=sd)
        ctx.close(first.predict_proba(X, sd), again.predict_proba(X, sd), "two clones of a fitted network, trained alike", **tol)
    elif case["first"] == "deepcopy":
        ctx.close(first.predict_proba(X, sd, allow_source=True), P, "predict_proba of a copy made right after training", **tol)
    elif case["first"] != "score":
        ctx.close(first, hidden if case["first"] == "features" else P, f"{case['first']} right after training", **tol)
    elif sure.all():
        ctx.close(first, accuracy_score(y[t], lab[t]), "score right after training")
    forms = {
        "arrays": lambda m, **k: getattr(net, m)(X, sd, **k),
        "keyword": lambda m, **k: getattr(net, m)(X, sample_domain=sd, **k),
        "dict": lambda m, **k: getattr(net, m)(dict(X=X, sample_domain=sd), **k),
        "dataset": lambda m, **k: getattr(net, m)(DeepDADataset(X, y, sd), **k),
        "skorch dataset": lambda m, **k: getattr(net, m)(Dataset(dict(X=X, sample_domain=sd), y), **k),
        "tensor": lambda m, **k: getattr(net, m)(torch.tensor(X), torch.tensor(sd), **k),
    }
    for name, call in forms.items():
        ctx.close(call("predict_proba"), P[t], f"predict_proba of the target rows from {name}", **tol)
        ctx.close(call("predict_proba", allow_source=True), P, f"predict_proba of all rows from {name}", **tol)
        ctx.same(call("predict")[sure[t]], lab[t][sure[t]], f"predict of the target rows from {name}")
        ctx.same(call("predict", allow_source=True)[sure], lab[sure], f"predict of all rows from {name}")
    ctx.close(net.predict_features(X), hidden, "predict_features", **tol)
    ctx.close(net.predict_features(dict(X=X, sample_domain=sd)), hidden, "predict_features from a dict", **tol)
    ctx.close(net.predict_features(DeepDADataset(X, y, sd).select_target()), hidden[t], "predict_features of target rows", **tol)
    p = rng(case["p"], 1).permutation(len(X))
    ctx.close(net.predict_proba(X[p], sd[p], allow_source=True), P[p], "rows in another order", **tol)
    if sure.all():
        w = rng(case["p"], 2).rand(len(X)) + 0.01
        ctx.close(net.score(X, y, sd), accuracy_score(y[t], lab[t]), "score")
        ctx.close(net.score(X, y, sample_domain=sd, allow_source=True), accuracy_score(y, lab), "score of all rows")
        ctx.close(net.score(X, y, sample_domain=sd, sample_weight=w), accuracy_score(y[t], lab[t], sample_weight=w[t]), "weighted score")
        ctx.close(net.score(X, y, sample_domain=sd, sample_weight=w, allow_source=True), accuracy_score(y, lab, sample_weight=w), "weighted score of all rows")
        ctx.close(net.score(X[t], y[t], sample_domain=sd[t]), accuracy_score(y[t], lab[t]), "score of target rows alone")
    # rows of a source are not predicted without allow_source, whatever else is there
    for call in (lambda: net.predict_proba(X[~t], sd[~t]), lambda: net.predict(X[~t], sample_domain=sd[~t])):
        try:
            out = call()
        except Exception:
            continue
        ctx.expect(len(out) == 0, f"{len(out)} source rows are predicted without allow_source")
    dup = copy.deepcopy(net)
    ctx.close(dup.predict_proba(X, sd), P[t], "predict_proba of a copy", **tol)
    ctx.close(dup.predict_features(X), hidden, "features of a copy", **tol)
    ctx.label(case["method"])
    ctx.hard(bool(case["order"]))


def gen_pipe(draw):
    c = gen_net(draw)
    c["bs"] = draw(ints(2, 4))
    c["epochs"] = draw(ints(1, 2))
    if c["method"] == "TargetOnly":
        c["method"] = "MCC"  # pipelines hide the labels that TargetOnly needs
    return c


@facet("C28", "pipeline", gen_pipe, 25, shards=2, rule="pipeline: always")
def pipeline(case, ctx):
    """A network at the end of a pipeline is trained on the transformed rows of each side."""
    X, y, sd = problem(case)
    t = sd < 0
    ym = y.copy()
    if case["method"] != "TargetOnly":
        ym[t] = -1
    scaler = StandardScaler().fit(X)
    Z = scaler.transform(X).astype("float32")
    ref = train(case, Z, ym, sd)
    base = Net(case["d"], 4, case["k"], seed=case["init"])
    net = build(case, base=base, max_epochs=case["epochs"])
    pipe = make_da_pipeline(StandardScaler(), net)
    torch.manual_seed(case["seed"])
    pipe.fit(X, ym, sample_domain=sd)
    P = ref.predict_proba(Z, sd)
    ctx.close(pipe.predict_proba(X[t], sample_domain=sd[t]), P, f"{case['method']} in a pipeline: predict_proba", rtol=1e-4, atol=1e-5)
    ctx.same(pipe.predict(X[t], sample_domain=sd[t]), pipe.predict_proba(X[t], sample_domain=sd[t]).argmax(1), "predict")
    ctx.close(pipe.score(X[t], y[t], sample_domain=sd[t]), (pipe.predict(X[t], sample_domain=sd[t]) == y[t]).mean(), "score")
    ctx.label(case["method"])
    ctx.hard()

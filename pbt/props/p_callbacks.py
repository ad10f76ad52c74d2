"""C29: callbacks and building blocks of the deep methods."""

import copy

import numpy as np
import torch
from skada.deep import CAN, SPA
from skada.deep.callbacks import CountEpochs, MemoryBank
from skada.deep.modules import DomainClassifier, GradientReversalLayer, MNISTtoUSPSNet, ToyCNN, ToyModule2D
from skada.deep.utils import check_generator
from skorch.callbacks import Callback

from ..core import facet
from ..gens import BOOL, SEED, ints, pick, rng
from .p_losses import logsoftmax, softmax, spherical
from .p_net import Net, problem

# ----------------------------------------------------------------------- modules


def gen_block(draw):
    return dict(n=draw(ints(2, 9)), d=draw(ints(1, 5)), k=draw(pick(1, 1, 2, 3)), alpha=draw(pick(0.0, 0.3, 1, 2.5)), seed=draw(SEED), train=draw(BOOL),
                scale=draw(pick(0.1, 1.0, 10.0)))


@facet("C29", "reversal", gen_block, 200, rule="reversal: alpha is neither 0 nor 1, or there are several classes")
def reversal(case, ctx):
    """The domain classifier is its layers applied to the rows; its input's gradient is reversed."""
    r = rng(case["seed"], 3)
    torch.manual_seed(case["seed"])
    n, d, k, a = case["n"], case["d"], case["k"], case["alpha"]
    x = case["scale"] * torch.tensor(r.normal(size=(n, d)), dtype=torch.float32)
    g = torch.tensor(r.normal(size=(n, d)), dtype=torch.float32)
    z = x.clone().requires_grad_(True)
    out = GradientReversalLayer.apply(z, a)
    ctx.same(out.detach(), x, "forward of the gradient reversal layer")
    (out * g).sum().backward()
    ctx.close(z.grad, -a * g, "backward of the gradient reversal layer", rtol=1e-6)
    clf = DomainClassifier(d, n_classes=k, alpha=a)
    clf.train(case["train"])
    twin = copy.deepcopy(clf)
    lin0, bn, lin1 = [m for m in twin.modules() if isinstance(m, (torch.nn.Linear, torch.nn.BatchNorm1d))]
    z1, z2 = x.clone().requires_grad_(True), x.clone().requires_grad_(True)
    got = clf(z1)
    raw = lin1(torch.relu(bn(lin0(z2))))
    exp = torch.sigmoid(raw[:, 0]) if k == 1 else torch.softmax(raw, 1)
    ctx.close(got.detach(), exp.detach(), "domain predictions", rtol=1e-4, atol=1e-6)
    ctx.expect(float(got.min()) >= 0 and float(got.max()) <= 1, "a domain prediction is not a probability")
    if k > 1:
        ctx.close(got.detach().sum(1), np.ones(n), "domain probabilities of a row", rtol=1e-4)
    w = torch.tensor(r.normal(size=tuple(got.shape)), dtype=torch.float32)
    (got * w).sum().backward()
    (exp * w).sum().backward()
    scale = 1e-6 + float(z2.grad.abs().max())
    ctx.close(z1.grad / scale, -a * z2.grad / scale, "gradient of the features", rtol=1e-3, atol=1e-4)
    for (name, p), q in zip(clf.named_parameters(), twin.parameters()):
        m = 1e-6 + float(q.grad.abs().max())
        ctx.close(p.grad / m, q.grad / m, f"gradient of {name}", rtol=1e-3, atol=1e-3)
    ctx.hard(a not in (0.0, 1) or k > 1)


def gen_toy(draw):
    return dict(n=draw(ints(1, 5)), c=draw(ints(1, 3)), size=draw(ints(8, 20)), kernel=draw(ints(1, 8)), out=draw(ints(1, 5)), k=draw(ints(2, 5)), h=draw(ints(1, 12)), seed=draw(SEED), weight=draw(BOOL), mnist=draw(pick(False, False, False, False, True)))


@facet("C29", "networks", gen_toy, 80, rule="networks: always")
def networks(case, ctx):
    """The networks given with the library are the functions that their layers describe."""
    r = rng(case["seed"], 5)
    torch.manual_seed(case["seed"])
    w = dict(sample_weight=torch.ones(case["n"])) if case["weight"] else {}
    X = torch.tensor(r.normal(size=(case["n"], 2)), dtype=torch.float32)
    torch.manual_seed(1)
    logit = ToyModule2D(n_classes=case["k"], num_features=case["h"]).eval()
    torch.manual_seed(1)
    proba = ToyModule2D(n_classes=case["k"], num_features=case["h"], proba=True).eval()
    with torch.no_grad():
        exp = logit.dense1(torch.relu(logit.dense0(X)))
        ctx.close(logit(X, **w), exp, "logits of ToyModule2D", rtol=1e-5, atol=1e-6)
        ctx.close(proba(X, **w), softmax(exp.numpy().astype(float)), "probabilities of ToyModule2D", rtol=1e-4, atol=1e-6)
    cnn = ToyCNN(case["c"], case["size"], case["k"], kernel_size=case["kernel"], out_channels=case["out"])
    ctx.expect(cnn.training and cnn.feature_extractor.training, "a new ToyCNN is not in training mode")
    length = case["size"] - case["kernel"] + 1
    ctx.expect(cnn.num_features == case["out"] * length, f"num_features {cnn.num_features} instead of {case['out'] * length}")
    Z = torch.tensor(r.normal(size=(case["n"], case["c"], case["size"])), dtype=torch.float32)
    with torch.no_grad():
        conv = cnn.feature_extractor[0]
        W, b = conv.weight.numpy(), conv.bias.numpy()
        z = Z.numpy()
        maps = np.stack([np.einsum("ncj,ocj->no", z[:, :, i : i + case["kernel"]], W) + b for i in range(length)], axis=2)
        lin = [m for m in cnn.fc.modules() if isinstance(m, torch.nn.Linear)][0]
        exp = np.maximum(maps, 0).mean(2) @ lin.weight.numpy().T + lin.bias.numpy()
        ctx.close(cnn(Z, **w), exp, "ToyCNN", rtol=1e-3, atol=1e-4)
        if case["mnist"]:
            net = MNISTtoUSPSNet().eval()
            img = torch.tensor(r.normal(size=(case["n"], 1, 28, 28)), dtype=torch.float32)
            out = net(img, **w)
            ctx.expect(tuple(out.shape) == (case["n"], 10), f"MNISTtoUSPSNet gives {tuple(out.shape)}")
            ctx.close(net(img[:1]), out[:1], "MNISTtoUSPSNet on one image", rtol=1e-3, atol=1e-4)
    ctx.hard()


def gen_gen(draw):
    return dict(seed=draw(ints(0, 2**31 - 1)), kind=draw(pick("int", "numpy", "generator", "none", "module", "bad")), n=draw(ints(1, 6)))


@facet("C29", "generator", gen_gen, 60, rule="generator: the seed is an int or a generator")
def generator(case, ctx):
    s, k, n = case["seed"], case["kind"], case["n"]
    torch.manual_seed(3)
    state = torch.get_rng_state()
    if k in ("int", "numpy"):
        g = check_generator(s if k == "int" else np.int64(s))
        exp = torch.randn(n, generator=torch.Generator().manual_seed(s))
        ctx.same(torch.randn(n, generator=g), exp, "numbers drawn")
        ctx.same(torch.get_rng_state(), state, "the global generator")
    elif k == "generator":
        g = torch.Generator().manual_seed(s)
        ctx.expect(check_generator(g) is g, "a generator is returned as given")
    elif k in ("none", "module"):
        g = check_generator(None if k == "none" else torch.random)
        ctx.expect(g is torch.default_generator, "the global generator is returned")
    else:
        ctx.raises(ValueError, lambda: check_generator("seed"), "a string")
    ctx.hard(k in ("int", "numpy", "generator"))


# --------------------------------------------------------------------- callbacks


def gen_train(draw):
    ns = draw(ints(4, 9))
    return dict(ns=ns, nt=draw(ints(5, 10)), k=draw(ints(2, 3)), d=draw(ints(2, 3)), seed=draw(SEED), init=draw(ints(0, 20)), order=draw(BOOL),
                domains=draw(ints(1, 2)), zero=draw(BOOL), bs=draw(ints(2, 4)), epochs=draw(ints(1, 4)), fits=draw(ints(1, 2)), lr=draw(pick(0.05, 1.0)),
                drop=draw(pick(0.0, 0.5)), given=draw(pick("list", "one", "two")),
                momentum=draw(pick(0.5, 0.5, 0.9, 0.2, 1.0, 0.0)))


class Watch(Callback):
    """Calls the functions that the check gives."""

    def __init__(self, store):
        self.store = store

    def __deepcopy__(self, memo):
        return self

    def on_train_begin(self, net, *a, **k):
        self.store.on("train_begin", net)

    def on_epoch_begin(self, net, *a, **k):
        self.store.on("epoch_begin", net)

    def on_batch_begin(self, net, *a, **k):
        self.store.on("batch_begin", net, k.get("batch"))

    def on_batch_end(self, net, *a, **k):
        if k.get("training"):
            self.store.on("batch_end", net, k.get("batch"))

    def on_epoch_end(self, net, *a, **k):
        self.store.on("epoch_end", net)


def evaluate(net, X):
    base = net.module_.base_module_
    with torch.no_grad():
        f = torch.tanh(base.fc0(X))
        return f.numpy().astype(float), base.fc1(f).numpy().astype(float)


class BankStore:
    """Model of the memory bank, updated at each batch: one slot per target row, in the
    order of the data. With several target domains the library numbers the rows in
    each domain, hence rows of different domains share a slot (a known finding):
    `shared` models it, so that anything else is still reported."""

    def __init__(self, ctx, Xt, dt, k, m):
        self.ctx, self.n, self.k, self.m = ctx, len(Xt), k, m
        self.slots = {x.tobytes(): i for i, x in enumerate(Xt)}
        self.inside = [int((dt[:i] == d).sum()) for i, d in enumerate(dt)]
        self.several = len(set(dt.tolist())) > 1
        self.f = self.o = self.shared = None
        self.epochs, self.counts, self.updates = 0, [], 0

    def on(self, what, net, batch=None):
        crit, ctx = net.criterion_.adapt_criterion, self.ctx
        if what == "train_begin":
            self.f, self.epochs = None, 0
        elif what == "epoch_begin":
            self.epochs += 1
        elif what == "batch_begin":
            ctx.expect(crit.n_epochs == self.epochs, f"{crit.n_epochs} epochs counted during epoch {self.epochs}")
            if self.f is None:
                f, o = crit.memory_features.numpy(), crit.memory_outputs.numpy()
                ctx.expect(f.shape == (self.n, 4) and o.shape == (self.n, self.k), f"shapes {f.shape} {o.shape} of the memory")
                ctx.close(np.linalg.norm(f, axis=1), np.ones(self.n), "norm of the initial memory", rtol=1e-4)
                ctx.close(o, np.full((self.n, self.k), 1 / self.k), "initial outputs in memory", rtol=1e-4)
                self.f, self.o = f.astype(float), o.astype(float)
                self.shared = [self.f.copy(), self.o.copy()]
            self.compare(crit)
        elif what == "batch_end":
            Xb, _ = batch
            t = Xb["sample_domain"] < 0
            i = [self.slots[x.tobytes()] for x in Xb["X"][t].numpy()]
            f, z = evaluate(net, Xb["X"][t])
            f = f / np.linalg.norm(f, axis=1, keepdims=True)
            P = softmax(z) ** 2
            P = P / P.sum(0)
            # a row drawn twice in a batch is written twice, from the same old value
            self.f[i], self.o[i] = (1 - self.m) * self.f[i] + self.m * f, (1 - self.m) * self.o[i] + self.m * P
            j = [self.inside[a] for a in i]
            g, h = self.shared
            g[j], h[j] = (1 - self.m) * g[j] + self.m * f, (1 - self.m) * h[j] + self.m * P
            self.updates += 1
        elif what == "epoch_end":
            self.compare(crit)

    def compare(self, crit):
        if self.several:
            got = crit.memory_features.numpy(), crit.memory_outputs.numpy()
            near = [all(a.shape == b.shape and np.allclose(a, b, rtol=1e-3, atol=1e-4) for a, b in zip(got, m)) for m in ((self.f, self.o), self.shared)]
            if not near[0] and near[1]:
                self.ctx.fail("target rows of different domains share their place in the memory of SPA", finding="spa-shared-memory")
                return
        self.ctx.close(crit.memory_features, self.f, "features in memory", rtol=1e-3, atol=1e-4)
        self.ctx.close(crit.memory_outputs, self.o, "outputs in memory", rtol=1e-3, atol=1e-4)


@facet("C29", "bank", gen_train, 60, shards=2, rule="bank: several batches")
def bank(case, ctx):
    """SPA keeps for each target row a moving average of its normalised features and
    outputs, counts the epochs from 1 in every fit, and runs the caller's callbacks."""
    X, y, sd = problem(case)
    ym = np.where(sd < 0, -1, y)
    store = BankStore(ctx, X[sd < 0], sd[sd < 0], case["k"], case["momentum"])
    watch = Watch(store)
    given = {"list": [watch], "one": watch, "two": [("mine", watch), CountDown()]}[case["given"]]
    before = list(given) if isinstance(given, list) else None
    base = Net(case["d"], 4, case["k"], seed=case["init"], drop=case["drop"])
    net = SPA(base, "act", num_features=4, reg_nap=0.5, callbacks=given, max_epochs=case["epochs"], batch_size=case["bs"], train_split=None, verbose=0, lr=case["lr"])
    net.criterion__adapt_criterion.K = 1
    banks = [c for c in (c[1] if isinstance(c, tuple) else c for c in net.callbacks) if isinstance(c, MemoryBank)]
    ctx.expect(len(banks) == 1 and banks[0].momentum == 0.5, "SPA has one memory bank, of momentum 0.5")
    banks[0].momentum = case["momentum"]
    torch.manual_seed(case["seed"])
    batches = max(case["ns"] // case["bs"], case["nt"] // case["bs"])
    for _ in range(case["fits"]):
        store.updates = 0
        net.fit(X, ym, sample_domain=sd)
        ctx.expect(store.epochs == case["epochs"], f"{store.epochs} epochs instead of {case['epochs']}")
        ctx.expect(store.updates == case["epochs"] * batches, f"{store.updates} batches instead of {case['epochs'] * batches}")
        ctx.expect(net.criterion_.adapt_criterion.n_epochs == case["epochs"], "count of epochs after the fit")
    if before is not None:
        ctx.expect(given == before, "the caller's list of callbacks was modified")
    ctx.label("callbacks=" + case["given"])
    ctx.hard(batches * case["epochs"] > 1)


class CountDown(Callback):
    pass


class ClusterStore:
    """Model of the clusters of the target rows, computed when an epoch begins."""

    def __init__(self, ctx, X, y, sd, k):
        self.ctx, self.X, self.y, self.sd, self.k = ctx, X, y, sd, k
        self.ref, self.epochs, self.checked = None, 0, 0

    def on(self, what, net, batch=None):
        ctx = self.ctx
        if what == "epoch_begin":
            self.epochs += 1
            f, _ = evaluate(net, torch.tensor(self.X))
            s = self.sd >= 0
            g = f[s] / np.linalg.norm(f[s], axis=1, keepdims=True)
            init = np.stack([g[self.y[s] == c].sum(0) for c in range(self.k)])
            z = f[~s] / np.linalg.norm(f[~s], axis=1, keepdims=True)
            _, C, _, margin = spherical(z, init, 300)
            self.ref = C if margin > 1e-4 else None
            self.first = True
        elif what == "batch_begin" and self.first:
            self.first = False
            km = net.criterion_.adapt_criterion.target_kmeans
            ctx.expect(km is not None and len(km.cluster_centers_) == self.k, "clusters of the target rows")
            if self.ref is not None:
                self.checked += 1
                ctx.close(km.cluster_centers_, self.ref, f"clusters in epoch {self.epochs}", rtol=1e-2, atol=2e-3)


@facet("C29", "clusters", gen_train, 60, shards=2, rule="clusters: several epochs")
def clusters(case, ctx):
    """CAN clusters the target rows anew at each epoch, from the centroids of the source classes."""
    X, y, sd = problem(case)
    ym = np.where(sd < 0, -1, y)
    store = ClusterStore(ctx, X, y, sd, case["k"])
    watch = Watch(store)
    given = {"list": [watch], "one": watch, "two": [("mine", watch), CountDown()]}[case["given"]]
    before = list(given) if isinstance(given, list) else None
    base = Net(case["d"], 4, case["k"], seed=case["init"], drop=case["drop"])
    net = CAN(base, "act", sigmas=[1.0], class_threshold=1, callbacks=given, max_epochs=case["epochs"], batch_size=case["bs"], train_split=None, verbose=0, lr=case["lr"] / 10)
    torch.manual_seed(case["seed"])
    for _ in range(case["fits"]):
        store.epochs = 0
        net.fit(X, ym, sample_domain=sd)
        ctx.expect(store.epochs == case["epochs"], f"{store.epochs} epochs instead of {case['epochs']}")
    if before is not None:
        ctx.expect(given == before, "the caller's list of callbacks was modified")
    ctx.hard(case["epochs"] > 1 and store.checked > 1)

"""C32: dataset loaders return what the data folder, or the downloaded archive, holds.

Everything happens in a scratch folder: HOME, the working directory and every data folder
given to a loader are inside it. Downloads are replaced below skada, in scikit-learn."""

import csv
import io
import os
import shutil
import tarfile
import tempfile
import zipfile
from pathlib import Path
from unittest import mock

import numpy as np
import sklearn.datasets._base as skbase
from hypothesis import strategies as st
from scipy.io import savemat
from skada import datasets as D

from ..core import facet
from ..gens import BOOL, SEED, ints, pick, rng

CATEGORIES = ["back_pack", "bike", "mug", "laptop_computer", "ruler", "scissors", "tape_dispenser", "Zebra"]
CALTECH = {"back_pack", "bike", "calculator", "headphones", "keyboard", "laptop_computer", "monitor", "mouse", "mug", "projector"}


class Scratch:
    """A folder of its own, which is also HOME and the working directory."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="vp_loaders_")
        self.cwd = os.getcwd()
        self.env = dict(os.environ)
        os.environ["HOME"] = self.path
        os.environ.pop("SKADA_DATA_FOLDER", None)
        os.chdir(self.path)
        return self.path

    def __exit__(self, *exc):
        os.chdir(self.cwd)
        os.environ.clear()
        os.environ.update(self.env)
        if os.path.basename(self.path).startswith("vp_loaders_"):
            shutil.rmtree(self.path, ignore_errors=True)


# ------------------------------------------------------------ contents of a data folder


def gen_office(draw):
    cats = draw(st.lists(pick(*CATEGORIES), min_size=1, max_size=5, unique=True))
    return {d: {c: [draw(ints(1 if i == 0 else 0, 4)), draw(ints(0, 2))] for i, c in enumerate(cats)} for d in ("amazon", "webcam", "dslr")}


def write_office(root, flavour, tree, seed):
    """Files below root; returns {domain: [(category, row)]}."""
    r = rng(seed, 31)
    rows = {}
    for dom, cats in tree.items():
        rows[dom] = []
        for c, (n, decoys) in cats.items():
            folder = os.path.join(root, dom, "interest_points" if flavour == "surf" else "decaf-fts", c)
            os.makedirs(folder)
            for k in range(n + (decoys if flavour == "surf" else 0)):
                tag = f"{r.randint(10**6):06d}_{k}"
                if flavour == "surf":
                    dim = 800 if k < n else 600
                    v = r.randint(0, 255, size=dim).astype(np.uint8)
                    f = f"histogram_{tag}.SURF_SURF.amazon_{dim}.SURF_SURF.mat"
                    mat = {"histogram": v.reshape((1, -1) if r.rand() < 0.7 else (-1, 1))}
                else:
                    v = r.normal(size=1000)
                    f = f"frame_{tag}.mat"
                    mat = {"fc8": v.reshape((1, -1) if r.rand() < 0.7 else (-1, 1)), "fc6": r.normal(size=(1, 7))}
                savemat(os.path.join(folder, f), mat)
                if k < n:
                    rows[dom].append((c, v))
    return rows


def gen_amazon(draw):
    return dict(n={d: draw(ints(1, 9)) for d in ("books", "dvd", "kitchen", "elec")}, d=draw(ints(1, 6)), dtype=draw(pick("uint8", "float64")),
                row=draw(BOOL))


def write_amazon(root, spec, seed):
    r = rng(seed, 32)
    rows = {}
    os.makedirs(root, exist_ok=True)
    for dom, n in spec["n"].items():
        X = r.randint(0, 200, size=(n, spec["d"])) + (0.25 if spec["dtype"] == "float64" else 0)
        y = r.randint(0, 2, size=n)
        savemat(os.path.join(root, f"{dom}_400.mat"), {"fts": X.astype(spec["dtype"]), "labels": y[None] if spec["row"] else y[:, None]})
        rows[dom] = [(float(b), a.astype(np.float32)) for a, b in zip(X, y)]
    return rows


HOME_DOMAINS = {"art": "Art", "clipart": "Clipart", "product": "Product", "realworld": "RealWorld"}


def gen_home(draw):
    return dict(n={d: draw(ints(1, 7)) for d in HOME_DOMAINS}, d=draw(ints(1, 5)), mix=draw(BOOL),
                labels=draw(st.lists(pick("Bike", "Alarm_Clock", "Pen", "a, b", "Mug"), min_size=1, max_size=4, unique=True)))


def write_home(root, spec, seed):
    r = rng(seed, 33)
    os.makedirs(root, exist_ok=True)
    lines, rows = [], {d: [] for d in spec["n"]}
    for dom, n in spec["n"].items():
        for _ in range(n):
            x = r.randint(-64, 64, size=spec["d"]) / 8 + r.randint(2)
            lab = spec["labels"][r.randint(len(spec["labels"]))]
            lines.append([*map(repr, x.tolist()), lab, HOME_DOMAINS[dom]])
            rows[dom].append((lab, x.astype(np.float32)))
    if spec["mix"]:
        lines = [lines[i] for i in r.permutation(len(lines))]
    with open(os.path.join(root, "OfficeHomeResnet50.csv"), "w", newline="") as fh:
        w = csv.writer(fh)
        w.writerow([f"f{i}" for i in range(spec["d"])] + ["label", "domain"])
        w.writerows(lines)
    return rows


FOLDER = {"surf": "domain_adaptation_features", "decaf": "domain_adaptation_decaf_features", "amazon": "amazon_review_directory",
          "home": "office_home_resnet50_directory"}
ONE = {"surf": D.fetch_office31_surf, "decaf": D.fetch_office31_decaf, "amazon": D.fetch_amazon_review, "home": D.fetch_office_home}
ALL = {"surf": D.fetch_office31_surf_all, "decaf": D.fetch_office31_decaf_all, "amazon": D.fetch_amazon_review_all, "home": D.fetch_office_home_all}
ENUM = {"surf": D.Office31Domain, "decaf": D.Office31Domain, "amazon": D.AmazonReviewDomain, "home": D.OfficeHomeDomain}
DTYPE = {"surf": np.uint8, "decaf": np.float64, "amazon": np.float32, "home": np.float32}


def gen_contents(draw, flavours=("surf", "decaf", "amazon", "home")):
    f = draw(pick(*flavours))
    return dict(flavour=f, seed=draw(SEED), tree=(gen_office if f in ("surf", "decaf") else gen_amazon if f == "amazon" else gen_home)(draw))


def write(root, case):
    f = case["flavour"]
    if f in ("surf", "decaf"):
        return write_office(root, f, case["tree"], case["seed"])
    return (write_amazon if f == "amazon" else write_home)(root, case["tree"], case["seed"])


def key(label, row):
    return (str(label), np.asarray(row).dtype.str, np.asarray(row).tobytes())


def check_rows(ctx, X, y, expected, what):
    """X, y hold exactly the expected (label, row) pairs."""
    X, y = np.asarray(X), np.asarray(y)
    ctx.expect(X.ndim == 2 and len(X) == len(y), f"{what}: shapes {X.shape} {y.shape}")
    ctx.expect(len(X) == len(expected), f"{what}: {len(X)} rows instead of {len(expected)}")
    got = sorted(key(l, x) for l, x in zip(y, X))
    want = sorted(key(l, x) for l, x in expected)
    ctx.expect([g[1:] for g in sorted(got, key=lambda g: g[1:])] == [w[1:] for w in sorted(want, key=lambda g: g[1:])], f"{what}: the rows are not those of the files")
    ctx.expect(got == want, f"{what}: a row has the label of another")


# ------------------------------------------------------------------- contents


def gen_load(draw):
    c = gen_contents(draw)
    f = c["flavour"]
    doms = [d.value for d in ENUM[f]]
    c["domain"] = draw(pick(*doms))
    c["as"] = draw(pick("str", "upper", "enum"))
    c["home"] = draw(pick("str", "path", "env", "default", "tilde"))
    c["shuffle"] = draw(BOOL)
    c["rs"] = draw(ints(0, 50))
    c["rs_as"] = draw(pick("int", "int", "instance", "none"))
    c["cats"] = None
    if f in ("surf", "decaf"):
        have = sorted(next(iter(c["tree"].values())))
        c["cats"] = draw(st.one_of(st.none(), st.just("all"), st.just("caltech256"),
                                   st.lists(pick(*have), min_size=1, unique=True), st.lists(pick(*CATEGORIES), min_size=1, max_size=4, unique=True)))
    return c


def where(case, tmp):
    """The folder that holds the data, and the data_home to give."""
    if case["home"] == "str":
        return os.path.join(tmp, "data"), os.path.join(tmp, "data")
    if case["home"] == "path":
        return os.path.join(tmp, "data"), Path(tmp) / "data"
    if case["home"] == "env":
        os.environ["SKADA_DATA_FOLDER"] = os.path.join(tmp, "fromenv")
        return os.path.join(tmp, "fromenv"), None
    if case["home"] == "tilde":
        return os.path.join(tmp, "sub", "dir"), "~/sub/dir"
    return os.path.join(tmp, "skada_datasets"), None


def domain_arg(case):
    e = ENUM[case["flavour"]](case["domain"])
    return e if case["as"] == "enum" else e.value.upper() if case["as"] == "upper" else e.value


def no_download(*a, **k):
    raise AssertionError("a download was tried although the data is there")


@facet("C32", "contents", gen_load, 200, shards=4, rule="contents: at least two labels and four rows")
def contents(case, ctx):
    f = case["flavour"]
    ctx.label(f, f"cats={case['cats'] if isinstance(case['cats'], (str, type(None))) else 'list'}", "home=" + case["home"])
    with Scratch() as tmp, mock.patch.object(skbase, "urlretrieve", no_download):
        base, home = where(case, tmp)
        rows = write(os.path.join(base, FOLDER[f]), case)
        before = sorted(str(p.relative_to(base)) for p in Path(base).rglob("*"))

        def options(**more):
            rs = {"int": case["rs"], "instance": np.random.RandomState(case["rs"]), "none": None}[case["rs_as"]]
            return {**dict(data_home=home, shuffle=case["shuffle"], random_state=rs), **extra, **more}

        extra = {}
        office = f in ("surf", "decaf")
        cats = None
        if office:
            cats = case["cats"]
            extra["categories"] = D.Office31CategoriesPreset(cats) if isinstance(cats, str) else cats
            cats = CALTECH if cats == "caltech256" else None if cats == "all" else cats
        expected = {d: [(c, v) for c, v in rr if cats is None or c in cats] for d, rr in rows.items()}
        if not all(expected.values()):
            ctx.label("nothing selected")
            return

        def decode(y, names):
            return [names[int(i)] for i in np.asarray(y)]

        names = sorted(c for c in next(iter(case["tree"].values())) if cats is None or c in cats) if office else None
        want = expected[case["domain"]]
        X, y = ONE[f](domain_arg(case), return_X_y=True, **options())
        ctx.expect(X.dtype == DTYPE[f], f"features are {X.dtype}")
        check_rows(ctx, X, decode(y, names) if office else y, want, "one domain")
        repeat = not case["shuffle"] or case["rs_as"] != "none"
        b = ONE[f](domain_arg(case), **options())
        if office:
            ctx.expect(list(b.target_names) == names, f"target_names {b.target_names} instead of {names}")
            Xb, yb = b.X, b.y
        else:
            Xb, yb, _ = b.pack(as_sources=[case["domain"]], as_targets=[], mask_target_labels=False, return_X_y=True)
        check_rows(ctx, Xb, decode(yb, names) if office else yb, want, "without return_X_y")
        Xa, ya = ONE[f](domain_arg(case), return_X_y=True, download_if_missing=False, **options())
        check_rows(ctx, Xa, decode(ya, names) if office else ya, want, "loaded again")
        if repeat:
            ctx.same(Xb, X, "without return_X_y"), ctx.same(yb, y, "without return_X_y: labels")
            ctx.same(Xa, X, "loaded again"), ctx.same(ya, y, "loaded again: labels")
        X2, y2 = ONE[f](domain_arg(case), return_X_y=True, **options(shuffle=not case["shuffle"]))
        check_rows(ctx, X2, decode(y2, names) if office else y2, want, "with and without shuffle")
        if len(X) >= 14 and len({x.tobytes() for x in X}) == len(X):
            ctx.expect(not np.array_equal(X, X2), "shuffle=True kept the order")
        full = ALL[f](**options())
        ctx.expect(set(full.domain_names_) == {d.value for d in ENUM[f]}, f"domains {sorted(full.domain_names_)}")
        for d in ENUM[f]:
            Xd, yd = full.get_domain(d.value)
            check_rows(ctx, Xd, decode(yd, names) if office else yd, expected[d.value], f"all domains: {d.value}")
        if case["rs_as"] == "int":
            # the same options give the same rows, alone or among all domains
            flip = ALL[f](**options(shuffle=not case["shuffle"]))
            for ds, toggled in ((full, False), (flip, True)):
                Xd = ds.get_domain(case["domain"])[0]
                if f != "home":
                    ctx.same(Xd, X2 if toggled else X, f"all domains, shuffle={case['shuffle'] != toggled}")
            Xd, Xe = full.get_domain(case["domain"])[0], flip.get_domain(case["domain"])[0]
            if len(Xd) >= 14 and len({x.tobytes() for x in Xd}) == len(Xd):
                ctx.expect(not np.array_equal(Xd, Xe), "shuffle=True kept the order of all domains")
        order = [d.value for d in ENUM[f]]
        Xp, yp, sd = full.pack(as_sources=order[:1], as_targets=order[1:], mask_target_labels=False, return_X_y=True)
        ctx.expect(len(Xp) == sum(len(v) for v in expected.values()), "rows of the packed dataset")
        ctx.expect(int((np.asarray(sd) > 0).sum()) == len(expected[order[0]]), "source rows of the packed dataset")
        after = sorted(str(p.relative_to(base)) for p in Path(base).rglob("*"))
        ctx.expect(after == before, "loading changed the data folder")
        ctx.raises(ValueError, lambda: ONE[f]("nowhere", data_home=home), "an unknown domain")
        ctx.hard(len(want) > 3 and len({l for l, _ in want}) > 1)


# ------------------------------------------------------------------- downloads


def archive(case, tmp):
    """bytes of the archive that the site serves, and the rows in it"""
    f = case["flavour"]
    root = os.path.join(tmp, "served")
    inner = {"surf": FOLDER["surf"], "amazon": "amazon_review"}.get(f, "")
    rows = write(os.path.join(root, inner), case)
    buf = io.BytesIO()
    files = sorted(p for p in Path(root).rglob("*") if p.is_file())
    if f in ("surf", "decaf"):
        with tarfile.open(fileobj=buf, mode="w:gz") as t:
            for p in sorted(Path(root).iterdir()):
                t.add(p, arcname=p.name)
    else:
        with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as z:
            for p in files:
                z.write(p, str(p.relative_to(root)))
    shutil.rmtree(root)
    return buf.getvalue(), rows


def gen_download(draw):
    c = gen_contents(draw)
    c["all"] = draw(BOOL)
    c["domain"] = draw(pick(*[d.value for d in ENUM[c["flavour"]]]))
    c["home"] = draw(pick("str", "path", "default"))
    c["faults"] = draw(st.lists(pick("offline", "interrupt", "checksum", "full disk", "killed", "killed while extracting"), max_size=2))
    c["member"] = draw(ints(0, 3))
    c["order"] = draw(pick("missing first", "fetch"))
    return c


@facet("C32", "download", gen_download, 150, shards=4, rule="download: a download fails before one succeeds")
def download(case, ctx):
    """Whatever interrupted earlier downloads, the data is fetched once and is complete."""
    f = case["flavour"]
    ctx.label(f, *("fault=" + x for x in case["faults"] or ["none"]))
    with Scratch() as tmp:
        base, home = where(case, tmp)
        blob, rows = archive(case, tmp)
        state = dict(fault=None, calls=0)
        counter = [0]

        def retrieve(url, path):
            state["calls"] += 1
            fault = state["fault"]
            if fault == "offline":
                raise OSError("offline")
            data = blob
            if fault in ("interrupt", "killed", "checksum"):
                data = blob[: len(blob) // 2]
            with open(path, "wb") as fh:
                fh.write(data)
            if fault == "interrupt":
                raise KeyboardInterrupt()
            if fault == "killed":
                os._exit(17)

        def sha(path):
            with open(path, "rb") as fh:
                return state["checksum"] if fh.read() == blob else "0" * 64

        at = 1 if f == "home" else case["member"] + 1  # the file whose extraction goes wrong

        def copier(real):
            def copy(*a, **k):
                counter[0] += 1
                if counter[0] == at:
                    if state["fault"] == "full disk":
                        raise OSError(28, "No space left on device")
                    if state["fault"] == "killed while extracting":
                        os._exit(17)
                return real(*a, **k)
            return copy

        def call(**kw):
            if case["all"]:
                out = ALL[f](data_home=home, **kw)
                return {d: out.get_domain(d) for d in rows}
            return {case["domain"]: ONE[f](case["domain"], data_home=home, return_X_y=True, **kw)}

        import skada.datasets._amazon_review as ma
        import skada.datasets._office as mo
        import skada.datasets._office_home as mh

        by_folder = {v.dataset_dir: v.remote for m in (ma, mo, mh) for v in vars(m).values() if hasattr(v, "remote") and hasattr(v, "dataset_dir")}
        state["checksum"] = by_folder[FOLDER[f]].checksum
        with mock.patch.object(skbase, "urlretrieve", retrieve), mock.patch.object(skbase, "_sha256", sha), \
                mock.patch.object(tarfile, "copyfileobj", copier(tarfile.copyfileobj)), mock.patch.object(shutil, "copyfileobj", copier(shutil.copyfileobj)):
            if case["order"] == "missing first":
                ctx.raises(OSError, lambda: call(download_if_missing=False), "download_if_missing=False without data")
                ctx.expect(state["calls"] == 0, "download_if_missing=False downloaded")
            for fault in case["faults"]:
                state["fault"], counter[0] = fault, 0
                if fault.startswith("killed"):
                    pid = os.fork()
                    if pid == 0:
                        try:
                            call()
                        except BaseException:
                            os._exit(18)
                        os._exit(0)
                    _, status = os.waitpid(pid, 0)
                    ctx.label(f"killed={os.waitstatus_to_exitcode(status)}")
                    failed = os.waitstatus_to_exitcode(status) != 0
                else:
                    try:
                        call()
                        failed = False
                    except (Exception, KeyboardInterrupt):
                        failed = True
                if not failed:
                    ctx.label(f"{fault}: no effect")
                elif case["order"] == "missing first":
                    ctx.raises(OSError, lambda: call(download_if_missing=False), f"after {fault}: download_if_missing=False without data")
            state["fault"], counter[0] = None, 0
            before = state["calls"]
            got = call()
            for d, (X, y) in got.items():
                X, y = np.asarray(X), np.asarray(y)
                if f in ("surf", "decaf"):
                    names = sorted(case["tree"][d])
                    y = [names[int(i)] for i in y]
                check_rows(ctx, X, y, rows[d], f"{d} after {case['faults']}")
            if not case["faults"]:
                ctx.expect(state["calls"] == before + 1, f"{state['calls'] - before} downloads")
                left = sorted(p.name for p in Path(base).iterdir())
                ctx.expect(left == [FOLDER[f]], f"left in the data folder: {left}")
                outside = [str(p) for p in Path(tmp).rglob("*") if p.is_file() and Path(base) not in p.parents]
                ctx.expect(not outside, f"left outside the data folder: {outside}")
            mid = state["calls"]
            again = call(download_if_missing=False)
            call()
            ctx.expect(state["calls"] == mid, "data that is there was downloaded again")
            for d in got:
                ctx.same(np.asarray(again[d][0]), np.asarray(got[d][0]), "loaded again")
        ctx.hard(bool(case["faults"]))


# ------------------------------------------------------------------- digits


def gen_digits(draw):
    return dict(seed=draw(SEED), n=[draw(ints(1, 14)), draw(ints(1, 14))], n_classes=draw(ints(1, 10)), n_samples=draw(pick(0.0, 0.2, 0.3, 0.5, 0.7, 1, 1.0)),
                train=draw(BOOL), out=draw(pick("dataset", "tuple", "bunch")), rs=draw(st.one_of(st.none(), ints(0, 20))), rsform=draw(pick("int", "numpy", "state")))


def fake_digits(case):
    """Images and labels of both data sets, for train and test."""
    r = rng(case["seed"], 34)
    out = {}
    for k, (name, side) in enumerate((("MNIST", 28), ("USPS", 16))):
        for train in (False, True):
            n = case["n"][k] + (3 if train else 0)
            lab = r.randint(0, 10, size=n)
            lab[0] = 0
            out[name, train] = (r.randint(0, 256, size=(n, side, side)).astype(np.uint8), lab)
    return out


@facet("C32", "digits", gen_digits, 200, shards=2, rule="digits: between one and all images are kept and some classes are left out")
def digits(case, ctx):
    import torch
    import torchvision
    from PIL import Image

    store = fake_digits(case)
    seen = []

    def fake(name):
        class Fake:
            def __init__(self, root, train=True, transform=None, target_transform=None, download=False):
                seen.append((name, train))
                self.images, labels = store[name, bool(train)]
                self.data = torch.tensor(self.images) if name == "MNIST" else self.images
                self.targets = torch.tensor(labels) if name == "MNIST" else labels.tolist()
                self.transform = transform

            def __len__(self):
                return len(self.images)

            def __getitem__(self, i):
                im = Image.fromarray(self.images[i], mode="L")
                return (self.transform(im) if self.transform else im), int(self.targets[i])

        return Fake

    with Scratch(), mock.patch.object(torchvision.datasets, "MNIST", fake("MNIST")), mock.patch.object(torchvision.datasets, "USPS", fake("USPS")):
        def state():
            if case["rs"] is None or case["rsform"] == "int":
                return case["rs"]
            return np.int64(case["rs"]) if case["rsform"] == "numpy" else np.random.RandomState(case["rs"])

        def load():
            return D.load_mnist_usps(n_samples=case["n_samples"], n_classes=case["n_classes"], return_X_y=case["out"] == "tuple",
                                     return_dataset=case["out"] == "dataset", train=case["train"], random_state=state())

        for bad in (-0.1, 1.5):
            ctx.raises(ValueError, lambda: D.load_mnist_usps(n_samples=bad), f"n_samples={bad}")
        got = load()
        if case["out"] == "dataset":
            ctx.expect(set(got.domain_names_) == {"mnist", "usps"}, f"domains {sorted(got.domain_names_)}")
            parts = [got.get_domain("mnist"), got.get_domain("usps")]
        else:
            X, y, sd = got if case["out"] == "tuple" else (got["X"], got["y"], got["sample_domain"])
            sd = np.asarray(sd)
            ctx.expect(len(np.unique(sd)) <= 2 and len(X) == len(y) == len(sd), "one source and one target")
            parts = [(X[sd >= 0], y[sd >= 0]), (X[sd < 0], y[sd < 0])]
        ctx.expect(set(seen) == {("MNIST", case["train"]), ("USPS", case["train"])}, f"loaded {set(seen)}")
        kept = total = 0
        for name, (X, y) in zip(("MNIST", "USPS"), parts):
            im, lab = store[name, case["train"]]
            Z = im.astype(np.float32)[:, None] / np.float32(255)
            if name == "USPS":
                Z = np.pad(Z, ((0, 0), (0, 0), (6, 6), (6, 6)))
            Z = (Z - np.float32(0.1307)) / np.float32(0.3081)
            ok = np.flatnonzero(lab < case["n_classes"])
            X, y = np.asarray(X), np.asarray(y)
            ctx.expect(len(X) == len(y) == int(case["n_samples"] * len(ok)), f"{name}: {len(X)} images of {len(ok)} with n_samples={case['n_samples']}")
            if len(X):
                d = np.abs(X[:, None] - Z[None, ok]).reshape(len(X), len(ok), -1).max(-1)
                near = d.argmin(1)
                ctx.expect(d.min(1).max() < 1e-4, f"{name}: an image is not one of the data set, normalised")
                ctx.same(y, lab[ok][near], f"{name}: labels of the images")
                ctx.expect(len(set(near.tolist())) == len(near), f"{name}: an image is returned twice")
            kept, total = kept + len(X), total + len(lab)
        if case["rs"] is not None and case["out"] == "tuple":
            for a, b, what in zip(load(), got, ("images", "labels", "domains")):
                ctx.same(np.asarray(a), np.asarray(b), f"the same random_state: {what}")
        ctx.hard(0 < kept < total and case["n_classes"] < 10)


# ------------------------------------------------------------------- folders


def gen_folder(draw):
    part = pick("a", "b c", "x.y", "ü")
    return dict(parts=draw(st.lists(part, min_size=1, max_size=3)), arg=draw(pick("str", "path", "tilde", "env", "env tilde", "none")), there=draw(BOOL), both=draw(BOOL))


@facet("C32", "data_home", gen_folder, 150, shards=1, rule="data_home: the folder has to be made")
def data_home(case, ctx):
    with Scratch() as tmp:
        rel = os.path.join(*case["parts"])
        full = os.path.join(tmp, rel)
        arg = {"str": full, "path": Path(full), "tilde": os.path.join("~", rel)}.get(case["arg"])
        if case["arg"].startswith("env"):
            os.environ["SKADA_DATA_FOLDER"] = full if case["arg"] == "env" else os.path.join("~", rel)
        elif case["both"]:
            os.environ["SKADA_DATA_FOLDER"] = os.path.join(tmp, "elsewhere")
        want = full
        if case["arg"] == "none":
            want = os.environ.get("SKADA_DATA_FOLDER") or os.path.join(tmp, "skada_datasets")
        if case["there"]:
            os.makedirs(want)
            open(os.path.join(want, "file"), "w").close()
        got = D.get_data_home(arg)
        ctx.expect(os.path.realpath(got) == os.path.realpath(want), f"{got} instead of {want}")
        ctx.expect(os.path.isdir(want), "the folder was not made")
        ctx.expect(os.listdir(want) == (["file"] if case["there"] else []), "the content of the folder changed")
        ctx.expect(D.get_data_home(arg) == got, "another folder the second time")
        ctx.hard(not case["there"])

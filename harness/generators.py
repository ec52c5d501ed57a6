"""C31: synthetic data sets."""
import random

import numpy as np

from .core import digest, fx, fxl, guarded

ASSUMPTIONS = ["shares are multiples of 1/8", "statistical laws only with 25 or more points per cluster"]


def trace_module(scn):
    return "TraceGenerators.tla"


def fn(gen):
    import skada.datasets as S
    return dict(blobs=S.make_shifted_blobs, shifted=S.make_shifted_datasets, moons=S.make_dataset_from_moons_distribution,
                freq=S.make_variable_frequency_dataset)[gen]


def val(v):
    """arguments from JSON: {"arr": [...]} stands for an array"""
    return np.array(v["arr"], float) if isinstance(v, dict) else v


def args(scn, **over):
    return {k: val(v) for k, v in dict(scn["kw"], **over).items()}


def seed_of(scn):
    return np.random.RandomState(scn["rs"]) if scn["obj"] else scn["rs"]


def make(scn, rs=None, **over):
    """[(name, X, y)] in order"""
    ds = fn(scn["gen"])(random_state=seed_of(scn) if rs is None else rs, return_dataset=True, **args(scn, **over))
    return [(nm, *map(np.asarray, ds.get_domain(nm))) for nm, _ in sorted(ds.domain_names_.items(), key=lambda z: z[1])]


def dig(doms):
    return digest(*[a for _, X, y in doms for a in (X, y)])


def short(X):
    X = np.asarray(X)
    return fxl(X.reshape(len(X), -1)[:, :6], 1000)


def cls(y, label):
    return [] if label == "regression" else fxl(y)


def gen(scn):
    q = scn["q"]
    e = dict(ev="gen", q=q, sides=[], dom=[], agree=False, glob=False, caller=False, distinct=False)

    def go():
        kw = args(scn)
        before = digest(*[kw[k] for k in sorted(kw)])
        np.random.seed(scn["rs"] + 3)
        st = np.random.get_state()[1].copy(), np.random.get_state()[2]
        f = fn(scn["gen"])
        ds = f(random_state=seed_of(scn), return_dataset=True, **kw)
        X, y, d = f(random_state=seed_of(scn), return_X_y=True, **kw)
        b = f(random_state=seed_of(scn), return_X_y=False, **kw)
        now = np.random.get_state()
        e["glob"] = bool(np.array_equal(st[0], now[1]) and st[1] == now[2])
        e["caller"] = before != digest(*[kw[k] for k in sorted(kw)])
        parts = []
        for nm, num in sorted(ds.domain_names_.items(), key=lambda z: z[1]):
            Xd, yd = map(np.asarray, ds.get_domain(nm))
            parts.append((Xd, yd))
            src = nm.startswith("s")
            e["sides"].append(dict(name=nm, source=src, n=q["ns"] if src else q["nt"], rows=len(Xd), ny=len(yd), y=cls(yd, q["label"]),
                                   finite=bool(np.isfinite(Xd).all() and np.isfinite(yd).all()), width=int(np.prod(Xd.shape[1:])),
                                   real=bool(np.issubdtype(yd.dtype, np.floating))))
        e["dom"] = fxl(d)
        e["agree"] = bool(np.array_equal(X, b.X) and np.array_equal(y, b.y) and np.array_equal(d, b.sample_domain)
                          and np.array_equal(X, np.concatenate([p[0] for p in parts])) and np.array_equal(y, np.concatenate([p[1] for p in parts])))
        # real-valued samples are all different
        Xf = np.asarray(X).reshape(len(X), -1)
        e["distinct"] = len(np.unique(Xf, axis=0)) > 0.9 * len(Xf) or bool(scn["flat"])
    _, e["err"] = guarded(go, 120)
    return [e]


def rng_of(scn):
    return random.Random(scn["rs"])


def law(scn):
    out = []
    g = scn["gen"]

    def one(name, f):
        e = dict(ev="law", law=name, gen=g)
        r, e["err"] = guarded(f, 120)
        e.update(r or {})
        out.append(e)
    first = [None]

    def base():
        if first[0] is None:
            first[0] = make(scn)
        return first[0]
    kw = scn["kw"]
    laws = scn["laws"]
    nsrc = scn.get("nsrc", 1)
    if "repeat" in laws:
        one("repeat_object" if scn["obj"] else "repeat", lambda: dict(a=dig(base()), b=dig(make(scn))))
        one("seed_matters", lambda: dict(a=dig(base()), b=dig(make(dict(scn, rs=scn["rs"] + 1)))))

        def adv():
            r = np.random.RandomState(scn["rs"])
            a = dig(make(scn, rs=r))
            return dict(a=a, b=dig(make(scn, rs=r)))
        one("object_advances", adv)
    for over in scn.get("target_only", []):
        one("source_untouched", lambda: dict(a=dig(base()[:nsrc]), b=dig(make(scn, **over)[:nsrc])))
    if "affine" in laws:
        def f():
            a, b = make(scn, mean=0, sigma=1)[1], make(scn, mean=scn["mean"], sigma=scn["snum"] / scn["sden"])[1]
            return dict(x=short(a[1]), z=short(b[1]), num=scn["snum"], den=scn["sden"], add=1000 * scn["mean"], a=digest(a[2]), b=digest(b[2]))
        one("affine", f)
    if "noise" in laws:
        # numbers over 4, first for the source and second for the target; only the first domain of each side is comparable
        for v, side in ((scn["noise"][0], 0), (scn["noise"][1], -1)):
            if g == "moons" and (side == -1 or nsrc > 1):
                continue
            form = [a / 4 for a in scn["noise"]]
            if scn["scalar"]:
                form, v = scn["noise"][0] / 4, scn["noise"][0]
            elif scn["asarr"]:
                form = dict(arr=form)

            def f():
                c, o, z = make(scn, noise=0.0)[side], make(scn, noise=1.0)[side], make(scn, noise=form)[side]
                return dict(x=short(c[1]), one=short(o[1]), z=short(z[1]), num=v, den=4, a=digest(c[2]), b=digest(z[2]))
            one("noise", f)
        if g == "moons":
            # every domain of a side gets the noise of its side, none the other one's
            big, form = rng_of(scn).choice([(1, [2000, 0]), (2, [0, 2000]), (3, 2000), (0, [0, 0]), (1, dict(arr=[2000, 0])), (2, (0, 2000))])
            one("noise_side", lambda: dict(big=big, side=[1 if i < nsrc else 2 for i in range(len(scn["q"]["names"]))],
                                           far=[int(np.abs(z[1]).max() > 50) for z in make(scn, noise=form)]))
        if g != "moons":
            one("labels_same", lambda: dict(a=digest(*[y for *_, y in base()]), b=digest(*[y for *_, y in make(scn, noise=0.5)])))
            one("only_second_changes", lambda: dict(a=dig(make(scn, noise=0.0)[:1]), b=dig(make(scn, noise=[0.0, 1.0])[:1])))
            one("only_first_changes", lambda: dict(a=dig(make(scn, noise=0.0)[1:]), b=dig(make(scn, noise=[1.0, 0.0])[1:])))
            one("repeat", lambda: dict(a=dig(make(scn, noise=0.0)), b=dig(make(scn, noise=None))))
    if "translate" in laws:
        def f():
            s, t = make(scn, noise=None)
            by = np.broadcast_to(val(kw["shift"]), s[1].shape[1:])
            return dict(x=short(s[1]), z=short(t[1]), by=fxl(by, 1000)[:6], a=digest(s[2]), b=digest(t[2]))
        one("translate", f)
    if "rule" in laws:
        def f():
            s, t = make(scn, label="regression", noise=None, standardize=False, mu_regression=None, sigma_regression=None)
            xs, xt = s[1], t[1]
            if kw["shift"] == "conditional_shift":
                xt = (xt - kw["mean"]) / kw["sigma"]
            if kw["shift"] == "subspace":
                xt = -xt

            def r(x):
                return ((x[:, 0] + x[:, 1]) / 2) ** 2 if kw["shift"] == "subspace" else (x ** 2).sum(1)
            ix, jx = slice(None, None, max(1, len(xs) // 40)), slice(None, None, max(1, len(xt) // 40))
            return dict(rs=fxl(r(xs)[ix], 10000), ys=fxl(s[2][ix], 1000000), rt=fxl(r(xt)[jx], 10000), yt=fxl(t[2][jx], 1000000), tol=3)
        one("rule", f)
    if "standard" in laws:
        def f():
            a, b = make(scn, standardize=False), make(scn, standardize=True)
            A, B = np.concatenate([a[0][1], a[1][1]]), np.concatenate([b[0][1], b[1][1]])
            return dict(mean=fxl(B.mean(0), 1000), std=fxl(B.std(0), 1000), corr=[fx(np.corrcoef(A[:, k], B[:, k])[0, 1], 1000) for k in range(A.shape[1])],
                        a=digest(a[0][2], a[1][2]), b=digest(b[0][2], b[1][2]))
        one("standard", f)
    if "closer" in laws:
        def f():
            s, t = make(scn, noise=None, standardize=False)
            c = np.array(kw.get("center_cov_shift", (0, 2)), float)
            return dict(ds=fx(((s[1] - c) ** 2).sum(1).mean(), 1000), dt=fx(((t[1] - c) ** 2).sum(1).mean(), 1000))
        one("closer", f)
    if "moon" in laws:
        def f():
            a, b = make(scn, noise=None), make(scn, noise=None, pos_source=scn["other"])
            n = kw["n_samples_source"]
            d = b[0][1] - a[0][1]
            return dict(move=[fxl(d[:n], 1000), fxl(d[n:], 1000)], later=int(scn["other"] * 100) > int(kw["pos_source"] * 100))
        one("moon", f)
    if "frequency" in laws:
        def f():
            s, t = make(scn, noise=None)

            def peaks(X, y):
                P = np.abs(np.fft.rfft(X[:, 0], axis=-1)) ** 2
                fr = np.fft.rfftfreq(X.shape[-1], 1 / 100)
                return [fx(np.median([(p * fr).sum() / p.sum() for p in P[y == c]]), 100) for c in range(kw["n_classes"])]
            return dict(x=peaks(s[1], s[2]), z=peaks(t[1], t[2]), num=100 * kw["delta_f"], tol=60)
        one("frequency", f)
    return out


# ------------------------------------------------------------------ digits, on stand-in image sets
def digits(scn):
    import torch
    import torchvision
    from skada.datasets._mnist_usps import load_mnist_usps
    rng = random.Random(scn["rs"])
    stored = [[rng.randint(0, 9) for _ in range(scn["sizes"][k])] for k in (0, 1)]
    asked = []

    def fake(k):
        class Images:
            def __init__(self, root=None, train=None, transform=None, download=False, **kw):
                asked.append(bool(train))
                self.transform = transform
                self.targets = torch.tensor(stored[k]) if k == 0 else list(stored[k])

            def __len__(self):
                return len(stored[k])

            def __getitem__(self, i):
                from PIL import Image
                im = np.zeros((28, 28) if k == 0 else (16, 16), np.uint8)
                im.flat[0], im.flat[1] = (i + 1) % 200, (i + 1) // 200
                im = Image.fromarray(im)
                return (self.transform(im) if self.transform else im), int(stored[k][i])
        return Images

    def num(img, k):
        a = np.asarray(img, float).reshape(28, 28) * 0.3081 + 0.1307
        if k == 1:
            a = a[6:22, 6:22]
        v = np.round(a.ravel()[:2] * 255).astype(int)
        return int(v[0] + 200 * v[1])
    e = dict(ev="digits", stored=stored, classes=scn["classes"], num=scn["num"], den=8, sides=[], names=[], dom=[], train=[], asked=[], again=False, glob=False)
    old = torchvision.datasets.MNIST, torchvision.datasets.USPS

    def go():
        torchvision.datasets.MNIST, torchvision.datasets.USPS = fake(0), fake(1)
        np.random.seed(4)
        st = np.random.get_state()[1].copy()
        kw = dict(n_samples=scn["num"] / 8, n_classes=scn["classes"], train=scn["train"])
        ds = load_mnist_usps(return_dataset=True, random_state=seed_of(scn), **kw)
        X, y, d = load_mnist_usps(random_state=seed_of(scn), **kw)
        e["glob"] = bool(np.array_equal(st, np.random.get_state()[1]))
        e["names"] = [nm for nm, _ in sorted(ds.domain_names_.items(), key=lambda z: z[1])]
        parts = []
        for k, nm in enumerate(e["names"]):
            Xd, yd = ds.get_domain(nm)
            parts.append((np.asarray(Xd), np.asarray(yd)))
            e["sides"].append(dict(ids=[num(v, k) for v in np.asarray(Xd)], y=fxl(yd)))
        e["dom"] = fxl(d)
        e["again"] = bool(np.array_equal(np.concatenate([p[0] for p in parts]), np.asarray(X)) and np.array_equal(np.concatenate([p[1] for p in parts]), np.asarray(y)))
        e["train"], e["asked"] = asked, [scn["train"]] * len(asked)
    try:
        _, e["err"] = guarded(go, 60)
    finally:
        torchvision.datasets.MNIST, torchvision.datasets.USPS = old
    return [e]


def execute(scn):
    return dict(gen=gen, law=law, digits=digits)[scn["ev"]](scn)


# ------------------------------------------------------------------ scenarios
def noise_of(rng):
    return rng.choice([None, 0.1, 1, 0.0, [0.1, 0.2], (0.5, 0.0), dict(arr=[0.2, 0.1])])


def scenario(rng, ev, g):
    s = dict(ev=ev, gen=g, rs=rng.choice([0, rng.randint(1, 10**5), rng.randint(1, 10**5), rng.randint(1, 10**5)]), obj=rng.random() < 0.35, flat=False, laws=["repeat"])
    stat = ev == "law"
    if g == "blobs":
        n, f = rng.randint(3, 40), rng.randint(1, 4)
        c = rng.choice([None, 2, 4, [[5 * i + j for j in range(f)] for i in range(3)]])
        s["kw"] = dict(n_samples=n, n_features=f, shift=rng.choice([0.25, 0, -3, dict(arr=[0.5 * (k + 1) for k in range(f)])]), centers=c if not isinstance(c, list) else dict(arr=c),
                       cluster_std=rng.choice([1.0, 0.5]))
        if not stat:
            s["kw"]["noise"] = noise_of(rng)
        s["flat"] = s["kw"]["shift"] == 0
        s["q"] = dict(gen=g, classes=3 if c is None or isinstance(c, list) else c, shift="", label="class", num=0, den=1, width=f, ns=n, nt=n, names=["s", "t"])
        s["laws"] += ["noise", "translate"]
        s["target_only"] = [dict(shift=7)]
    elif g == "shifted":
        ns, nt = (rng.randint(25, 40), rng.randint(25, 40)) if stat else (rng.randint(51, 70), rng.randint(1, 14)) if rng.random() < 0.08 else (rng.randint(1, 14), rng.randint(1, 14))
        shift = rng.choice(["covariate_shift", "target_shift", "conditional_shift", "subspace"])
        label = rng.choice(["binary", "multiclass", "regression"])
        num = rng.randint(0, 8)
        s["kw"] = dict(n_samples_source=ns, n_samples_target=nt, shift=shift, label=label, ratio=num / 8, mean=rng.randint(-2, 3), sigma=rng.choice([0.5, 0.75, 2]),
                       gamma=rng.choice([1, 2, 3]), standardize=rng.random() < 0.2 and not stat)
        if rng.random() < 0.3 and not stat and label == "regression":
            if shift == "subspace":
                s["kw"].update(mu_regression=1, sigma_regression=2)
            else:
                s["kw"].update(mu_regression=dict(arr=[1, 2]), sigma_regression=dict(arr=[[2, 0], [0, 1]]))
        if not stat:
            s["kw"]["noise"] = noise_of(rng)
        s["q"] = dict(gen=g, classes=2, shift=shift, label=label, num=num, den=8, width=2, ns=ns, nt=nt, names=["s", "t"])
        s["laws"] += ["noise", "rule", "standard"]
        s["target_only"] = [dict(n_samples_target=nt + 1)]
        if shift == "covariate_shift":
            s["laws"].append("closer")
            s["target_only"] += [dict(gamma=4), dict(center_cov_shift=[1, 1])]
        elif shift == "target_shift":
            s["target_only"] += [dict(ratio=0.5), dict(ratio=0.25)]
        elif shift == "conditional_shift":
            s["laws"].append("affine")
            s.update(mean=rng.randint(-3, 3), snum=rng.randint(1, 9), sden=4)
            s["target_only"] += [dict(mean=9), dict(sigma=3)]
        if shift != "subspace":
            s["target_only"] += [dict(shift=z) for z in ("covariate_shift", "target_shift", "conditional_shift")]
    elif g == "moons":
        ns, nt = rng.randint(2, 9), rng.randint(2, 9)
        def pos():
            return rng.choice([rng.randint(0, 99) / 100, [rng.randint(0, 99) / 100 for _ in range(rng.randint(1, 4))]])
        ps, pt = pos(), pos()
        if stat and rng.random() < 0.8:
            ps = rng.randint(0, 99) / 100
        s["kw"] = dict(n_samples_source=ns, n_samples_target=nt, pos_source=ps, pos_target=pt if isinstance(pt, float) or rng.random() < 0.5 else dict(arr=pt))
        if not stat:
            s["kw"]["noise"] = noise_of(rng)
        names = (["s"] if isinstance(ps, float) else [f"s{i}" for i in range(len(ps))]) + (["t"] if isinstance(pt, float) else [f"t{i}" for i in range(len(pt))])
        s["nsrc"] = 1 if isinstance(ps, float) else len(ps)
        s["q"] = dict(gen=g, classes=2, shift="", label="class", num=0, den=1, width=2, ns=ns, nt=nt, names=names)
        s["target_only"] = [dict(pos_target=0.9), dict(n_samples_target=nt + 2)]
        s["laws"] += ["noise"] + (["moon"] if isinstance(ps, float) else [])
        s["other"] = rng.randint(0, 99) / 100
    else:
        ns, nt, k, ch = rng.randint(3, 5), rng.randint(3, 5), rng.randint(1, 4), rng.randint(1, 3)
        s["kw"] = dict(n_samples_source=ns, n_samples_target=nt, n_channels=ch, n_classes=k, n_frequencies=1 if stat else rng.randint(1, 2), delta_f=rng.randint(0, 4),
                       band_size=1, sigma_freq=0.05 if stat else 0.25)
        if not stat:
            s["kw"]["noise"] = noise_of(rng)
        s["q"] = dict(gen=g, classes=k, shift="", label="class", num=0, den=1, width=3000 * ch, ns=ns, nt=nt, names=["s", "t"])
        s["target_only"] = [dict(delta_f=5), dict(n_samples_target=nt + 1)]
        s["laws"] += ["noise", "frequency"]
    s.update(noise=[rng.randint(0, 8), rng.randint(0, 8)], scalar=rng.random() < 0.4, asarr=rng.random() < 0.5)
    return s


def corrupt(s, ev):
    ev = [dict(e) for e in ev]
    e = ev[0]
    if e["ev"] == "gen" and e["sides"]:
        e["dom"] = e["dom"][::-1]
        return ev
    if e["ev"] == "law" and e["law"].startswith("repeat"):
        e["a"] = -1
        return ev
    if e["ev"] == "digits" and e["sides"]:
        e["names"] = e["names"][::-1]
        return ev
    return None


def check(chk):
    rng = random.Random(chk.seed * 1000 + 31)
    chk.mc("MC_Generators.tla", "MC_Generators_T.cfg" if chk.thorough else "MC_Generators.cfg", workers=8, must_cover=["Seeded", "Shared", "Free"], mem="10g")
    chk.mc_refuted("MC_Generators.tla", "MC_Generators_Bad.cfg")
    scns = []
    for g, a, b in (("blobs", 60, 40), ("shifted", 300, 130), ("moons", 90, 60), ("freq", 16, 10)):
        scns += [scenario(rng, "gen", g) for _ in range(chk.pick(a, a * 12))]
        scns += [scenario(rng, "law", g) for _ in range(chk.pick(b, b * 12))]
    for _ in range(chk.pick(24, 300)):
        scns.append(dict(ev="digits", rs=rng.choice([0, rng.randint(1, 10**5), rng.randint(1, 10**5), rng.randint(1, 10**5)]), obj=rng.random() < 0.4, sizes=[rng.randint(8, 60), rng.randint(8, 60)], classes=rng.choice([10, 5, 2, 3]),
                         num=rng.choice([8, 8, 4, 2, 6]), train=rng.random() < 0.5))
    rng.shuffle(scns)
    chk.judge("TraceGenerators.tla", chk.execute(execute, scns, chunk=4), corrupt=corrupt)

"""C23, C24, C26: deep samplers, the deep data set, prediction by deep estimators."""
import random

import numpy as np

from .core import digest, fx, fxl, guarded

ASSUMPTIONS = ["CPU only", "labels and domains are integers that float32 represents"]
NETS = ("coral", "dann", "cdan", "cdanrand", "mdd", "mcc", "jdot", "source", "target", "bn")


def trace_module(scn):
    return "TraceDeepData.tla"


def torch_():
    import torch
    torch.set_num_threads(1)
    return torch


# ------------------------------------------------------------------ C24
def enc(xs, shape):
    x = np.array(xs, dtype=np.float32).reshape(-1)
    if shape == "1d":
        return x
    if shape == "2d":
        return np.stack([x, 2 * x + 1], 1)
    return np.stack([np.stack([x, x * 0 + 1], 1), np.stack([2 * x, x + 3], 1)], 1)


def dec(X):
    X = np.asarray(X, dtype=float)
    if len(X) == 0:
        return []
    out = []
    for r in X:
        x = float(np.ravel(r)[0])
        shape = "1d" if np.ndim(r) == 0 else "2d" if np.ndim(r) == 1 else "3d"
        out.append(fx(x) if np.allclose(enc([x], shape)[0], r) else -99)
    return out


def rows_of(X, y, d, w, n=None):
    X, y, d = dec(X), fxl(np.asarray(y)), fxl(np.asarray(d))
    w = [0] * len(X) if w is None else fxl(np.asarray(w), 4)
    if not len(X) == len(y) == len(d) == len(w):
        return [dict(x=-98, y=len(y), d=len(d), w=len(w))]
    return [dict(x=a, y=b, d=c, w=e) for a, b, c, e in zip(X, y, d, w)]


def read(ds, h, sl):
    def go():
        arr = ds.as_arrays()
        dct = ds.as_dict()
        n = len(ds)
        if sl:
            X, y = ds[:]
            items = rows_of(X["X"], y, X["sample_domain"], X.get("sample_weight"))
            iidx = fxl(X["sample_idx"])
        else:
            its = [ds[i] for i in range(n)]
            items = sum((rows_of(X["X"][None], y[None], X["sample_domain"][None], X["sample_weight"][None] if "sample_weight" in X else None)
                         for X, y in its), [])
            iidx = [int(X["sample_idx"]) for X, _ in its]
        return dict(h=h, err="", n=n, arr=rows_of(*(arr if len(arr) == 4 else arr + (None,))), items=items, iidx=iidx,
                    dct=rows_of(dct["X"], dct["y"], dct["sample_domain"], dct.get("sample_weight")), sidx=fxl(dct["sample_idx"]),
                    hw=bool(ds.has_weights), domains=[int(v) for v in ds.domains()], has=[bool(v) for v in ds.has_y])
    q, err = guarded(go)
    if err:
        q = dict(h=h, err=err, n=0, arr=[], items=[], iidx=[], dct=[], sidx=[], hw=False, domains=[], has=[])
    return q


def arr_kind(v, kind, rng_float=False):
    if kind == "list":
        return [t.item() if hasattr(t, "item") else t for t in v] if np.ndim(v) == 1 else np.asarray(v).tolist()
    if kind == "tuple":
        return tuple(np.asarray(v).tolist())
    if kind == "tensor":
        return torch_().as_tensor(np.array(v))
    a = np.array(v)
    return a


def construct(e, shape, wrap, kinds):
    """the keyword arguments / positional objects of one construction"""
    X = enc(e["xs"], shape)
    kx, ky, kd, kw = kinds
    args = dict(X=arr_kind(X, kx if len(X) else "np"))
    if e["ys"]:
        args["y"] = arr_kind(np.array(e["ys"], dtype=np.float32 if ky == "float" else np.int64), ky)
    if e["dom"]["k"] == "each":
        args["sample_domain"] = arr_kind(np.array(e["dom"]["v"], dtype=np.int64), kd)
    elif e["dom"]["k"] == "all":
        args["sample_domain"] = e["dom"]["v"][0]
    if e["ws"]:
        args["sample_weight"] = arr_kind(np.array(e["ws"], dtype=np.float32) / 4, kw)
    return args


def build(args, wrap):
    from pandas import DataFrame
    from skada.deep.base import DeepDADataset
    if wrap == "args":
        return DeepDADataset(**args)
    if wrap == "dict":
        return DeepDADataset(args)
    if wrap == "dictx":
        return DeepDADataset({"X": args["X"]}, *[args.get(k) for k in ("y", "sample_domain", "sample_weight")])
    if wrap == "frame":
        return DeepDADataset(DataFrame({k: list(np.asarray(v).tolist()) for k, v in args.items()}))
    if wrap == "copy":
        return DeepDADataset(DeepDADataset(**args))
    raise AssertionError(wrap)


def cond_of(c):
    v = c["v"]
    if c["on"] == "X":
        return lambda X: (X if X.ndim == 1 else X.flatten(1)[:, 0]) > v
    if c["on"] == "y":
        return lambda y: y <= v
    if c["on"] == "sample_domain":
        return lambda d: d > v
    return lambda w: w * 4 > v


BLANK = dict(a=1, b=1, r=1, keep=False, xs=[], ys=[], dom=dict(k="none", v=[]), ws=[], cond=dict(on="side", v=1), parts=[])


def history(scn):
    from skada.deep.base import DeepDADataset
    ev = [dict(ev="begin")]
    reg = {h: DeepDADataset() for h in (1, 2, 3)}
    shape = scn["shape"]
    for k, o in enumerate(scn["ops"]):
        e = dict(BLANK, ev="op", op=o["op"])
        for f in ("a", "b", "r", "keep", "xs", "ys", "dom", "ws", "cond"):
            if f in o:
                e[f] = o[f]
        if e["op"] == "select" and e["cond"]["on"] == "sample_weight" and not reg[e["a"]].has_weights:
            continue
        if e["op"] == "add_weights":
            n = len(reg[e["a"]].X)
            if n == 0:
                continue
            e["ws"] = [(37 * (i + k)) % 50 + 1 for i in range(n + (1 if o["bad"] else 0))]
        if e["op"] == "select" and (len(reg[e["a"]].X) == 0 and e["cond"]["on"] == "X"):
            continue
        args, dig = {}, 0
        if e["op"] in ("build", "add_domain"):
            args = construct(e, shape, o["wrap"], o["kinds"])
            dig = digest(*[v for v in args.values()])
        parts = {}

        def go():
            op, a, r = e["op"], e["a"], e["r"]
            if op == "build":
                reg[r] = build(args, o["wrap"])
            elif op == "copy":
                reg[r] = DeepDADataset(reg[a])
            elif op == "merge":
                reg[r] = reg[a].merge(reg[e["b"]], keep_weights=e["keep"])
            elif op == "mergein":
                reg[a].merge(reg[e["b"]], keep_weights=e["keep"], out=False)
            elif op == "add_domain":
                if o["wrap"] == "dict":
                    reg[r] = reg[a].add_domain(dict(args))
                elif o["wrap"] == "args" and all(z in args for z in ("y", "sample_domain")):
                    reg[r] = reg[a].add_domain(tuple(args[z] for z in ("X", "y", "sample_domain", "sample_weight") if z in args))
                else:
                    reg[r] = reg[a].add_domain(build(args, o["wrap"]))
            elif op == "select":
                c, rw = e["cond"], e["keep"]
                if c["on"] == "side":
                    reg[r] = reg[a].select_source(rw) if c["v"] == 1 else reg[a].select_target(rw)
                elif c["on"] == "domain":
                    reg[r] = reg[a].select_domain(c["v"], rw)
                elif c["on"] == "labelled":
                    reg[r] = reg[a].select_with_labels(rw)
                else:
                    reg[r] = reg[a].select(cond_of(c), c["on"], return_weights=rw)
            elif op == "add_weights":
                got = reg[a].add_weights(np.array(e["ws"], float) / 4)
                assert got is reg[a]
            elif op == "remove_weights":
                reg[a].remove_weights()
            elif op == "split":
                parts.update(reg[a].per_domain_split(return_weights=e["keep"]))
        _, e["err"] = guarded(go)
        e["caller"] = bool(args) and dig != digest(*[v for v in args.values()])
        e["parts"] = [dict(dom=int(d), read=read(p, 0, k % 2)) for d, p in parts.items()]
        e["reads"] = [read(reg[h], h, (k + h) % 2) for h in (1, 2, 3)]
        ev.append(e)
    return ev


def fill(op, rng):
    """concrete rows for a generated operation"""
    o = dict(op)
    if o["op"] in ("build", "add_domain"):
        pool = o.get("pool", rng.choice("ab"))
        n = 0 if pool == "e" else rng.randint(2, 5) if pool == "a" else rng.randint(1, 3)
        o["xs"] = [rng.randint(0, 7) for _ in range(n)]
        o["ys"] = [rng.choice([-1, -1, 0, 0, 1, 2, -2, -4]) for _ in range(n)] if rng.random() < 0.8 else []
        z = rng.random()
        o["dom"] = (dict(k="each", v=[rng.choice([0, 1, -1, -2, 3]) for _ in range(n)]) if z < 0.7
                    else dict(k="all", v=[rng.choice([0, 2, -2])]) if z < 0.85 else dict(k="none", v=[]))
        w = o.get("w", rng.random() < 0.4)
        o["ws"] = [rng.randint(1, 48) for _ in range(n)] if w else []
        if o.get("bad") and n:
            f = rng.choice(["ys", "dom", "ws"])
            if f == "dom":
                o["dom"] = dict(k="each", v=[1] * (n + 1))
            else:
                o[f] = [1] * (n + 1)
        wraps = ["args", "dict", "dictx", "copy"]
        if n and o["dom"]["k"] != "all" and not (o.get("bad")):
            wraps.append("frame")
        o["wrap"] = rng.choice(wraps)
        o["kinds"] = [rng.choice(["np", "list", "tuple", "tensor"]), rng.choice(["np", "list", "float", "tensor"]),
                      rng.choice(["np", "list", "tuple", "tensor"]), rng.choice(["np", "list", "tensor"])]
        o.pop("bad", None)
    elif o["op"] == "select":
        if "on" in o:
            o["cond"] = dict(on=o["on"], v=o["v"])
    return o


def random_op(rng):
    op = rng.choice(["build", "merge", "merge", "mergein", "select", "select", "select", "add_weights", "remove_weights", "add_domain", "copy", "split"])
    o = dict(op=op, a=rng.randint(1, 3), b=rng.randint(1, 3), r=rng.randint(1, 3), keep=rng.random() < 0.6, bad=rng.random() < 0.15)
    if op == "select":
        o["cond"] = rng.choice([dict(on="side", v=0), dict(on="side", v=1), dict(on="domain", v=rng.choice([0, 1, -1, -2, 9])), dict(on="labelled", v=1),
                                dict(on="X", v=rng.randint(0, 7)), dict(on="y", v=rng.randint(-4, 2)), dict(on="sample_domain", v=rng.randint(-2, 2)),
                                dict(on="sample_weight", v=rng.randint(0, 48))])
    return o


def corrupt24(s, ev):
    ev = [dict(e) for e in ev]
    e = dict(ev[-1])
    e["reads"] = [dict(q) for q in e["reads"]]
    for q in e["reads"]:
        if q["arr"]:
            q["arr"] = [dict(r) for r in q["arr"]]
            q["arr"][-1]["y"] += 1
            ev[-1] = e
            return ev
    return None


# ------------------------------------------------------------------ C23
def sampler(scn):
    torch = torch_()
    from skada.deep.base import (DeepDADataset, DomainBalancedDataLoader, DomainBalancedSampler, DomainOnlyDataLoader,
                                 DomainOnlySampler)
    D = scn["D"]
    n = len(D)
    e = dict(ev=scn["ev"], D=D, b=scn["b"], pol=scn.get("pol", ""), side=scn.get("side", 1), len=0, nbatches=0, epochs=[], batches=[], contents=True)
    torch.manual_seed(scn["seed"])
    full = DeepDADataset(enc(range(1, n + 1), "2d"), np.arange(n) % 3, np.array(D))
    ds = full
    if scn["subset"]:
        # the rows reach the sampler through a torch Subset of a larger data set, as a train split gives them
        pos = list(range(0, 2 * n, 2))
        big_d = np.ones(2 * n, int) * 5
        big_x = np.zeros(2 * n)
        big_d[pos], big_x[pos] = D, range(1, n + 1)
        ds = torch.utils.data.Subset(DeepDADataset(enc(big_x, "2d"), np.arange(2 * n) % 3, big_d), pos)

    def go():
        if scn["ev"] == "balanced":
            s = DomainBalancedSampler(ds, scn["b"], max_samples=scn["pol"])
            ld = DomainBalancedDataLoader(ds, scn["b"], max_samples=scn["pol"])
        else:
            u = "source" if scn["side"] == 1 else "target"
            s = DomainOnlySampler(ds, scn["b"], domain_used=u)
            ld = DomainOnlyDataLoader(ds, scn["b"], domain_used=u)
        e["len"], e["nbatches"] = len(s), len(ld)
        for _ in range(scn["epochs"]):
            e["epochs"].append([int(i) + 1 for i in s])
            bs = []
            for X, y in ld:
                xs = dec(X["X"])
                bs.append(xs)
                ok = all(0 < v <= n and int(X["sample_domain"][i]) == D[v - 1] for i, v in enumerate(xs))
                if not scn["subset"]:
                    ok = ok and all(int(y[i]) == (v - 1) % 3 for i, v in enumerate(xs))
                e["contents"] = e["contents"] and ok
            e["batches"].append(bs)
    _, e["err"] = guarded(go)
    return [e]


def corrupt23(s, ev):
    e = dict(ev[0])
    if not e["epochs"] or not e["epochs"][0]:
        return None
    ep = list(e["epochs"][0])
    ep[-1] = ep[0] if len(ep) > 1 else 99
    e["epochs"] = [ep] + e["epochs"][1:]
    return [e]


# ------------------------------------------------------------------ C26
def bn_class():
    """a module with batch statistics, at module level so that it can be pickled"""
    if "BN" not in globals():
        torch = torch_()

        class BN(torch.nn.Module):
            def __init__(self):
                super().__init__()
                self.a = torch.nn.Linear(2, 6)
                self.bn = torch.nn.BatchNorm1d(6)
                self.b = torch.nn.Linear(6, 3)

            def forward(self, X, sample_weight=None):
                return self.b(torch.relu(self.bn(self.a(X))))
        BN.__qualname__ = "BN"
        globals()["BN"] = BN
    return globals()["BN"]


def make_net(kind, seed, **kw):
    torch = torch_()
    import skada.deep as D
    from skada.deep.modules import ToyModule2D
    torch.manual_seed(seed)

    base = bn_class()() if kind == "bn" else ToyModule2D(n_classes=3, num_features=6, proba=False)
    layer = "bn" if kind == "bn" else "dense0"
    k = dict(dict(max_epochs=2, batch_size=4, train_split=None, verbose=0, lr=0.1), **kw)
    if kind in ("coral", "bn"):
        return D.DeepCoral(base, layer_name=layer, **k)
    if kind == "dann":
        return D.DANN(base, layer_name=layer, num_features=6, **k)
    if kind == "cdan":
        return D.CDAN(base, layer_name=layer, num_features=6, n_classes=3, **k)
    if kind == "cdanrand":
        return D.CDAN(base, layer_name=layer, num_features=6, n_classes=3, max_features=8, **k)
    if kind == "mdd":
        return D.MDD(base, layer_name=layer, num_features=6, n_classes=3, **k)
    if kind == "mcc":
        return D.MCC(base, layer_name=layer, **k)
    if kind == "jdot":
        return D.DeepJDOT(base, layer_name=layer, **k)
    if kind == "source":
        return D.SourceOnly(base, layer_name=layer, **k)
    if kind == "target":
        return D.TargetOnly(base, layer_name=layer, **k)
    if kind == "can":
        return D.CAN(base, layer_name=layer, **k)
    if kind == "dan":
        return D.DAN(base, layer_name=layer, **k)
    if kind == "spa":
        return D.SPA(base, layer_name=layer, num_features=6, **k)
    raise AssertionError(kind)


_FIT = {}


def fitted(kind, seed):
    if (kind, seed) not in _FIT:
        rng = np.random.RandomState(seed)
        X = rng.randn(24, 2).astype(np.float32)
        y = np.arange(24) % 3
        d = np.array([1, -2] * 12)
        X[:, 0] += y
        yy = y if kind == "target" else np.where(d < 0, -1, y)
        net = make_net(kind, seed)
        net.fit(X, yy, sample_domain=d)
        _FIT[kind, seed] = net
    return _FIT[kind, seed]


def as_input(kind, X, d, w, y):
    torch = torch_()
    from skada.deep.base import DeepDADataset
    from skorch.dataset import Dataset
    if kind == "array":
        return X, dict(sample_domain=d, **({} if w is None else dict(sample_weight=w)))
    if kind == "tensor":
        return torch.as_tensor(X), dict(sample_domain=torch.as_tensor(d))
    if kind == "dict":
        return dict(X=X, sample_domain=d, **({} if w is None else dict(sample_weight=w))), {}
    if kind == "dataset":
        return DeepDADataset(X, y, d, w), {}
    if kind == "tuples":
        class Tup(Dataset):
            def __init__(self):
                pass

            def __len__(self):
                return len(X)

            def __getitem__(self, i):
                if i >= len(X):
                    raise IndexError
                return dict(X=X[i], sample_domain=d[i]), y[i]
        return Tup(), {}
    if kind == "subset":
        return torch.utils.data.Subset(DeepDADataset(np.repeat(X, 2, 0), np.repeat(y, 2), np.repeat(d, 2)), list(range(0, 2 * len(X), 2))), {}
    raise AssertionError(kind)


def predict(scn):
    torch_()
    rng = np.random.RandomState(scn["seed"])
    D = np.array(scn["D"])
    n = len(D)
    X = (rng.randint(-8, 9, (n, 2)) / 4).astype(np.float32)
    y = rng.randint(0, 3, n)
    w = rng.randint(1, 9, n).astype(np.float32) if scn["w"] else None
    meth, kind, allow = scn["meth"], scn["kind"], scn["allow"]
    e = dict(ev="predict", meth=meth, kind=kind, allow=allow, D=[int(v) for v in D], alone=[], out=[], tol=2, score=0, y=[int(v) for v in y],
             w=[], caller=False, net=scn["net"])
    net = fitted(scn["net"], scn["nseed"])

    def alone():
        if meth == "predict_features":
            return [fxl(net.predict_features(X[i:i + 1])[0], 10000) for i in range(n)]
        if meth == "score":
            return [int(net.predict(X[i:i + 1], sample_domain=np.array([-1]))[0]) for i in range(n)]
        m = getattr(net, meth)
        return [fxl(np.atleast_1d(m(X[i:i + 1], sample_domain=np.array([-1]))[0]), 10000) for i in range(n)]

    def go():
        dig = digest(X, D, w, y)
        if meth == "score":
            inp, kw = as_input(kind, X, D, None, y)
            if w is not None:
                kw = dict(kw, sample_weight=w)
            e["w"] = [] if w is None else fxl(w)
            e["score"] = fx(net.score(inp, y, allow_source=allow, **kw), 100000)
        else:
            inp, kw = as_input(kind, X, D, w, y)
            if meth == "predict_features":
                out = net.predict_features(inp if kind != "array" else X)
            else:
                out = getattr(net, meth)(inp, allow_source=allow, **kw)
            e["out"] = [fxl(np.atleast_1d(r), 10000) for r in out]
        e["caller"] = dig != digest(X, D, w, y)
    if scn["first"]:
        _, e["err"] = guarded(go)
        e["alone"] = alone()
    else:
        e["alone"] = alone()
        _, e["err"] = guarded(go)
    return [e]


def corrupt26(s, ev):
    e = dict(ev[0])
    if e["meth"] == "score":
        e["score"] = (e["score"] + 37000) % 100001
    elif len(e["out"]) > 1:
        e["out"] = [[v + 50 for v in r] for r in e["out"][:1]] + e["out"][1:]
    else:
        return None
    return [e]


def execute(scn):
    if scn["ev"] == "history":
        return history(scn)
    if scn["ev"] in ("balanced", "only"):
        return sampler(scn)
    return predict(scn)


# ------------------------------------------------------------------ checks
def check(chk):
    rng = random.Random(chk.seed * 1000 + 23)
    {"C23": check23, "C24": check24, "C26": check26}[chk.prop](chk, rng)


def check24(chk, rng):
    chk.mc("MC_DeepData.tla", "MC_DeepData_T.cfg" if chk.thorough else "MC_DeepData.cfg", workers=8,
           must_cover=["Do"])
    chk.mc_refuted("MC_DeepData.tla", "MC_DeepData_Bad.cfg")
    hist = chk.gen("GenDeepData.tla", workers=1)
    rng.shuffle(hist)
    scns = []
    for h in hist[: chk.pick(900, 6000)]:
        scns.append(dict(ev="history", shape=rng.choice(["1d", "2d", "2d", "3d"]), ops=[fill(o, rng) for o in h]))
    for _ in range(chk.pick(500, 8000)):
        ops = [dict(op="build", r=1, pool="a"), dict(op="build", r=2, pool="a")] + [random_op(rng) for _ in range(rng.randint(3, 9))]
        scns.append(dict(ev="history", shape=rng.choice(["1d", "2d", "2d", "3d"]), ops=[fill(o, rng) for o in ops]))
    chk.judge("TraceDeepData.tla", chk.execute(execute, scns), corrupt=corrupt24)


def check23(chk, rng):
    import itertools
    chk.mc("MC_Sampler.tla", "MC_Sampler_T.cfg" if chk.thorough else "MC_Sampler.cfg", workers=8, must_cover=["Draw"])
    chk.mc_refuted("MC_Sampler.tla", "MC_Sampler_Bad.cfg")
    scns = []
    POL = ("max", "min", "source", "target")
    for n in range(2, chk.pick(5, 7) + 1):
        for D in itertools.product((1, -1), repeat=n):
            if len(set(D)) == 2:
                for b in (1, 2, 3):
                    pol = POL[(len(scns) + b) % 4] if not chk.thorough else None
                    for p in [pol] if pol else POL:
                        scns.append(dict(ev="balanced", D=list(D), b=b, pol=p, subset=len(scns) % 4 == 0, epochs=2, seed=rng.randint(0, 10**6)))
                    scns.append(dict(ev="only", D=list(D), b=b, side=1 + len(scns) % 2, subset=len(scns) % 4 == 0, epochs=2, seed=rng.randint(0, 10**6)))
    for _ in range(chk.pick(250, 4000)):
        n = rng.randint(3, 30)
        doms = rng.choice([[0, -1], [0, 1, 2, -1, -2], [5, -3, -4], [1, 1, 1, 1, -2], [2, -1, -1, -1, -1]])
        D = [rng.choice(doms) for _ in range(n)]
        D[0], D[1] = doms[0], doms[-1]
        if rng.random() < 0.8:
            scns.append(dict(ev="balanced", D=D, b=rng.randint(1, 6), pol=rng.choice(POL), subset=rng.random() < 0.3, epochs=rng.randint(1, 3), seed=rng.randint(0, 10**6)))
        else:
            scns.append(dict(ev="only", D=D, b=rng.randint(1, 6), side=rng.randint(1, 2), subset=rng.random() < 0.3, epochs=rng.randint(1, 3), seed=rng.randint(0, 10**6)))
    chk.judge("TraceDeepData.tla", chk.execute(execute, scns), corrupt=corrupt23)


def check26(chk, rng):
    scns = []
    for _ in range(chk.pick(500, 5000)):
        n = rng.randint(1, 11)
        D = [rng.choice([0, 1, 2, -1, -2]) for _ in range(n)]
        meth = rng.choice(["predict", "predict_proba", "predict_features", "score", "score"])
        kind = rng.choice(["array", "tensor", "dict", "dataset", "tuples", "subset"])
        allow = rng.random() < 0.4 and meth != "predict_features"
        if meth != "predict_features" and not allow and all(v >= 0 for v in D):
            D[rng.randrange(n)] = -2
        scns.append(dict(ev="predict", D=D, meth=meth, kind=kind, allow=allow, w=kind not in ("tensor", "tuples", "subset") and rng.random() < 0.4,
                         net=rng.choice(NETS), nseed=chk.seed, seed=rng.randint(0, 10**6), first=rng.random() < 0.5))
    scns.sort(key=lambda s: s["net"])
    chk.mc("MC_DeepPredict.tla", workers=4)
    chk.judge("TraceDeepData.tla", chk.execute(execute, scns), corrupt=corrupt26)

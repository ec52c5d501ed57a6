"""C25, C27: what deep training hands to its losses, counters, schedules, memory banks."""
import copy
import random

import numpy as np

from .core import digest, fx, fxl, guarded
from .deepdata import make_net, torch_

ASSUMPTIONS = ["CPU only", "one thread"]
KINDS = ("coral", "dann", "cdan", "cdanrand", "mdd", "mcc", "jdot", "source", "can", "dan", "spa", "bn")


def trace_module(scn):
    return "TraceDeepTrain.tla"


# ------------------------------------------------------------------ recording losses and module
def parts():
    torch = torch_()
    from skada.deep.base import BaseDALoss

    def grad_only(t):
        # nothing in value, the sum in gradient
        return 0 if t is None else (t - t.detach()).sum()

    class Base(torch.nn.Module):
        def __init__(self, vec, value):
            super().__init__()
            if vec is not None:
                self.reduction = "none"
            self.value, self.calls = value, []

        def forward(self, y_pred, y_true):
            self.calls.append((y_pred.detach().clone(), y_true.detach().clone()))
            if getattr(self, "reduction", "mean") == "none":
                return y_pred[:, 0]
            return grad_only(y_pred) * 64 + self.value

    class Adapt(BaseDALoss):
        def __init__(self, value):
            super().__init__()
            self.value, self.calls = value, []

        def forward(self, **kw):
            self.calls.append({k: None if v is None else v.detach().clone() for k, v in kw.items()})
            return sum(c * grad_only(kw.get(k)) for k, c in COEF.items()) + self.value

    class Ident(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.p = torch.nn.Parameter(torch.ones(1))
            self.lay = torch.nn.Identity()

        def forward(self, X, sample_weight=None):
            return self.lay(X) * self.p

    class Dom(torch.nn.Module):
        def forward(self, x):
            return x[:, 0] + 100
    return Base, Adapt, Ident, Dom


def ids(t, off=0):
    if t is None:
        return []
    t = np.asarray(t, float)
    return [fx((r if np.ndim(r) == 0 else r[0]) - off) for r in t]


KEYS = {"y_s", "y_pred_s", "y_pred_t", "domain_pred_s", "domain_pred_t", "features_s", "features_t", "sample_idx_s", "sample_idx_t"}


COEF = dict(y_pred_s=1, y_pred_t=2, domain_pred_s=4, domain_pred_t=8, features_s=16, features_t=32)


def got_of(b, a):
    return dict(base=ids(b[0]), basey=fxl(b[1]), ys=fxl(a["y_s"]), ps=ids(a["y_pred_s"]), pt=ids(a["y_pred_t"]),
                ds=ids(a["domain_pred_s"], 100), dt=ids(a["domain_pred_t"], 100), fs=ids(a["features_s"]), ft=ids(a["features_t"]),
                **{"is": ids(a["sample_idx_s"]), "it": ids(a["sample_idx_t"])}, extra=len(set(a) - KEYS))


def within(D):
    return [sum(1 for j in range(i) if D[j] == D[i]) for i in range(len(D))]


def step_base(scn):
    return dict(ev="step", D=scn["D"], y=scn["y"], w=scn["w"], batch=[], ontarget=scn["ontarget"], reg=scn["reg"], adapt=scn["A"], base=scn["B"],
                vec=scn["vec"], hasdom=scn["hasdom"], hasfeat=scn["hasfeat"], hasidx=True, num=within(scn["D"]), total=0, err="", grad=dict(p=[], d=[], f=[]),
                got=dict(base=[], basey=[], ys=[], ps=[], pt=[], ds=[], dt=[], fs=[], ft=[], extra=0, **{"is": [], "it": []}))


def crit(scn):
    """one call of the criterion"""
    torch = torch_()
    from skada.deep.base import DomainAwareCriterion
    Base, Adapt, _, _ = parts()
    n = len(scn["D"])
    e = step_base(scn)
    e["w"], e["batch"] = [], list(range(1, n + 1))
    e["hasidx"] = scn["hasidx"]
    i = torch.arange(1, n + 1, dtype=torch.float32)
    f = torch.stack([i, i / 2], 1)
    b, a = Base("none" if scn["vec"] else None, scn["B"]), Adapt(scn["A"])

    def go():
        c = DomainAwareCriterion(b, a, reg=scn["reg"], reduction="none" if scn["vec"] else "mean", train_on_target=scn["ontarget"])
        p, d, h = (t.clone().requires_grad_() for t in (f, i + 100, f))
        r = c((p, d if scn["hasdom"] else None, h if scn["hasfeat"] else None, torch.tensor(scn["D"]),
               torch.tensor(e["num"]) if scn["hasidx"] else None), torch.tensor(scn["y"]))
        e["total"] = fx(float(r.mean()), 1000)
        if r.numel():
            r.mean().backward()
            col = lambda t, has: [] if not has else [0] * n if t.grad is None else fxl(t.grad if t.grad.ndim == 1 else t.grad[:, 1])  # noqa: E731
            e["grad"] = dict(p=col(p, True), d=col(d, scn["hasdom"]), f=col(h, scn["hasfeat"]))
        assert len(b.calls) == len(a.calls) == 1
        e["got"] = got_of(b.calls[0], a.calls[0])
    _, e["err"] = guarded(go)
    return [e]


def netsteps(scn):
    """whole fits with recording losses"""
    torch = torch_()
    from skorch.callbacks import Callback
    from skada.deep.base import (DeepDADataset, DomainAwareCriterion, DomainAwareModule, DomainAwareNet, DomainBalancedDataLoader,
                                 DomainOnlyDataLoader)
    Base, Adapt, Ident, Dom = parts()
    n = len(scn["D"])
    base = step_base(scn)
    torch.manual_seed(scn["seed"])
    i = np.arange(1, n + 1, dtype=np.float32)
    X, y, D = np.stack([i, i / 2], 1), np.array(scn["y"]), np.array(scn["D"])
    w = np.array(scn["w"], np.float32) if scn["w"] else None
    b, a = Base("none" if scn["vec"] else None, scn["B"]), Adapt(scn["A"])
    batches = []

    class Rec(Callback):
        def on_batch_begin(self, net, batch=None, training=None, **kw):
            batches.append(ids(batch[0]["X"]))
    kw = dict(iterator_train=DomainBalancedDataLoader)
    if scn["only"]:
        kw = dict(iterator_train=DomainOnlyDataLoader, iterator_train__domain_used=scn["only"])
    net = DomainAwareNet(DomainAwareModule, module__base_module=Ident(), module__layer_name="lay" if scn["hasfeat"] else None,
                         module__domain_classifier=Dom() if scn["hasdom"] and scn["hasfeat"] else None, criterion=DomainAwareCriterion,
                         criterion__base_criterion=b, criterion__adapt_criterion=a, criterion__reg=scn["reg"],
                         criterion__train_on_target=scn["ontarget"], criterion__reduction="none" if scn["vec"] else "mean",
                         batch_size=scn["b"], max_epochs=scn["epochs"], lr=0.0, train_split=None, verbose=0, callbacks=[Rec()], **kw)
    losses = []

    def go():
        if scn["input"] == "array":
            net.fit(X, y, sample_domain=D, sample_weight=w)
        elif scn["input"] == "dict":
            net.fit(dict(X=X, sample_domain=D, **({} if w is None else dict(sample_weight=w))), y)
        else:
            net.fit(DeepDADataset(X, y, D, w), None)
        for h in net.history:
            losses.extend(q["train_loss"] for q in h["batches"])
    _, err = guarded(go)
    base["hasdom"] = scn["hasdom"] and scn["hasfeat"]
    if err or not len(batches) == len(b.calls) == len(a.calls) == len(losses):
        return [dict(base, err=err or "NotRecorded")]
    out = []
    for bt, bc, ac, ls in zip(batches, b.calls, a.calls, losses):
        out.append(dict(base, batch=bt, got=got_of(bc, ac), total=fx(ls, 1000)))
    return out


def baseline(scn):
    """the public nets trained on one side only: what their loss is given and that it is all there is"""
    torch = torch_()
    from skorch.callbacks import Callback
    from skada.deep import SourceOnly, TargetOnly
    from skada.deep.base import DeepDADataset
    Base, _, Ident, _ = parts()
    n = len(scn["D"])
    e = dict(ev="baseline", side=scn["side"], D=scn["D"], y=scn["y"], value=scn["B"], batches=[], total=[], err="")
    torch.manual_seed(scn["seed"])
    i = np.arange(1, n + 1, dtype=np.float32)
    X, y, D = np.stack([i, i / 2], 1), np.array(scn["y"]), np.array(scn["D"])
    b, rows = Base(None, scn["B"]), []

    class Rec(Callback):
        def on_batch_begin(self, net, batch=None, training=None, **kw):
            rows.append(ids(batch[0]["X"]))

    def go():
        net = dict(source=SourceOnly, target=TargetOnly)[scn["side"]](
            Ident(), layer_name="lay" if scn["hasfeat"] else None, base_criterion=b, batch_size=scn["b"], max_epochs=scn["epochs"], lr=0.0,
            train_split=None, verbose=0, callbacks=[Rec()])
        if scn["input"] == "array":
            net.fit(X, y, sample_domain=D)
        elif scn["input"] == "dict":
            net.fit(dict(X=X, sample_domain=D), y)
        else:
            net.fit(DeepDADataset(X, y, D), None)
        e["total"] = [fx(q["train_loss"], 1000) for h in net.history for q in h["batches"]]
        assert len(rows) == len(b.calls)
        e["batches"] = [dict(batch=r, base=ids(c[0]), basey=fxl(c[1])) for r, c in zip(rows, b.calls)]
    _, e["err"] = guarded(go)
    return [e]


# ------------------------------------------------------------------ two runs
def toy(n, seed, targets=(-2,), zero=False):
    rng = np.random.RandomState(seed)
    X = rng.randn(n, 2).astype(np.float32)
    y = np.arange(n) % 3
    d = np.array([(0 if zero else 1) if i % 2 == 0 else targets[(i // 2) % len(targets)] for i in range(n)])
    p = rng.permutation(n)
    X[:, 0] += y
    return X[p], y[p], d[p]


def params_of(net):
    net = getattr(net, "base_estimator_", net)
    return digest(*[v for k, v in sorted(net.module_.state_dict().items())])


def one_fit(scn, y, seed):
    torch = torch_()
    X, _, d = toy(scn["n"], scn["seed"], targets=scn["targets"], zero=scn["zero"])
    net = make_net(scn["net"], seed, **scn.get("kw", {}))
    torch.manual_seed(seed)
    np.random.seed(seed % 1000)
    dig = digest(X, y, d)
    if scn["layout"] == "pipe":
        from sklearn.preprocessing import StandardScaler
        from skada import make_da_pipeline
        net.set_params(device="cpu")
        pipe = make_da_pipeline(StandardScaler(), net)
        pipe.fit(X, y, sample_domain=d)
        inner = pipe[-1].base_estimator_
        pred = pipe.predict(X[d < 0], sample_domain=d[d < 0])
    else:
        inner = net
        if scn["layout"] == "dataset":
            from skada.deep.base import DeepDADataset
            net.fit(DeepDADataset(X, y, d), None)
        else:
            net.fit(X, y, sample_domain=d)
        pred = net.predict(X, sample_domain=d, allow_source=True)
    losses = [fx(q["train_loss"], 100000) for h in inner.history for q in h["batches"]]
    seeds = torch.initial_seed() == seed
    return losses, params_of(inner), digest(pred), seeds, dig != digest(X, y, d)


def pair(scn):
    e = dict(ev="pair", what=scn["what"], net=scn["net"], layout=scn["layout"], la=[], lb=[], pa=0, pb=0, qa=0, qb=0, seeds=True, caller=False)

    def go():
        _, y, d = toy(scn["n"], scn["seed"], targets=scn["targets"], zero=scn["zero"])
        rng = np.random.RandomState(scn["seed"] + 1)
        if scn["what"] == "leak":
            ya = np.where(d < 0, -1, y)
            yb = np.where(d < 0, rng.randint(0, 3, len(y)), y)
        else:
            ya = yb = y if scn["net"] == "target" else np.where(d < 0, -1, y)
        e["la"], e["pa"], e["qa"], s1, c1 = one_fit(scn, ya, scn["tseed"])
        e["lb"], e["pb"], e["qb"], s2, c2 = one_fit(scn, yb.copy(), scn["tseed"])
        e["seeds"], e["caller"] = s1 and s2, c1 or c2
    _, e["err"] = guarded(go, 90)
    return [e]


# ------------------------------------------------------------------ C27
def epochs(scn):
    torch = torch_()
    from skorch.callbacks import Callback
    X, y, d = toy(scn["n"], scn["seed"])
    y = np.where(d < 0, -1, y)
    seen = []

    class Rec(Callback):
        def on_batch_begin(self, net, batch=None, training=None, **kw):
            c = net.criterion_.adapt_criterion
            seen.append((net.history[-1]["epoch"] if False else len(net.history), c.n_epochs, fx(c._scheduler_nap(), 10000), fx(c._scheduler_adv(), 10000)))
    rec = Rec()
    cbs = [rec]
    nets, past, out = {}, {}, []
    for k, o in enumerate(scn["ops"]):
        e = dict(ev="epochs", seen=[], nap=[], adv=[], max=1, epochs=o.get("m", 1), past=[], caller=False)

        def go():
            if o["op"] == "new":
                nets[o["o"]] = make_net("spa", scn["tseed"], callbacks=cbs if scn["shared"] else [rec], max_epochs=o["max"])
                past[o["o"]] = []
                return None
            if o["op"] == "clone":
                from sklearn.base import clone
                nets[o["o"]] = clone(nets[o["a"]])
                past[o["o"]] = list(past[o["a"]])
                return None
            net = nets[o["o"]]
            if o["op"] == "set":
                net.set_params(max_epochs=o["m"])
                return None
            del seen[:]
            torch.manual_seed(scn["tseed"] + k)
            net.fit(X, y, sample_domain=d)
            return net
        r, e["err"] = guarded(go, 90)
        e["caller"] = len(cbs) != 1
        if o["op"] != "fit" and not e["err"]:
            if not e["caller"]:
                continue
            e.update(seen=[[1, 1]], epochs=1)
            out.append(e)
            break
        if e["err"]:
            out.append(e)
            break
        e["epochs"] = r.max_epochs
        e["max"] = r.criterion_.adapt_criterion.max_epochs
        e["seen"] = [[s[0], s[1]] for s in seen]
        e["nap"] = [s[2] for s in seen]
        e["adv"] = [s[3] for s in seen]
        e["past"] = past[o["o"]][:60]
        past[o["o"]] = past[o["o"]] + [[s[0], e["max"], s[3]] for s in seen]
        out.append(e)
    return out


def bank(scn):
    torch = torch_()
    import torch.nn.functional as F
    from skorch.callbacks import Callback
    from skorch.helper import predefined_split
    from skada.deep.base import DeepDADataset
    from skada.deep.callbacks import MemoryBank
    X, y, d = toy(scn["n"], scn["seed"], targets=scn["targets"])
    y = np.where(d < 0, -1, y)
    key = {tuple(np.round(r, 5).tolist()): i + 1 for i, r in enumerate(X)}
    cur, batches, first = {}, [], []

    def snap(net):
        c = net.criterion_.adapt_criterion
        return [fxl(np.concatenate([f, o]), 10000) for f, o in zip(c.memory_features.numpy(), c.memory_outputs.numpy())]

    class Rec(Callback):
        def close(self, net):
            if cur:
                cur["after"] = snap(net)
                batches.append(dict(cur))
                cur.clear()

        def on_batch_begin(self, net, batch=None, training=None, **kw):
            self.close(net)
            if not first:
                first.extend(snap(net))

        def on_epoch_end(self, net, **kw):
            self.close(net)

        def on_batch_end(self, net, batch=None, training=None, **kw):
            Xb, _ = batch
            t = np.asarray(Xb["sample_domain"]) < 0
            cur.update(train=bool(training), before=snap(net), ids=[], new=[])
            if training:
                mode = net.module_.training   # put back: nothing here may help the bank
                net.module_.eval()
                with torch.no_grad():
                    o, f = net.module_(Xb["X"][t], return_features=True)
                net.module_.train(mode)
                f = F.normalize(f, p=2, dim=1).numpy()
                p = F.softmax(o, dim=1) ** 2
                p = (p / p.sum(dim=0)).numpy()
                new = {}
                for r, a, q in zip(Xb["X"][t].numpy(), f, p):
                    new[key[tuple(np.round(r, 5).tolist())]] = fxl(np.concatenate([a, q]), 10000)
                cur.update(ids=list(new), new=list(new.values()))
    e = dict(ev="bank", batches=[], first=[], m=scn["m"], den=4, ntarget=int((d < 0).sum()), size=0, nf=6)

    def go():
        from skada.deep import SPA
        from skada.deep.modules import ToyModule2D
        torch.manual_seed(scn["tseed"])
        kw = {}
        if scn["valid"]:
            # every validation batch holds two samples of each side
            Xv, yv, _ = toy(16, scn["seed"] + 5)
            dv = np.array([1, -2] * 8)
            kw = dict(train_split=predefined_split(DeepDADataset(Xv, np.where(dv < 0, 0, yv), dv)), iterator_valid__batch_size=4)
        net = SPA(ToyModule2D(n_classes=3, num_features=6, proba=False), layer_name=scn["layer"], num_features=6,
                  callbacks=[Rec()], max_epochs=2, batch_size=scn["b"], verbose=0, lr=0.1, **(kw or dict(train_split=None)))
        for c in net.callbacks:
            if isinstance(c, MemoryBank):
                c.momentum = scn["m"] / 4
        if scn["unusual"]:
            net.fit(DeepDADataset(X, y, d), None)
        else:
            net.fit(X, y, sample_domain=d)
        e["size"] = len(net.criterion_.adapt_criterion.memory_features)
    _, e["err"] = guarded(go, 90)
    e["batches"], e["first"] = batches, first
    return [e]


def centroids(scn):
    torch = torch_()
    import torch.nn.functional as F
    from skorch.callbacks import Callback
    X, y, d = toy(scn["n"], scn["seed"], targets=scn["targets"], zero=scn["zero"])
    out = []

    class Rec(Callback):
        def on_epoch_begin(self, net, **kw):
            self.first = True

        def on_batch_begin(self, net, batch=None, training=None, **kw):
            if not self.first:
                return
            self.first = False
            km = net.criterion_.adapt_criterion.target_kmeans
            net.module_.eval()
            with torch.no_grad():
                _, fs = net.module_(torch.as_tensor(X[d >= 0]), return_features=True)
                _, ft = net.module_(torch.as_tensor(X[d < 0]), return_features=True)
                ft = F.normalize(ft, p=2, dim=1)
                c = F.normalize(km.cluster_centers_, p=2, dim=1)
            out.append(dict(ev="centroids", err="", ncl=3, init=[fxl(r, 10000) for r in km.initial_centroids.numpy()],
                            fs=[fxl(r, 10000) for r in F.normalize(fs, p=2, dim=1).numpy()], y=[int(v) for v in y[d >= 0]],
                            lab=fxl(km.predict(ft)), sim=[fxl(r, 10000) for r in (ft @ c.T).numpy()]))

    def go():
        torch.manual_seed(scn["tseed"])
        from skada.deep import CAN
        from skada.deep.modules import ToyModule2D
        net = CAN(ToyModule2D(n_classes=3, num_features=6, proba=False), layer_name="dense0", callbacks=Rec(), max_epochs=2, batch_size=scn["b"],
                  verbose=0, lr=0.1, train_split=None)
        net.fit(X, np.where(d < 0, -1, y), sample_domain=d)
    _, err = guarded(go, 90)
    if err:
        out.append(dict(ev="centroids", err=err, ncl=0, init=[], fs=[], y=[], lab=[], sim=[]))
    return out


def execute(scn):
    return dict(crit=crit, net=netsteps, pair=pair, baseline=baseline, epochs=epochs, bank=bank, centroids=centroids)[scn["ev"]](scn)


# ------------------------------------------------------------------ scenarios
def corrupt(s, ev):
    ev = [dict(e) for e in ev]
    e = ev[0]
    if e["ev"] == "step":
        e["got"] = dict(e["got"])
        if not e["got"]["ps"]:
            return None
        e["got"]["ps"] = e["got"]["ps"][1:] + [99]
    elif e["ev"] == "baseline":
        e["total"] = [v + 1 for v in e["total"]]
    elif e["ev"] == "pair":
        e["lb"] = [v + 1 for v in e["lb"]]
    elif e["ev"] == "epochs":
        e["seen"] = [[a, b + 1] for a, b in e["seen"]]
    elif e["ev"] == "bank":
        if not e["batches"] or not e["batches"][0]["ids"]:
            return None
        b = dict(e["batches"][0])
        b["after"] = b["before"]
        e["batches"] = [b] + e["batches"][1:]
    else:
        e["ncl"] += 1
    return ev


def step_scn(rng, ev, D=None):
    n = len(D) if D else rng.randint(4, 14)
    D = list(D) if D else [rng.choice([0, 1, 2, -1, -2]) for _ in range(n)]
    vec = rng.random() < 0.5
    s = dict(ev=ev, D=D, y=[rng.choice([0, 1, 2]) if v >= 0 else rng.choice([-1, 0, 1, 2]) for v in D], ontarget=rng.random() < 0.35,
             reg=rng.randint(-2, 3), A=rng.randint(-5, 9), B=rng.randint(1, 9), vec=vec, hasdom=rng.random() < 0.6, hasfeat=rng.random() < 0.7,
             hasidx=rng.random() < 0.8, w=[], seed=rng.randint(0, 10**6))
    if ev == "net":
        D[0], D[1] = rng.choice([0, 1]), -1
        s.update(b=rng.randint(1, 4), epochs=rng.randint(1, 2), input=rng.choice(["array", "dict", "dataset"]), only="")
        if rng.random() < 0.2:
            s.update(only="target" if s["ontarget"] else "source")
        # the smallest side fills a batch
        s["b"] = min(s["b"], sum(v >= 0 for v in D), sum(v < 0 for v in D))
        s["y"] = [rng.choice([0, 1, 2]) if v >= 0 else rng.choice([-1, 0, 1, 2]) for v in D]
        if vec and rng.random() < 0.7:
            s["w"] = [rng.randint(1, 8) for _ in D]
    return s


def check(chk):
    rng = random.Random(chk.seed * 1000 + 25)
    chk.mc("MC_DeepTrain.tla", "MC_DeepTrain_T.cfg" if chk.thorough else "MC_DeepTrain.cfg", workers=8, must_cover=["Begin", "EpochOn", "Batch"])
    scns = []
    if chk.prop == "C25":
        import itertools
        chk.mc_refuted("MC_DeepTrain.tla", "MC_DeepTrain_BadLeak.cfg")
        for n in range(1, chk.pick(3, 5) + 1):
            scns += [step_scn(rng, "crit", D) for D in itertools.product((0, 1, -1, -2), repeat=n)]
        scns += [step_scn(rng, "crit") for _ in range(chk.pick(200, 3000))]
        scns += [step_scn(rng, "net") for _ in range(chk.pick(220, 3000))]
        for _ in range(chk.pick(60, 600)):
            scns.append(dict(step_scn(rng, "net"), ev="baseline", side=rng.choice(["source", "target"])))
        for k in KINDS:
            for lay in ("net", "dataset", "pipe"):
                for _ in range(chk.pick(1, 6)):
                    scns.append(dict(ev="pair", what="leak", net=k, layout=lay, n=rng.choice([26, 30, 36]), seed=rng.randint(0, 10**5), tseed=rng.randint(0, 10**5),
                                     targets=rng.choice([[-2], [-2], [-1, -3]]), zero=rng.random() < 0.3))
    else:
        chk.mc_refuted("MC_DeepTrain.tla", "MC_DeepTrain_BadReset.cfg")
        for k in KINDS + ("target",):
            for lay in ("net", "pipe") if k != "target" else ("net",):
                for _ in range(chk.pick(1, 6)):
                    scns.append(dict(ev="pair", what="repeat", net=k, layout=lay, n=rng.choice([26, 30, 36]), seed=rng.randint(0, 10**5), tseed=rng.randint(0, 10**5),
                                     targets=rng.choice([[-2], [-2], [-1, -3]]), zero=rng.random() < 0.3))
        for _ in range(chk.pick(40, 400)):
            ops = [dict(op="new", o=1, max=rng.randint(1, 3))]
            for _ in range(rng.randint(2, 4)):
                ops.append(rng.choice([dict(op="fit", o=1), dict(op="fit", o=1), dict(op="new", o=2, max=rng.randint(1, 3)), dict(op="clone", o=2, a=1),
                                       dict(op="set", o=1, m=rng.randint(1, 4))]))
                if ops[-1]["op"] in ("new", "clone"):
                    ops.append(dict(op="fit", o=2))
            ops.append(dict(op="fit", o=1))
            scns.append(dict(ev="epochs", ops=ops, n=rng.choice([24, 28]), seed=rng.randint(0, 10**5), tseed=rng.randint(0, 10**5), shared=rng.random() < 0.6))
        for _ in range(chk.pick(40, 300)):
            scns.append(dict(ev="bank", layer=rng.choice(["dense0", "dropout"]), n=rng.choice([24, 30]), b=rng.choice([3, 4, 5]), m=rng.randint(1, 3), valid=rng.random() < 0.4, unusual=rng.random() < 0.3,
                             targets=rng.choice([[-2], [-2], [-1, -3], [-3, -1, -2]]), seed=rng.randint(0, 10**5), tseed=rng.randint(0, 10**5)))
        for _ in range(chk.pick(16, 150)):
            scns.append(dict(ev="centroids", n=rng.choice([24, 30, 36]), b=rng.choice([3, 4, 5]), targets=rng.choice([[-2], [-1, -3]]), zero=rng.random() < 0.4,
                             seed=rng.randint(0, 10**5), tseed=rng.randint(0, 10**5)))
    chk.judge("TraceDeepTrain.tla", chk.execute(execute, scns, chunk=4), corrupt=corrupt)

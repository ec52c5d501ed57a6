"""C40: deep nets that are trained, copied, cloned, pickled and asked again."""
import copy
import pickle
import random

import numpy as np
import torch

from .core import digest, guarded

ASSUMPTIONS = ["one thread, torch's global seed set before every training", "modules without arguments when handed over as a class"]


def trace_module(scn):
    return "TraceNetCopies.tla"


class Plain(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.body = torch.nn.Linear(2, 6)
        self.drop = torch.nn.Dropout(0.4)
        self.head = torch.nn.Linear(6, 3)

    def forward(self, X, sample_weight=None):
        return self.head(self.drop(torch.relu(self.body(X))))


class Normed(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.body = torch.nn.Linear(2, 6)
        self.norm = torch.nn.BatchNorm1d(6)
        self.drop = torch.nn.Dropout(0.4)
        self.head = torch.nn.Linear(6, 3)

    def forward(self, X, sample_weight=None):
        return self.head(self.drop(torch.relu(self.norm(self.body(X)))))


MODULES = dict(plain=Plain, normed=Normed)
CARRY = {"dann", "cdan", "cdanlow", "mdd", "spa"}
BUILT = ["coral", "dan", "jdot", "mcc", "dann"]
METHODS = ["coral", "dan", "dann", "cdan", "cdanlow", "jdot", "mcc", "mdd", "spa", "can", "source", "target"]


def make(scn):
    from skada import deep as D
    from skada.deep.base import DomainAwareCriterion, DomainAwareModule, DomainAwareNet, DomainBalancedDataLoader
    from skada.deep.modules import DomainClassifier
    kw = dict(layer_name=scn["layer"], batch_size=8, max_epochs=scn["epochs"], train_split=None, verbose=0, lr=.1)
    torch.manual_seed(scn["seed"])
    m = MODULES[scn["module"]]
    m = m() if scn["given"] != "class" else m
    if scn["given"] == "built":
        # the domain-aware module is put together by the user
        from torch.nn import CrossEntropyLoss
        loss = dict(coral=D.DeepCoralLoss, dan=D.DANLoss, jdot=D.DeepJDOTLoss, mcc=D.MCCLoss, dann=D.DANNLoss)[scn["method"]]()
        dom = DomainClassifier(num_features=6) if scn["method"] == "dann" else None
        kw.pop("layer_name")
        return DomainAwareNet(DomainAwareModule(m, scn["layer"], domain_classifier=dom), iterator_train=DomainBalancedDataLoader,
                                criterion=DomainAwareCriterion, criterion__base_criterion=CrossEntropyLoss(), criterion__adapt_criterion=loss, **kw)
    return dict(coral=lambda: D.DeepCoral(m, reg=1, **kw), dan=lambda: D.DAN(m, reg=1, **kw), dann=lambda: D.DANN(m, reg=1, num_features=6, **kw),
                cdan=lambda: D.CDAN(m, reg=1, num_features=6, n_classes=3, **kw), cdanlow=lambda: D.CDAN(m, reg=1, num_features=6, n_classes=3, max_features=7, **kw),
                jdot=lambda: D.DeepJDOT(m, **kw), mcc=lambda: D.MCC(m, reg=1, **kw), mdd=lambda: D.MDD(m, reg=1, num_features=6, n_classes=3, gamma=2., **kw),
                spa=lambda: D.SPA(m, num_features=6, **kw), can=lambda: D.CAN(m, reg=1, **kw), source=lambda: D.SourceOnly(m, **kw),
                target=lambda: D.TargetOnly(m, **kw))[scn["method"]]()


def data(s, method):
    rng = np.random.RandomState(50 + s)
    ns, nt = [(20, 17), (16, 23)][s - 1]
    doms = [[1, -2], [1, 3, -2, -4]][s - 1]
    D = np.array([[d for d in doms if d > 0][i % (len(doms) // 2)] for i in range(ns)] + [[d for d in doms if d < 0][i % (len(doms) // 2)] for i in range(nt)])
    yt = np.arange(ns + nt) % 3
    X = (rng.randn(ns + nt, 2) + yt[:, None] + (D < 0)[:, None] * .5).astype(np.float32)
    p = rng.permutation(ns + nt)
    X, yt, D = X[p], yt[p], D[p]
    y = yt.copy() if method == "target" else np.where(D < 0, -1, yt)
    return X, y, D, yt


def base_of(net, given):
    if getattr(net, "initialized_", False):
        return net.module_.base_module_
    return net.module__base_module if given == "instance" else net.module.base_module_ if given == "built" else None


def execute(scn):
    from sklearn.base import clone
    from sklearn.model_selection import cross_validate
    from skada import metrics as M
    from skada.model_selection import DomainShuffleSplit
    torch.set_num_threads(1)
    nets, numbers = {}, {}
    sets = {s: data(s, scn["method"]) for s in (1, 2)}
    before = digest(*[a for s in sets.values() for a in s])
    e = dict(ev="nets", method=scn["method"], given="class" if scn["given"] == "class" else "instance", how=scn["given"], carry=scn["method"] in CARRY, ops=[], wts=[], ans=[], errs=[], changed=False)
    X, y, D, yt = sets[1]

    def number(kind, *arrays):
        return numbers.setdefault((kind, digest(*[np.ascontiguousarray(a) for a in arrays])), len(numbers) + 1)

    def weights(net):
        b = base_of(net, scn["given"])
        return 0 if b is None else number("w", *[v.detach().numpy() for v in b.state_dict().values()])

    def seed(s):
        torch.manual_seed(1000 + s)
        np.random.seed(1000 + s)

    def go(a):
        n = nets.get(a["i"])
        if a["op"] == "new":
            nets[a["i"]] = make(scn)
        elif a["op"] == "train":
            n.warm_start = a["warm"]
            seed(a["s"])
            A, b, d, _ = sets[a["s"]]
            n.fit(A, b, sample_domain=d)
        elif a["op"] == "set":
            n.set_params(criterion__reg=[1, .25][a["s"]], lr=[.1, .03][a["s"]])
        elif a["op"] == "clone":
            nets[a["j"]] = clone(n)
        elif a["op"] == "copy":
            nets[a["j"]] = copy.deepcopy(n)
        elif a["op"] == "pickle":
            nets[a["j"]] = pickle.loads(pickle.dumps(n))
        elif a["op"] == "proba":
            return number("p", n.predict_proba(X, sample_domain=D, allow_source=True), n.predict(X, sample_domain=D, allow_source=True))
        elif a["op"] == "features":
            seed(a["s"])
            return number("f", n.predict_features(X))
        elif a["op"] == "infer":
            # what a user may do with a net in between (a forward pass in training mode moves running averages)
            n.module_.train(scn["module"] == "plain")
            n.infer(torch.as_tensor(X)) if a["s"] == 1 else n.module_.train()
        elif a["op"] == "score":
            kind = scn["scorer"]
            if kind == "own":
                v = n.score(X, yt, sample_domain=D)
            else:
                sc = dict(mano=lambda: M.MaNoScorer(threshold=-1), taylor=lambda: M.MaNoScorer(threshold=1e9), entropy=M.PredictionEntropyScorer,
                          snd=M.SoftNeighborhoodDensity, dev=lambda: M.DeepEmbeddedValidation(random_state=0), mixval=lambda: M.MixValScorer(random_state=0),
                          supervised=M.SupervisedScorer, iw=M.ImportanceWeightedScorer)[kind]()
                v = sc(n, X, y if kind != "supervised" else yt, sample_domain=D, **(dict(target_labels=yt) if kind == "supervised" else {}))
            return number("s", np.array(float(v)))
        elif a["op"] == "cv":
            seed(a["s"])
            r = cross_validate(n, X, y, params=dict(sample_domain=D), cv=DomainShuffleSplit(n_splits=2, test_size=.4, random_state=0),
                               scoring=M.PredictionEntropyScorer(), error_score="raise")
            return number("c", r["test_score"])
        return 0
    for a in scn["ops"]:
        v, err = guarded(lambda: go(a), 60)
        e["ops"].append(a)
        e["errs"].append(err or "")
        e["ans"].append(v or 0)
        e["wts"].append([weights(nets[i]) if i in nets and not err else 0 for i in (1, 2, 3)])
        if err:
            break
    e["changed"] = before != digest(*[a for s in sets.values() for a in s])
    return [e]


SCORERS = ["own", "mano", "mano", "taylor", "entropy", "snd", "dev", "mixval", "supervised", "iw"]


def setup(rng):
    given = rng.choice(["instance", "instance", "class", "class", "built"])
    return dict(ev="nets", method=rng.choice(BUILT if given == "built" else METHODS), given=given, module=rng.choice(["plain", "normed"]),
                layer=rng.choice(["body", "drop"]), epochs=rng.randint(1, 2), seed=rng.randint(0, 99), scorer=rng.choice(SCORERS))


def op(o, i, j=0, s=1, warm=False):
    return dict(op=o, i=i, j=j, s=s, warm=warm)


def walk(rng, n):
    """A history over three nets."""
    alive, ready, ops = {1}, set(), [op("new", 1)]
    while len(ops) < n:
        i = rng.choice(sorted(alive))
        k = rng.choices(["new", "train", "set", "clone", "copy", "pickle", "proba", "features", "infer", "score", "cv"], [2, 8, 1, 3, 2, 2, 3, 3, 1, 3, .5])[0]
        if k == "new":
            if len(alive) == 3:
                continue
            i = min({1, 2, 3} - alive)
            alive.add(i)
            ops.append(op("new", i))
        elif k == "train":
            ops.append(op(k, i, s=rng.randint(1, 2), warm=rng.random() < .3))
            ready.add(i)
        elif k == "set":
            ops.append(op(k, i, s=rng.randint(0, 1)))
        elif k in ("clone", "copy", "pickle"):
            j = rng.choice([v for v in (1, 2, 3) if v != i])
            ops.append(op(k, i, j))
            alive.add(j)
            ready.discard(j)
            if k != "clone" and i in ready:
                ready.add(j)
        elif k == "features":
            ops.append(op(k, i))
            ready.add(i)
        elif k == "cv":
            ops.append(op(k, i))
        elif i in ready:
            ops.append(op(k, i, s=rng.randint(1, 2) if k == "infer" else 1))
    for i in sorted(ready):
        ops += [op("proba", i), op("features", i), op("score", i)]
    return ops


def scenario(rng, hist=None):
    s = setup(rng)
    if hist is None:
        s["ops"] = walk(rng, rng.randint(4, 9))
    else:
        ready = set()
        for a in hist:
            if a["op"] in ("train", "features"):
                ready.add(a["i"])
            elif a["op"] == "clone":
                ready.discard(a["j"])
            elif a["op"] in ("copy", "pickle"):
                (ready.add if a["i"] in ready else ready.discard)(a["j"])
        s["ops"] = hist + [op(q, i) for i in sorted(ready) for q in ("proba", "features", "score")]
    if s["given"] == "built":
        # (a copy made by skorch holds `module` and `module_` as two objects)
        s["ops"] = [dict(a, warm=False) for a in s["ops"]]
    return s


def corrupt(s, ev):
    e = copy.deepcopy(ev[0])
    ks = [k for k, a in enumerate(e["ops"]) if a["op"] == "train"]
    if any(e["errs"]) or not ks:
        return None
    k = ks[0]
    e["wts"][k][e["ops"][k]["i"] - 1] = 0
    return [e]


def check(chk):
    rng = random.Random(chk.seed * 1000 + 40)
    for x in ("", "_C", "_D"):
        chk.mc("MC_NetCopies.tla", f"MC_NetCopies{x}{'_T' if chk.thorough else ''}.cfg", workers=8, must_cover=["Train", "Copy", "Wake", "Set"])
    for x in ("Shares", "Residue"):
        chk.mc_refuted("MC_NetCopies.tla", f"MC_NetCopies_Bad{x}.cfg")
    hists = chk.gen("GenNetCopies.tla", workers=1)
    k = chk.pick(350, 4000)
    scns = [scenario(rng, h) for h in rng.sample(hists, min(k, len(hists)))] + [scenario(rng) for _ in range(chk.pick(500, 6000))]
    chk.judge("TraceNetCopies.tla", chk.execute(execute, scns, chunk=8), corrupt=corrupt)

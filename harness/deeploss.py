"""C33: deep losses between a source and a target batch."""
import math
import random

import numpy as np

from .core import digest, fx, guarded

LN2 = math.log(2)
ASSUMPTIONS = ["CPU, float32", "exact values only where they are rational up to ln 2"]


def trace_module(scn):
    return "TraceDeepLoss.tla"


def torch_():
    import torch
    torch.set_num_threads(1)
    return torch


def T(a, dtype=None):
    torch = torch_()
    return torch.tensor(np.array(a), dtype=dtype or torch.float32)


def column(xs):
    return T([[x] for x in xs])


def kmeans_by_sign():
    from skada.deep.utils import SphericalKMeans
    km = SphericalKMeans(n_clusters=2)
    km.cluster_centers_ = T([[1.0], [-1.0]])
    km.inertia_, km.n_iter_ = 0.0, 1
    return km


def logits(k):
    """k[i][c] = -log2 of the probabilities"""
    return T([[-LN2 * v for v in r] for r in k])


def value(s):
    """the loss in the unit of the case"""
    torch = torch_()
    from skada.deep import losses as L
    from skada import deep as D
    from skada.deep import _adversarial as ADV, _class_confusion as CC, _divergence as DV, _optimal_transport as OTL
    g, obj = s["loss"], s["obj"]
    if g == "coral":
        X, Y = T(s["X"]), T(s["Y"])
        v = DV.DeepCoralLoss(assume_centered=s["raw"])(features_s=X, features_t=Y) if obj else L.deepcoral_loss(X, Y, s["raw"])
        n, m, d = len(s["X"]), len(s["Y"]), X.shape[1]
        return float(v) * 4 * d * d * (n * (n - 1) * m * (m - 1)) ** 2
    if g in ("dan", "cdd"):
        X, Y = column(s["X"]), column(s["Y"])
        sig = [1 / (r * LN2) for r in s["rates"]]
        if g == "dan":
            v = DV.DANLoss(sigmas=sig)(features_s=X, features_t=Y) if obj else L.dan_loss(X, Y, sigmas=sig)
        else:
            kw = dict(distance_threshold=.5, class_threshold=s["least"], sigmas=sig, target_kmeans=kmeans_by_sign())
            y = T(s["lab"], torch.int64)
            v = DV.CANLoss(**kw)(y, X, Y) if obj else L.cdd_loss(y, X, Y, **kw)
        return float(v) * s["scale"] * (2 if g == "cdd" else 1)   # two classes: halves
    if g == "jdot":
        X, Y, y = T(s["X"]), T(s["Y"]), T(s["lab"], torch.int64)
        ws, wt = s["ws"], s["wt"]
        tot = sum(ws)
        kw = dict(reg_dist=s["rd"])
        if s["ce"]:
            pred, kw["reg_cl"] = logits(s["pred"]), s["rc"] / LN2
        else:
            pred, kw["reg_cl"] = T(s["pred"]), s["rc"]

            def crit(p, yy):   # p: (n_t, classes, n_s), yy: (n_t, n_s)
                return torch.gather(p, 1, yy.unsqueeze(1)).squeeze(1)
        crit_ = None if s["ce"] else crit
        if obj and set(ws) == set(wt) == {1}:
            v = OTL.DeepJDOTLoss(target_criterion=crit_, **kw)(y, pred, X, Y)
        else:
            w = {} if set(ws) == set(wt) == {1} and s["bare"] else dict(sample_weights=T(ws) / tot, target_sample_weights=T(wt) / tot)
            v = L.deepjdot_loss(y, pred, X, Y, criterion=crit_, **kw, **w)
        return float(v) * tot * 100
    if g == "mcc":
        lo = np.full((len(s["rows"]), s["K"]), -60.0)
        for i, r in enumerate(s["rows"]):
            lo[i, [c - 1 for c in r]] = 1.0
        y = T(lo * s["T"])
        v = CC.MCCLoss(T=s["T"])(y_pred_t=y) if obj else L.mcc_loss(y, T=s["T"])
        return float(v) * s["K"] * 10000
    if g == "gda":
        return float(L.gda_loss(column(s["X"]), column(s["Y"]), metric="euc", laplac="laplac2")) * 1000
    if g == "nap":
        v = L.nap_loss(column(s["X"]), logits(s["k"]), column(s["bank"]), T(s["outs"]) / 8, T([i - 1 for i in s["out"]], torch.int64), K=s["K"])
        return float(v) / LN2 * 10000
    if g == "dann":
        a, b = 1 - 2.0 ** -np.array(s["a"], float), 2.0 ** -np.array(s["b"], float)
        ps, pt = T(a), T(b)
        if s["which"] == "spa":
            from skada.deep._graph_alignment import SPALoss
            f = SPALoss(max_epochs=1, reg_gsa=0, reg_nap=0, K=1, memory_features=column([0.0, 9.0]), memory_outputs=T([[1.0, 0.0], [1.0, 0.0]]))
            f.n_epochs = 50   # the schedule's end: factor 1
            v = f(y_pred_t=T(np.zeros((len(b), 2))), domain_pred_s=ps, domain_pred_t=pt, features_s=column(range(len(a))), features_t=column(range(len(b))),
                  sample_idx_t=T([0], torch.int64))
        elif s["which"] == "cdan":
            v = ADV.CDANLoss()(domain_pred_s=ps, domain_pred_t=pt, features_s=column(a), features_t=column(b))
        else:
            v = ADV.DANNLoss()(domain_pred_s=ps, domain_pred_t=pt)
        return float(v) / LN2 * 10000
    if g == "mdd":
        hot = lambda lab: T([[3.0 if c == v else 0.0 for c in range(s["C"])] for v in lab])
        v = ADV.MDDLoss(gamma=s["gamma"])(y_pred_s=hot(s["la"]), y_pred_t=hot(s["lb"]), domain_pred_s=logits(s["ka"]), domain_pred_t=logits(s["kb"]))
        return float(v) / LN2 * 4096
    raise KeyError(g)


DEFAULTS = dict(X=[], Y=[], lab=[], raw=False, rates=[], P=0, least=0, U=1, scale=0, pred=[], rd=0, rc=0, ws=[], wt=[], rows=[], K=0, bank=[], outs=[], out=[], k=[], a=[], b=[], C=2, gamma=0)


def exact(s):
    e = dict(ev="exact", loss=s["loss"], v=0, **{k: s.get(k, d) for k, d in DEFAULTS.items()})

    def go():
        e["v"] = fx(value(s))
    _, e["err"] = guarded(go, 60)
    return [e]


# ------------------------------------------------------------------ laws on real batches
def batch(s, seed=0):
    torch = torch_()
    rng = np.random.RandomState(s["rs"] + seed)
    n, m, d, K = s["n"], s["m"], s["d"], s["K"]
    b = dict(fs=rng.randn(n, d), ft=rng.randn(m, d) + s["gap"], y=np.concatenate([np.arange(K), rng.randint(0, K, max(n - K, 0))])[:n], ys=rng.randn(n, K), yt=rng.randn(m, K),
             ds=rng.uniform(.05, .95, n), dt=rng.uniform(.05, .95, m), qs=rng.randn(n, K), qt=rng.randn(m, K), idx=rng.permutation(m + 8)[:m])
    return {k: torch.tensor(v, dtype=torch.int64 if k in ("y", "idx") else torch.float32) for k, v in b.items()}


def bank(s):
    rng = np.random.RandomState(s["rs"] + 9)
    return T(rng.randn(s["m"] + 8, s["d"])), torch_().softmax(T(rng.randn(s["m"] + 8, s["K"])), 1)


def km(s):
    from skada.deep.utils import SphericalKMeans
    k = SphericalKMeans(n_clusters=s["K"])
    k.cluster_centers_ = T(np.random.RandomState(s["rs"] + 4).randn(s["K"], s["d"]))
    return k


def loss_of(s, b):
    from skada.deep import losses as L
    from skada.deep import _adversarial as ADV
    from skada.deep._graph_alignment import SPALoss
    g = s["loss"]
    if g == "coral":
        return L.deepcoral_loss(b["fs"], b["ft"], s["raw"])
    if g == "dan":
        return L.dan_loss(b["fs"], b["ft"], sigmas=s["sigmas"])
    if g == "cdd":
        return L.cdd_loss(b["y"], b["fs"], b["ft"], km(s), sigmas=s["sigmas"], class_threshold=s["least"], distance_threshold=s["far"])
    if g == "jdot":
        return L.deepjdot_loss(b["y"], b["yt"], b["fs"], b["ft"], s["rd"], s["rc"])
    if g == "mcc":
        return L.mcc_loss(b["yt"], T=s["T"])
    if g == "gda":
        return L.gda_loss(b["fs"], b["ft"], metric=s["metric"], laplac=s["laplac"])
    mem = bank(s)
    if g == "nap":
        return L.nap_loss(b["ft"], b["yt"], *mem, b["idx"], K=s["near"])
    if g == "dann":
        return ADV.DANNLoss(s.get("critic"))(b["ds"], b["dt"])
    if g == "cdan":
        return ADV.CDANLoss(s.get("critic"))(b["ds"], b["dt"], b["fs"], b["ft"])
    if g == "mdd":
        return ADV.MDDLoss(gamma=s["gamma"])(b["ys"], b["yt"], b["qs"], b["qt"])
    if g == "spa":
        f = SPALoss(max_epochs=s["epochs"], K=s["near"], memory_features=mem[0], memory_outputs=mem[1], domain_criterion=s.get("critic"), **s.get("regs", dict(reg_adv=1, reg_gsa=1, reg_nap=1)))
        f.n_epochs = s["at"]
        return f(y_pred_t=b["yt"], domain_pred_s=b["ds"], domain_pred_t=b["dt"], features_s=b["fs"], features_t=b["ft"], sample_idx_t=b["idx"])
    raise KeyError(g)


SRC, TGT = ("fs", "y", "ys", "ds", "qs"), ("ft", "yt", "dt", "qt", "idx")
NEEDS = dict(coral=(1, 1), dan=(1, 1), cdd=(1, 1), jdot=(1, 1), mcc=(0, 1), gda=(1, 1), nap=(0, 1), dann=(1, 1), cdan=(1, 1), mdd=(1, 1), spa=(1, 1))
LEAVES = dict(coral=("fs", "ft"), dan=("fs", "ft"), cdd=("fs", "ft"), jdot=("fs", "ft"), mcc=("fs", "yt"), gda=("fs", "ft"), nap=("fs", "yt"), dann=("ds", "dt"), cdan=("ds", "dt"), mdd=("qs", "qt"), spa=("fs", "ft"))


def law(s):
    torch = torch_()
    g = s["loss"]
    out = []

    def one(name, f):
        e = dict(ev="law", law=name, loss=g, a=0, b=0, tol=20)
        r, e["err"] = guarded(f, 60)
        e.update(r or {})
        out.append(e)
    val = lambda b: fx(float(loss_of(s, b)), 10000)
    b = batch(s)
    rng = np.random.RandomState(s["rs"] + 3)

    def order():
        p, q = torch.tensor(rng.permutation(s["n"])), torch.tensor(rng.permutation(s["m"]))
        return dict(a=val(b), b=val({k: v[p] if k in SRC else v[q] for k, v in b.items()}))
    one("order", order)

    def gradient():
        c = {k: v.clone() for k, v in b.items()}
        leaves = [c[k].requires_grad_() for k in LEAVES[g]]
        before = digest(*[v.detach().numpy() for v in c.values()])
        v = loss_of(s, c)
        if not torch.is_tensor(v):   # no class with enough rows
            return dict(needs=[False, False], got=[False, False], changed=False)
        v.backward()
        some = g != "cdd" or float(v) != 0
        return dict(needs=[bool(x) and some for x in NEEDS[g]], changed=before != digest(*[v.detach().numpy() for v in c.values()]),
                    got=[x.grad is not None and bool(torch.isfinite(x.grad).all()) and bool((x.grad != 0).any()) for x in leaves])
    one("gradient", gradient)
    same = dict(b, ft=b["fs"][torch.tensor(rng.permutation(s["n"]))])
    if g in ("coral", "dan", "gda"):
        one("zero", lambda: dict(a=val(same), tol=30))
        one("positive", lambda: dict(a=val(b), tol=5))
        if g != "dan" or s["sigmas"]:
            one("symmetric", lambda: dict(a=val(b), b=val(dict(b, fs=b["ft"], ft=b["fs"]))))
        if g != "coral" or not s["raw"]:
            one("moved", lambda: dict(a=val(b), b=val(dict(b, fs=b["fs"] + 2, ft=b["ft"] + (2 if g == "dan" else -1)))) if g != "gda" or s["metric"] != "cos" else dict(a=0, b=0))
        if g != "gda":
            one("apart", lambda: dict(a=fx(float(loss_of(s, dict(b, ft=3 * b["ft"] + 1))), 10**6)))
    if g == "jdot" and s["rc"] == 0:
        one("zero", lambda: dict(a=val(same), tol=30))
    if g == "jdot":
        def uniform():
            from skada.deep import losses as L
            w = torch.full((s["n"],), 1 / s["n"])
            return dict(a=val(b), b=fx(float(L.deepjdot_loss(b["y"], b["yt"], b["fs"], b["ft"], s["rd"], s["rc"], w, w.clone())), 10000))
        one("weights_one", uniform)
        one("positive", lambda: dict(a=val(b), tol=5))
    if g in ("mcc", "nap", "dann", "cdan"):
        one("positive", lambda: dict(a=val(b), tol=5))
    if g == "cdd":
        def discarded():
            # rows far from every centre in angle are left out: adding them changes nothing
            c = km(s).cluster_centers_
            x = torch.nn.functional.normalize(torch.tensor(rng.randn(400, s["d"]), dtype=torch.float32))
            near = (.5 * (1 - torch.nn.functional.cosine_similarity(x.unsqueeze(1), c.unsqueeze(0), dim=2).max(1)[0]))
            x = x[near > s["far"] + .02][:3]
            return dict(a=val(b), b=val(dict(b, ft=torch.cat([x, b["ft"]]))))
        one("discarded", discarded)
    if g == "spa":
        def parts():
            tot = 0.0
            for k in ("reg_adv", "reg_gsa", "reg_nap"):
                r = dict(reg_adv=0, reg_gsa=0, reg_nap=0)
                r[k] = 2
                tot += float(loss_of(dict(s, regs=r), b)) / 2
            return dict(a=val(b), b=fx(tot, 10000))
        one("parts", parts)
    return out


def built(s, reg, base, critic):
    """The method as its factory builds it, with every option given."""
    from skada import deep as D
    torch = torch_()
    net = torch.nn.Sequential()
    net.add_module("emb", torch.nn.Linear(2, s["d"]))
    net.add_module("head", torch.nn.Linear(s["d"], s["K"]))
    g, kw = s["loss"], dict(base_criterion=base)
    size = dict(num_features=s["d"])
    return dict(
        coral=lambda: D.DeepCoral(net, "emb", reg, assume_centered=s["raw"], **kw),
        dan=lambda: D.DAN(net, "emb", reg, sigmas=s["sigmas"], **kw),
        cdd=lambda: D.CAN(net, "emb", reg, distance_threshold=s["far"], class_threshold=s["least"], sigmas=s["sigmas"], **kw),
        jdot=lambda: D.DeepJDOT(net, "emb", reg_dist=s["rd"], reg_cl=s["rc"], **kw),
        mcc=lambda: D.MCC(net, "emb", reg, T=s["T"], **kw),
        dann=lambda: D.DANN(net, "emb", reg, domain_criterion=critic, **size, **kw),
        cdan=lambda: D.CDAN(net, "emb", reg, n_classes=s["K"], domain_criterion=critic, **size, **kw),
        mdd=lambda: D.MDD(net, "emb", reg, gamma=s["gamma"], n_classes=s["K"], **size, **kw),
        spa=lambda: D.SPA(net, "emb", max_epochs=s["epochs"], domain_criterion=critic, **s["regs"], **size, **kw),
    )[g]().initialize()


def option(s):
    """What a method minimises on a batch: the criterion of its rows with a known label, plus the weight it was given times the loss with the options it was given."""
    torch = torch_()
    e = dict(ev="option", loss=s["loss"], a=0, b=0)

    def go():
        s_ = dict(s, near=5)
        base = torch.nn.MultiMarginLoss() if s["base"] else None
        critic = torch.nn.MSELoss() if s["other"] and s["loss"] in ("dann", "cdan", "spa") else None
        s_["critic"] = critic
        f = built(s_, s["reg"], base, critic).criterion_
        g, b, A = s["loss"], batch(s), f.adapt_criterion
        if g == "cdd":
            A.target_kmeans = km(s)
        if g == "spa":
            A.memory_features, A.memory_outputs = bank(s)
            A.n_epochs = s["at"]
        order = torch.randperm(s["n"] + s["m"], generator=torch.Generator().manual_seed(s["rs"]))
        both = lambda u, v: torch.cat([u, v])[order]
        dom = both(torch.full((s["n"],), 1), torch.full((s["m"],), -2))
        crit = both(*(b[k] for k in (("qs", "qt") if g == "mdd" else ("ds", "dt")))) if g in ("mdd", "dann", "cdan", "spa") else None
        y = both(b["y"], torch.full((s["m"],), -1))
        src, tgt = order[order < s["n"]], order[order >= s["n"]] - s["n"]   # the order of each side in the batch
        got = f((both(b["ys"], b["yt"]), crit, both(b["fs"], b["ft"]), dom, both(torch.arange(s["n"]), b["idx"])), y)
        c = {k: v[src] if k in SRC else v[tgt] for k, v in b.items()}
        want = (base or torch.nn.CrossEntropyLoss())(c["ys"], c["y"]) + (s["reg"] if g not in ("jdot", "spa") else 1) * loss_of(s_, c)
        e.update(a=fx(float(got), 10000), b=fx(float(want), 10000))
    _, e["err"] = guarded(go, 60)
    return [e]


def condmap(s):
    """What the conditional method shows its domain classifier: every product of an output and a feature when there is room for them, else that many random mixtures of them."""
    torch = torch_()
    from skada.deep import CDAN
    n, d, K, room = s["n"], s["d"], s["K"], s["room"]
    e = dict(ev="condmap", d=d, K=K, room=room, y=[], f=[], got=[], again=[], alone=[], other=[], scale=1)

    class Recorder(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.w = torch.nn.Parameter(torch.zeros(1))

        def forward(self, x):
            self.x = x.detach().clone()
            return torch.sigmoid(x.sum(1) + self.w)

    class Base(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.emb, self.out = torch.nn.Identity(), torch.nn.Identity()

        def forward(self, x):
            self.emb(x[:, :d])
            return self.out(x[:, d:])

    def go():
        net = CDAN(Base(), "emb", max_features=room, domain_classifier=Recorder(), module__random_state=s["rs"] % 1000).initialize()
        m = net.module_
        m.train()
        rng = np.random.RandomState(s["rs"])
        f, y = rng.randint(-3, 4, (n, d)), rng.randint(-3, 4, (n, K))

        def show(f, y, noise=0):
            torch.manual_seed(noise)
            m(T(np.hstack([f, y])), is_fit=True)
            return [[fx(v, 10000) for v in r] for r in m.domain_classifier_.x.numpy()]
        e.update(f=f.tolist(), y=y.tolist(), got=show(f, y), again=show(f, y, 7), alone=show(f[:1], y[:1], 3), other=show(2 * f, -y, 5))
    _, e["err"] = guarded(go, 60)
    return [e]


def critic(s):
    """The domain classifier the networks use when none is given: what it says of a batch and what goes back through it."""
    torch = torch_()
    from skada import deep as D
    from skada.deep.modules import DomainClassifier
    e = dict(ev="critic", net=s["net"], K=s["K"], alpha=s["alpha"], outs=[], g=[], g0=[], base=True)
    n, d = s["n"], s["d"]
    x0 = torch.tensor(np.random.RandomState(s["rs"]).randn(n, d), dtype=torch.float32)

    def flow(m, f):
        torch.manual_seed(s["rs"])
        x = x0.clone().requires_grad_()
        out = f(m, x)
        w = torch.linspace(-1, 2, out.numel()).reshape(out.shape) ** 2
        (out * w).sum().backward()
        return out.detach().numpy().reshape(n, -1), x.grad.numpy()

    def go():
        torch.manual_seed(s["rs"])
        if s["net"] == "plain":
            m = DomainClassifier(d, n_classes=s["K"], alpha=s["alpha"])
            r = DomainClassifier(d, n_classes=s["K"], alpha=-1)
            r.load_state_dict(m.state_dict())
            (o, g), (_, g0) = flow(m, lambda k, x: k(x)), flow(r, lambda k, x: k(x))
            e.update(g=[fx(v, 10**5) for v in g.ravel()], g0=[fx(v, 10**5) for v in g0.ravel()])
        else:
            base = torch.nn.Sequential()
            base.add_module("emb", torch.nn.Linear(d, 3))
            base.add_module("head", torch.nn.Linear(3, 2))
            kw = dict(num_features=3, **(dict(n_classes=2) if s["net"] == "CDAN" else {}))
            m = getattr(D, s["net"])(base, "emb", **kw).initialize().module_
            m.train()
            y, o, f = m(x0, is_fit=True)[:3]
            o.sum().backward(retain_graph=True)
            got = [q.grad for q in m.base_module_.emb.parameters()]
            e["base"] = any(q is not None and bool((q != 0).any()) for q in got)
            o = o.detach().numpy().reshape(n, -1)
        e["outs"] = [[fx(v, 10**6) for v in r] for r in o]
    _, e["err"] = guarded(go, 60)
    return [e]


def refuse(s):
    torch = torch_()
    from skada import deep as D
    from skada.deep import losses as L
    x = torch.eye(3)
    net = torch.nn.Linear(3, 2)
    f = dict(
        cdd_without_clusters=lambda: L.cdd_loss(torch.tensor([0, 1, 1]), x, x, None),
        gda_metric=lambda: L.gda_loss(x, x, metric="other"),
        gda_laplacian=lambda: L.gda_loss(x, x, laplac="other"),
        dann_without_size=lambda: D.DANN(net, "x"),
        cdan_without_size=lambda: D.CDAN(net, "x", n_classes=2),
        cdan_without_classes=lambda: D.CDAN(net, "x", num_features=2),
        mdd_without_size=lambda: D.MDD(net, "x"),
        spa_without_size=lambda: D.SPA(net, "x"),
    )[s["what"]]
    _, err = guarded(f)
    return [dict(ev="refuse", what=s["what"], err=err)]


REFUSALS = ("cdd_without_clusters", "gda_metric", "gda_laplacian", "dann_without_size", "cdan_without_size", "cdan_without_classes", "mdd_without_size", "spa_without_size")


def execute(s):
    return dict(exact=exact, law=law, refuse=refuse, critic=critic, option=option, condmap=condmap)[s["ev"]](s)


# ------------------------------------------------------------------ scenarios
CODES = {2: [[1, 1]], 3: [[1, 2, 2]], 4: [[2, 2, 2, 2], [1, 2, 3, 3]]}


def code(rng, C):
    k = list(rng.choice(CODES[C]))
    rng.shuffle(k)
    return k


def exact_scn(rng, g):
    s = dict(ev="exact", loss=g, obj=rng.random() < .5)
    ints = lambda n, lo, hi: [rng.randint(lo, hi) for _ in range(n)]
    if g == "coral":
        d = rng.randint(1, 2)
        s.update(X=[ints(d, -1, 3) for _ in range(rng.randint(2, 4))], Y=[ints(d, -1, 3) for _ in range(rng.randint(2, 4))], raw=rng.random() < .4)
    elif g == "dan":
        n, m = rng.randint(1, 4), rng.randint(1, 4)
        rates, P = rng.choice([([1], 8), ([1, 2], 12), ([2], 12), ([1, 1, 2], 12)])
        top = P // max(rates)
        s.update(X=ints(n, 0, top), Y=ints(m, 0, top), rates=rates, P=P, scale=(n * m) ** 2 * 2 ** P)
    elif g == "cdd":
        s.update(X=[], lab=[], Y=[], rates=rng.choice([[1], [1, 1]]), P=8, least=rng.randint(1, 3))
        while len(set(s["lab"])) < 2:
            s["lab"] = ints(rng.randint(3, 6), 0, 1)
        if max(s["lab"].count(0), s["lab"].count(1)) > 4:
            s["lab"] = [0, 1, 1, 0]
        if rng.random() < .6:
            s["X"] = ints(len(s["lab"]), -4, 4)
        else:
            s["X"] = [rng.randint(1, 4) * (1 if v == 0 else -1) for v in s["lab"]]
        pos, neg = ints(rng.randint(0, 4), 1, 4), ints(rng.randint(0, 4), -4, -1)
        s["Y"] = pos + neg or [1, 2, -1]
        rng.shuffle(s["Y"])
        s.update(U=20736, scale=20736 * 256)
    elif g == "jdot":
        n, C = rng.randint(1, 4), rng.choice([2, 3])
        s.update(X=[ints(2, -2, 3) for _ in range(n)], Y=[ints(2, -2, 3) for _ in range(n)], lab=ints(n, 0, C - 1), rd=rng.randint(0, 3), rc=rng.randint(0, 4), ce=rng.random() < .5, bare=rng.random() < .5)
        s["pred"] = [code(rng, C) for _ in range(n)] if s["ce"] else [ints(C, 0, 6) for _ in range(n)]
        s["ws"] = s["wt"] = [1] * n
        if rng.random() < .4 and n > 1:
            tot = rng.randint(n, 5)

            def split():
                w = [1] * n
                for _ in range(tot - n):
                    w[rng.randrange(n)] += 1
                return w
            s["ws"], s["wt"] = split(), split()
    elif g == "mcc":
        K = rng.randint(2, 4)
        rows = [[c] for c in range(1, K + 1)] if rng.random() < .3 else [sorted(rng.sample(range(1, K + 1), rng.randint(1, K))) for _ in range(rng.randint(2, 6))]
        miss = [c for c in range(1, K + 1) if not any(c in r for r in rows)]
        if miss:
            rows.append(miss)
        rng.shuffle(rows)
        s.update(rows=rows, K=K, T=rng.choice([1, 2, .5]))
    elif g == "gda":
        s.update(X=ints(2, -5, 5), Y=ints(2, -5, 5))
    elif g == "nap":
        K, C, n = rng.randint(1, 3), rng.choice([2, 3]), rng.randint(1, 3)
        N = n + K + rng.randint(0, 3)

        def out():
            w = [0] * C
            for _ in range(8):
                w[rng.randrange(C)] += 1
            return w
        s.update(X=ints(n, -20, 20), bank=rng.sample(range(-40, 40), N), outs=[out() for _ in range(N)], out=rng.sample(range(1, N + 1), n), k=[code(rng, C) for _ in range(n)], K=K)
    elif g == "dann":
        n, which = rng.randint(1, 5), rng.choice(["dann", "cdan", "spa"])
        m = n if which == "spa" else rng.randint(1, 5)
        if which == "spa":
            n = m = max(n, 2)
        s.update(a=ints(n, 1, 6), b=ints(m, 1, 6), which=which)
    elif g == "mdd":
        C, n, m = rng.choice([2, 3, 4]), rng.randint(1, 5), rng.randint(1, 5)
        s.update(C=C, la=ints(n, 0, C - 1), lb=ints(m, 0, C - 1), ka=[code(rng, C) for _ in range(n)], kb=[code(rng, C) for _ in range(m)], gamma=rng.randint(1, 4))
        s["a"], s["b"] = [k[v] for k, v in zip(s["ka"], s["la"])], [k[v] for k, v in zip(s["kb"], s["lb"])]
    return s


def law_scn(rng, g):
    K = rng.randint(2, 4)
    n = rng.randint(max(K, 3), 9)
    m = n if g in ("jdot", "gda", "spa") else rng.randint(max(K, 3), 9)
    return dict(ev="law", loss=g, rs=rng.randint(0, 10**6), n=n, m=m, d=rng.randint(2, 4), K=K, gap=rng.choice([0, .5, 2]), raw=rng.random() < .4, sigmas=rng.choice([None, [1.0], [.5, 2.0]]),
                least=rng.randint(1, 2), far=rng.choice([.5, .3, .2]), rd=rng.choice([1, .5]), rc=rng.choice([0, 1, 2]), T=rng.choice([1, 2.5]), gamma=rng.choice([1.0, 4.0]),
                metric=rng.choice(["euc", "gauss"]), laplac=rng.choice(["laplac1", "laplac2", "laplac3"]), near=rng.randint(1, 5), epochs=rng.randint(1, 9), at=rng.randint(0, 9))


def corrupt(s, ev):
    e = dict(ev[0])
    if e["ev"] == "exact" and not e["err"]:
        e["v"] += max(5000, e["scale"] // 10, 2 * abs(e["v"]))
        return [e]
    if e["ev"] == "law" and e["law"] == "order" and not e["err"]:
        e["b"] += 500 + abs(e["a"])
        return [e]
    return None


def check(chk):
    rng = random.Random(chk.seed * 1000 + 33)
    chk.mc("MC_DeepLoss.tla", "MC_DeepLoss_T.cfg" if chk.thorough else "MC_DeepLoss.cfg", workers=8, must_cover=["Add"])
    chk.mc_refuted("MC_DeepLoss.tla", "MC_DeepLoss_Bad.cfg")
    k = chk.pick(1, 12)
    scns = [exact_scn(rng, g) for g, n in dict(coral=120, dan=100, cdd=140, jdot=140, mcc=80, gda=20, nap=100, dann=80, mdd=100).items() for _ in range(n * k)]
    scns += [law_scn(rng, g) for g in NEEDS for _ in range(24 * k)]
    scns += [dict(ev="critic", net=net, n=rng.randint(2, 7), d=rng.randint(1, 4), K=rng.choice([1, 1, 2, 3]) if net == "plain" else 1, alpha=rng.choice([0, 1, 1, 2, 3]), rs=rng.randint(0, 10**6))
             for net in ("plain", "plain", "plain", "DANN", "CDAN", "SPA") for _ in range(8 * k)]
    for g in ("coral", "dan", "cdd", "jdot", "mcc", "dann", "cdan", "mdd", "spa"):
        scns += [dict(law_scn(rng, g), ev="option", reg=rng.choice([.5, 1, 2, 3]), base=rng.random() < .4, other=rng.random() < .5,
                      regs=dict(reg_adv=rng.choice([1, 2]), reg_gsa=rng.choice([0, .5, 1]), reg_nap=rng.choice([0, 1, 3]))) for _ in range(12 * k)]
    for _ in range(24 * k):
        d, K = rng.randint(1, 4), rng.randint(2, 4)
        scns.append(dict(ev="condmap", n=rng.randint(2, 4), d=d, K=K, room=max(1, d * K + rng.choice([-2, -1, 0, 0, 1, 5])), rs=rng.randint(0, 10**6)))
    scns += [dict(ev="refuse", what=w) for w in REFUSALS]
    rng.shuffle(scns)
    chk.judge("TraceDeepLoss.tla", chk.execute(execute, scns, chunk=16), corrupt=corrupt)

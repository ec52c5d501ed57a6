"""C37: mapping adapters satisfy the equations that define them."""
import random

import numpy as np

from .core import digest, fxl, guarded
from .ratios import rows, stack

ASSUMPTIONS = ["integer rows", "sides whose sizes divide each other for exact transport", "sample covariances of full rank for covariance maps"]


def trace_module(scn):
    return "TraceTransport.tla"


def make(scn):
    from skada import _mapping as M
    ev, k = scn["ev"], scn["kind"]
    if ev == "emd":
        return M.OTMappingAdapter(metric=scn["metric"], norm=scn["norm"])
    if ev == "blend":
        if k == "entropic":
            return M.EntropicOTMappingAdapter(reg_e=scn["reg"] / 10, norm=scn["norm"], max_iter=5000, tol=1e-9)
        return M.ClassRegularizerOTMappingAdapter(reg_e=scn["reg"] / 10, reg_cl=scn["regcl"], norm=k)
    if ev == "affine":
        if k == "coral":
            return M.CORALAdapter(reg=scn["shrink"], assume_centered=scn["raw"])
        if k == "linear":
            return M.LinearOTMappingAdapter(bias=not scn["raw"])
        return M.MultiLinearMongeAlignmentAdapter(bias=not scn["raw"])
    return M.MMDLSConSMappingAdapter(gamma=scn["gamma"])


def execute(scn):
    xs, xt, q = scn["xs"], scn["xt"], scn["q"]
    e = dict(ev=scn["ev"], kind=scn["kind"], xs=xs, xt=xt, q=q, own=scn["own"], metric=scn["metric"], z=[], zs=[], zt=[], maps=[], changed=False, y=scn["y"],
             reg=scn["reg"], normed=scn["norm"] == "max", slack=20, raw=scn["raw"], half=scn["shrink"] == .5, single=scn["single"],
             qy=[random.Random(scn["seed"] + j).choice(scn["y"]) for j in range(len(q))] if scn["ev"] == "class" and not scn["own"] and scn["seed"] % 2 else [])
    e["class"] = scn["kind"] in ("lpl1", "l1l2")
    if e["class"]:
        e["slack"] = 100

    def affine():
        doms = scn["doms"]
        srcs = [d for d in doms if d > 0]
        tgt = [d for d in doms if d < 0][0]
        X = np.array([r for d in doms for r in scn["parts"][str(d)]], float)
        sd = np.array([d for d in doms for _ in scn["parts"][str(d)]])
        perm = np.array(random.Random(scn["seed"]).sample(range(len(X)), len(X)))
        X, sd = X[perm], sd[perm]
        y = np.where(sd < 0, -1, 1)
        before = digest(X, y, sd)
        ad = make(scn)
        Z = np.asarray(ad.fit_transform(X, y, sample_domain=sd), float)
        e["changed"] = before != digest(X, y, sd)
        d = X.shape[1]
        base = np.vstack([np.zeros(d), np.eye(d)])
        for dom in srcs + [tgt]:
            ask = lambda B: np.asarray(ad.transform(B, sample_domain=np.full(len(B), dom), allow_source=True), float)
            T = np.vstack([ask(r[None]) for r in base]) if scn["seed"] % 2 else ask(base)
            e["maps"].append(dict(X=fxl(X[sd == dom]), z=fxl(Z[sd == dom], 100), c=fxl(T[0], 100), M=fxl(T[1:] - T[0], 100)))
        if scn["kind"] != "monge":     # one map for all sources
            allx = np.concatenate([X[sd == s] for s in srcs])
            allz = np.concatenate([Z[sd == s] for s in srcs])
            same = all(m["M"] == e["maps"][0]["M"] and m["c"] == e["maps"][0]["c"] for m in e["maps"][:-1])
            if not same:
                e["maps"][0]["M"] = [[10 ** 6] * d] * d
            e["maps"] = [dict(e["maps"][0], X=fxl(allx), z=fxl(allz, 100)), e["maps"][-1]]

    def go():
        if scn["ev"] == "affine":
            return affine()
        X, y, sd, pos = stack(scn, xs, xt, scn["y"], [0] * len(xt))
        ym = np.where(sd < 0, -1, y)
        if scn["real"]:
            ym = np.where(sd < 0, np.nan, y + .5)
        before = digest(X, ym, sd)
        ad = make(scn)
        Z = np.asarray(ad.fit_transform(X, ym, sample_domain=sd), float)
        e["changed"] = before != digest(X, ym, sd)
        scale = 1200 if scn["ev"] == "emd" else 1000
        e["zs"], e["zt"] = fxl(Z[pos[: len(xs)]], scale), fxl(Z[pos[len(xs):]], scale)
        if scn["own"]:
            e["z"] = e["zs"]
        else:
            X2, _, sd2, pos2 = stack(scn, q, scn["tq"], [0] * len(q), [0] * len(scn["tq"]))
            kw = {}
            if e["qy"]:   # the classes of the new rows are known
                y2 = np.full(len(X2), -1)
                y2[pos2[: len(q)]] = e["qy"]
                kw = dict(y=y2)
            Z2 = np.asarray(ad.transform(X2, sample_domain=sd2, allow_source=True, **kw), float)
            e["z"] = fxl(Z2[pos2[: len(q)]], scale)
    _, e["err"] = guarded(go, 60)
    return [e]


def full_rank(S, raw):
    A = np.array(S, float)
    A = A if raw else A - A.mean(0)
    return np.linalg.matrix_rank(A) == A.shape[1] and np.linalg.cond(A.T @ A) < 60


def scenario(rng, ev):
    d = rng.randint(1, 2)
    s = dict(ev=ev, kind="", seed=rng.randint(0, 9999), sd=rng.choice([[1], [1, 3], [2, 5, 4]]), td=rng.choice([[-2], [-2, -4], [-1, -7]]), own=rng.random() < .6,
             metric="sqeuclidean", norm=None, reg=10, regcl=.1, raw=False, shrink=None, single=False, gamma=1., real=False, xs=[], xt=[], y=[], tq=[])
    if ev == "emd":
        ns, nt = rng.choice([(1, 1), (2, 2), (3, 3), (4, 4), (4, 4), (2, 4), (2, 6), (3, 6), (4, 2), (6, 2), (6, 3), (1, 4), (4, 1), (5, 5)])
        hi = rng.choice([3, 9])
        s["xs"], s["xt"] = rows(rng, ns, d, hi), rows(rng, nt, d, hi)
        s["metric"] = rng.choice(["sqeuclidean", "sqeuclidean", "cityblock"])
        s["norm"] = rng.choice([None, None, "max", "median"])
        if s["norm"] == "median":
            from scipy.spatial.distance import cdist
            if np.median(cdist(s["xs"], s["xt"])) == 0:
                s["norm"] = None
        if s["norm"] and s["xs"] and all(r == s["xs"][0] for r in s["xs"] + s["xt"]):
            s["norm"] = None
        s["y"] = [rng.randint(0, 1) for _ in s["xs"]]
        s["real"] = rng.random() < .2
    elif ev == "blend":
        s["kind"] = rng.choice(["entropic", "entropic", "entropic", "lpl1", "l1l2"])
        ns, nt = rng.randint(1, 6), rng.choice([2, 2, 1, 3, 4, 5])
        if s["kind"] == "entropic" and rng.random() < .5:
            d, nt = 1, 2
        s["xs"], s["xt"] = rows(rng, ns, d, 5), rows(rng, nt, d, 5)
        s["reg"] = rng.choice([10, 20, 50, 100, 300])
        s["norm"] = None
        if s["kind"] == "entropic" and rng.random() < .3 and any(r not in s["xs"] for r in s["xt"]):
            s["norm"], s["reg"] = "max", rng.choice([5, 10, 20])
        s["regcl"] = rng.choice([.1, 1.])
        s["y"] = [rng.randint(0, 1) for _ in s["xs"]]
        if s["kind"] != "entropic":
            s["own"] = True
    elif ev == "affine":
        s["kind"] = rng.choice(["coral", "coral", "linear", "monge"])
        s["raw"] = rng.random() < .35
        s["own"] = True
        s["doms"] = rng.sample([1, 2, 3, 5], rng.randint(1, 3)) + [rng.choice([-2, -4])]
        if s["kind"] == "coral":
            s["shrink"] = rng.choice([None, 0., .5] + (["auto", "auto"] if d == 1 else []))
            if s["raw"] and s["shrink"] == .5:
                s["shrink"] = None
        rng.shuffle(s["doms"])
        while True:
            grid = rng.random() < .3
            s["parts"] = {}
            for k in s["doms"]:
                a = rows(rng, rng.randint(3, 6), d, 3)
                if grid and d == 2:
                    h = [rng.randint(1, 2), rng.randint(1, 2)]
                    o = [rng.randint(0, 2), rng.randint(0, 2)]
                    a = [[o[0] + i * h[0], o[1] + j * h[1]] for i in (0, 1) for j in (0, 1)]
                s["parts"][str(k)] = a
            if s["kind"] != "monge" and len(s["doms"]) > 2:
                s["doms"] = [k for k in s["doms"] if k > 0][:1] + [k for k in s["doms"] if k < 0]
                s["parts"] = {str(k): s["parts"][str(k)] for k in s["doms"]}
            if all(full_rank(p, s["raw"]) for p in s["parts"].values()):
                break
    else:
        s["gamma"] = rng.choice([.25, .5, 1.])
        if rng.random() < .3:
            x, t = rows(rng, 1, d, 2)[0], rows(rng, 1, d, 2)[0]
            s["xs"], s["xt"], s["single"] = [x] * rng.randint(2, 4), [t] * rng.randint(1, 4), True
            s["y"] = [3] * len(s["xs"])
        else:
            ns = rng.randint(3, 7)
            s["xs"], s["xt"] = rows(rng, ns, d, 4), rows(rng, rng.randint(2, 6), d, 5)
            lab = rng.sample([0, 1, 2, 5, 9], rng.randint(2, 3))
            s["y"] = [lab[i % len(lab)] for i in range(ns)]
    if s["own"] or ev == "affine":
        s["q"] = s["xs"] if ev != "affine" else []
    else:
        s["q"] = rows(rng, rng.randint(1, 5), d, 5)
        s["tq"] = rows(rng, rng.randint(0, 3), d, 5)
    return s


def corrupt(s, ev):
    e = dict(ev[0])
    if e["err"] or e["ev"] not in ("emd", "affine"):
        return None
    if e["ev"] == "emd":
        e["z"] = [[v + 300 for v in e["z"][0]]] + e["z"][1:]
    else:
        m = dict(e["maps"][0])
        m["M"] = [[v + 40 for v in r] for r in m["M"]]
        e["maps"] = [m] + e["maps"][1:]
    return [e]


def check(chk):
    rng = random.Random(chk.seed * 1000 + 37)
    chk.mc("MC_Transport.tla", "MC_Transport_T.cfg" if chk.thorough else "MC_Transport.cfg", workers=8, must_cover=["Exchange"])
    chk.mc_refuted("MC_Transport.tla", "MC_Transport_Bad.cfg")
    k = chk.pick(1, 12)
    n = dict(emd=350, blend=250, affine=300)
    n["class"] = 120
    scns = [scenario(rng, ev) for ev in n for _ in range(n[ev] * k)]
    rng.shuffle(scns)
    chk.judge("TraceTransport.tla", chk.execute(execute, scns, chunk=8), corrupt=corrupt)

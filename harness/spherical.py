"""C35: spherical k-means."""
import random

import numpy as np

from .core import digest, fx, fxl, guarded

ASSUMPTIONS = ["CPU only", "no row of zeros", "at least as many rows as clusters"]
DIRS = [(3, 4), (4, 3), (5, 0), (-3, 4), (0, -5), (-4, -3), (-5, 0), (4, -3)]


def trace_module(scn):
    return "TraceSpherical.tla"


def torch_():
    import torch
    torch.set_num_threads(1)
    return torch


def make(scn, **over):
    torch = torch_()
    from skada.deep.utils import SphericalKMeans
    kw = dict(n_clusters=scn["k"], n_init=scn["inits"], max_iter=scn["max"], tol=scn["tol"])
    rs = scn["seed"]
    kw["random_state"] = torch.Generator().manual_seed(rs) if scn["gen"] else rs
    if scn["init"] is not None:
        kw["initial_centroids"] = torch.tensor(scn["init"], dtype=torch.float32)
    kw.update(over)
    return SphericalKMeans(**kw)


def data(scn):
    torch = torch_()
    X = np.array(scn["X"], "float32")
    return torch.tensor(X) if scn["tensor"] else X.astype(scn["dtype"])


def fit(scn):
    torch = torch_()
    k = scn["k"]
    e = dict(ev="fit", k=k, max=scn["max"], u=[], dirs=[], cen=[], lab=[], scaled=[], inertia=0, iters=0, settled=False, tied=False, tol=max(2, int(2000 * scn["tol"])),
             changed=False, moved=False, glob=False, again=False, self=False, order=False, kind=False)

    def go():
        X = data(scn)
        before = digest(np.array(X))
        torch.manual_seed(scn["seed"] + 1)
        st = torch.get_rng_state()
        m = make(scn)
        init = digest(np.array(m.initial_centroids)) if scn["init"] is not None else None
        e["self"] = m.fit(X) is m
        m2 = make(scn).fit(X)
        lab = m.predict(X)
        e["glob"] = bool(torch.equal(st, torch.get_rng_state()))
        e["changed"] = before != digest(np.array(X))
        e["moved"] = init is not None and init != digest(np.array(m.initial_centroids))
        e["again"] = bool(torch.equal(m.cluster_centers_, m2.cluster_centers_) and m.inertia_ == m2.inertia_ and torch.equal(lab, m2.predict(X)))
        A = np.array(scn["X"], float)
        U = A / np.linalg.norm(A, axis=1, keepdims=True)
        c = np.asarray(m.cluster_centers_, float)
        nrm = np.linalg.norm(c, axis=1, keepdims=True)
        dirs = np.where(nrm > 0, c / np.where(nrm > 0, nrm, 1), 0)
        e.update(u=fxl(U, 1000), cen=fxl(c, 1000), dirs=fxl(dirs, 1000), lab=[v + 1 for v in fxl(lab)], inertia=fx(m.inertia_, 1000), iters=int(m.n_iter_))
        e["settled"] = e["iters"] < scn["max"]
        cos = np.sort(U @ dirs.T, axis=1)
        e["tied"] = bool(k > 1 and (cos[:, -1] - cos[:, -2] < 1e-5).any())
        sc = np.array(scn["factors"], "float32")[:, None]
        e["scaled"] = [v + 1 for v in fxl(m.predict(np.array(scn["X"], "float32") * sc))]
        perm = np.array(scn["perm"])
        e["order"] = bool(np.array_equal(np.asarray(m.predict(X[perm])), np.asarray(lab)[perm])) or e["tied"]
        other = np.array(X) if scn["tensor"] else torch.tensor(np.array(X), dtype=torch.float32)
        e["kind"] = bool(torch.equal(m.predict(other), lab)) or e["tied"]
    _, e["err"] = guarded(go, 60)
    return [e]


def runs(scn):
    torch = torch_()
    e = dict(ev="runs", inits=[], rounds=[], differ=True, gen=True)

    def go():
        X = data(scn)
        e["inits"] = [fx(make(scn, initial_centroids=None, n_init=j).fit(X).inertia_, 1000) for j in range(1, 5)] if not scn["gen"] else []
        init = torch.tensor(np.array(scn["X"], "float32")[: scn["k"]])
        e["rounds"] = [fx(make(scn, initial_centroids=init, max_iter=j).fit(X).inertia_, 1000) for j in range(1, 8)]
        # the starting centres of one restart with no round to speak of, over many seeds: not always the same rows
        starts = {digest(np.asarray(make(scn, initial_centroids=None, n_init=1, max_iter=1, random_state=s).fit(X).cluster_centers_)) for s in range(12)}
        distinct = len({tuple(np.sign(r) * 0 + np.round(np.array(r) / np.linalg.norm(r), 5)) for r in scn["X"]})
        e["differ"] = len(starts) > 1 or distinct <= scn["k"] + 2 or scn["k"] == 1
        g = torch.Generator().manual_seed(5)
        st = g.get_state().clone()
        make(scn, initial_centroids=None, random_state=g).fit(X)
        e["gen"] = not torch.equal(st, g.get_state())
    _, e["err"] = guarded(go, 60)
    return [e]


def exact(scn):
    torch = torch_()
    e = dict(ev="exact", X=scn["X"], C=scn["init"], max=scn["max"], c5=[], lab=[])

    def go():
        X = np.array(scn["X"], "float32") * np.array(scn["factors"], "float32")[:, None]
        m = make(scn).fit(torch.tensor(X) if scn["tensor"] else X)
        e["c5"] = fxl(np.asarray(m.cluster_centers_, float), 5)
        e["lab"] = [v + 1 for v in fxl(m.predict(X))]
    _, e["err"] = guarded(go, 60)
    return [e]


def execute(scn):
    return dict(fit=fit, runs=runs, exact=exact)[scn["ev"]](scn)


def scenario(rng, ev):
    k = rng.randint(1, 4)
    s = dict(ev=ev, k=k, inits=rng.randint(1, 4), max=rng.choice([1, 2, 5, 50, 300]), tol=rng.choice([1e-4, 1e-6]), seed=rng.randint(0, 9999), gen=rng.random() < .2 and ev == "runs",
             tensor=rng.random() < .5, dtype=rng.choice(["float32", "float64"]), init=None, moved=False)
    if ev == "exact":
        n = rng.randint(k, 7)
        s["X"] = [list(rng.choice(DIRS)) for _ in range(n)]
        s["init"] = [list(rng.choice(DIRS)) for _ in range(k)] if rng.random() < .5 else [list(v) for v in rng.sample(s["X"], k)]
        s["max"] = rng.choice([1, 2, 3, 4, 8])
    else:
        d, n = rng.randint(2, 4), rng.randint(max(k, 2), 14)
        base = [[rng.randint(-5, 5) for _ in range(d)] for _ in range(k)]
        X = []
        while len(X) < n:
            r = [v + rng.randint(-2, 2) for v in rng.choice(base)]
            if any(r):
                X.append(r)
        s["X"] = X
        if rng.random() < .35 and ev == "fit":
            s["init"] = [[v / 2 for v in r] for r in rng.sample(X, k)]
    n = len(s["X"])
    s["factors"] = [rng.choice([1, 2, 3, .5, 10]) for _ in range(n)]
    s["perm"] = rng.sample(range(n), n)
    return s


def corrupt(s, ev):
    e = dict(ev[0])
    if e["ev"] == "fit" and e["cen"] and e["settled"] and not e["tied"]:
        e["inertia"] += 500
        return [e]
    if e["ev"] == "runs" and e["rounds"]:
        e["rounds"] = e["rounds"] + [e["rounds"][-1] + 300]
        return [e]
    return None


def check(chk):
    rng = random.Random(chk.seed * 1000 + 35)
    chk.mc("MC_Spherical.tla", "MC_Spherical_T.cfg" if chk.thorough else "MC_Spherical.cfg", workers=8, must_cover=["Round"])
    chk.mc_refuted("MC_Spherical.tla", "MC_Spherical_Bad.cfg")
    k = chk.pick(1, 15)
    scns = [scenario(rng, ev) for ev, n in (("fit", 350), ("runs", 60), ("exact", 500)) for _ in range(n * k)]
    rng.shuffle(scns)
    chk.judge("TraceSpherical.tla", chk.execute(execute, scns, chunk=16), corrupt=corrupt)

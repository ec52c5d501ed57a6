"""C38: subspace adapters satisfy the equations that define them."""
import random

import numpy as np

from .core import digest, fx, fxl, guarded
from .ratios import rows, stack

ASSUMPTIONS = ["integer rows of full rank", "linear kernels (and Gaussian ones for laws that need no kernel value)"]


def trace_module(scn):
    return "TraceSubspaces.tla"


def make(scn):
    from skada import _subspace as S
    ev, k = scn["ev"], scn["k"] if scn["give_k"] else None
    if ev == "sa":
        return S.SubspaceAlignmentAdapter(n_components=k, random_state=scn["seed"])
    if ev == "tca":
        return S.TransferComponentAnalysisAdapter(kernel=scn["kernel"], n_components=k, mu=scn["mu"] / 10)
    if ev == "tjm":
        return S.TransferJointMatchingAdapter(kernel=scn["kernel"], n_components=k, tradeoff=scn["mu"] / 10 or 1e-6, max_iter=scn["iters"])
    return S.TransferSubspaceLearningAdapter(n_components=k, base_method=scn["base"], mu=0 if scn["best"] else scn["mu"] / 10, reg=scn["reg"], length_scale=scn["scale"], max_iter=400, tol=1e-7)


def execute(scn):
    xs, xt, k = scn["xs"], scn["xt"], scn["k"]
    d = len(xs[0])
    e = dict(ev=scn["ev"], xs=xs, xt=xt, k=k, zs=[], zt=[], Ms=[], Mt=[], changed=False, linear=scn["kernel"] == "linear", mu=scn["mu"], y=scn["y"],
             base=scn["base"], T=[], scale=scn["scale"], best=scn["best"])

    def go():
        X, y, sd, pos = stack(scn, xs, xt, scn["y"], [0] * len(xt))
        y = np.where(sd < 0, -1, y)
        before = digest(X, y, sd)
        ad = make(scn)
        Z = np.asarray(ad.fit_transform(X, y, sample_domain=sd), float)
        e["changed"] = before != digest(X, y, sd)
        s = dict(tjm=1000, tca=20).get(scn["ev"], 100)
        e["zs"], e["zt"] = fxl(Z[pos[: len(xs)]], s), fxl(Z[pos[len(xs):]], s)
        base = np.vstack([np.zeros(d), np.eye(d)])
        if scn["ev"] in ("sa", "tsl") or e["linear"]:
            for name, dom in (("Ms", scn["sd"][0]), ("Mt", scn["td"][0])):
                T = np.asarray(ad.transform(base, sample_domain=np.full(d + 1, dom), allow_source=True), float)
                e[name] = fxl(T[1:] - T[0], 1000)
        if scn["base"] == "lpp":
            top = 1 + max(sum((a - b) ** 2 for a, b in zip(u, v)) for u in xs for v in xs)
            e["T"] = [fx(np.exp(-np.sqrt(q) / scn["scale"]), 10000) for q in range(top)]
    _, e["err"] = guarded(go, 60)
    return [e]


def good(S, d):
    A = np.array(S, float)
    A = A - A.mean(0)
    if len(S) <= d or np.linalg.matrix_rank(A) < d:
        return False
    w = np.linalg.eigvalsh(A.T @ A)
    return w[-1] / w[0] < 60


def scenario(rng, ev):
    d = rng.choice([1, 2, 2, 2, 3])
    s = dict(ev=ev, seed=rng.randint(0, 9999), sd=rng.choice([[1], [1, 3], [2, 5, 4]]), td=rng.choice([[-2], [-2, -4], [-1, -7]]), kernel="", mu=1, base="", scale=2, best=False, reg=None, iters=100)
    if ev == "tsl":
        d = rng.choice([2, 2, 3])
    while True:
        ns, nt = rng.randint(3, 7), rng.randint(3, 7)
        s["xs"], s["xt"] = rows(rng, ns, d, 4), rows(rng, nt, d, 4, 1)
        if good(s["xs"], d) and good(s["xt"], d):
            break
    s["y"] = [rng.choice([0, 1]) for _ in s["xs"]]
    k = rng.randint(1, d)
    s["give_k"] = k < d or rng.random() < .5
    if ev == "tca":
        s["kernel"], s["mu"] = rng.choice(["linear", "linear", "rbf"]), rng.choice([0, 1, 10, 50])
        if s["kernel"] == "rbf" and s["give_k"]:
            k = rng.randint(1, 5)
    elif ev == "tjm":
        s["kernel"], s["mu"], s["iters"] = rng.choice(["linear", "linear", "rbf"]), rng.choice([0, 0, 1]), rng.choice([1, 3, 100])
    elif ev == "tsl":
        s["base"], s["reg"] = rng.choice(["pca", "flda", "lpp"]), rng.choice([None, 0., .01])
        s["scale"] = rng.choice([1, 2, 4])
        s["best"] = d == 2 and rng.random() < .85
        if s["best"]:
            k = 1
            s["give_k"] = True
            s["reg"] = rng.choice([None, 0.])
            lab = rng.sample([0, 1, 4, 7], rng.randint(2, 3))
            while True:
                s["y"] = [rng.choice(lab) for _ in s["xs"]]
                if len(set(s["y"])) > 1 and usable(s):
                    break
                s["xs"] = rows(rng, rng.randint(4, 7), d, 4)
    s["k"] = k
    return s


def usable(s):
    """Rows of full rank, inside the classes too, and no stationary start at the first axis."""
    X, y = np.array(s["xs"], float), np.array(s["y"])
    if len(X) != len(y) or not good(s["xs"], 2):
        return False
    C = np.cov(X.T, bias=True)
    W = sum((np.cov(X[y == c].T, bias=True) if (y == c).sum() > 1 else np.zeros((2, 2))) * (y == c).mean() for c in set(y))
    T = np.cov(X.T, bias=True)
    if np.linalg.matrix_rank(W) < 2 or np.linalg.cond(W) > 60:
        return False
    if s["base"] == "flda":
        g = W[0, 1] / T[0, 0] - W[0, 0] * T[0, 1] / T[0, 0] ** 2
        return abs(g) > .05
    return abs(C[0, 1]) > .15 and abs(W[0, 1]) > .15


def corrupt(s, ev):
    e = dict(ev[0])
    if e["err"] or e["ev"] != "tjm":
        return None
    e["zs"] = [[v + 900 for v in e["zs"][0]]] + e["zs"][1:]
    return [e]


def check(chk):
    rng = random.Random(chk.seed * 1000 + 38)
    chk.mc("MC_Subspaces.tla", "MC_Subspaces_T.cfg" if chk.thorough else "MC_Subspaces.cfg", workers=8, must_cover=["Turn"])
    chk.mc_refuted("MC_Subspaces.tla", "MC_Subspaces_Bad.cfg")
    k = chk.pick(1, 12)
    n = dict(sa=250, tca=250, tjm=200, tsl=200)
    scns = [scenario(rng, ev) for ev in n for _ in range(n[ev] * k)]
    rng.shuffle(scns)
    chk.judge("TraceSubspaces.tla", chk.execute(execute, scns, chunk=8), corrupt=corrupt)

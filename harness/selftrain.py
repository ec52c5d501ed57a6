"""C20 C21 C22: self-training estimators with scripted base estimators.

The base estimators answer from a script (one entry per fit), so every decision
path of the surrounding loop can be driven; what they were fitted on is recorded."""
import copy
import random
from fractions import Fraction

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin

from .core import fx, fxl, guarded

ASSUMPTIONS = [
    "scripted decisions of one round are pairwise distinct, non-zero and off the margin bounds",
    "joint OT is judged exactly on equal masses (plans are permutations) and against a linear program otherwise",
]
U = 8
LOG, SCRIPT = [], {}


def trace_module(scn):
    return "TraceSelfTraining.tla"


# --------------------------------------------------------------- base models
class Margin(ClassifierMixin, BaseEstimator):
    """decision of row id in round r: SCRIPT['d'][r][id]; rows are [id, ...]"""

    def __init__(self, c=1):
        self.c = c

    def fit(self, X, y):
        self.round_ = len(LOG)
        LOG.append(([int(v) for v in X[:, 0]], [int(v) for v in y]))
        self.classes_ = np.array(SCRIPT["classes"])
        return self

    def _row(self):
        return SCRIPT["d"][min(self.round_, len(SCRIPT["d"]) - 1)]

    def decision_function(self, X):
        d = self._row()
        return np.array([d[int(v)] / U for v in np.asarray(X)[:, 0]])

    def predict(self, X):
        d = self.decision_function(X)
        return np.array([SCRIPT["classes"][int(v > 0)] for v in d])

    def predict_proba(self, X):
        d = self.decision_function(X)
        return np.stack([-d, d], 1)


class Plane(ClassifierMixin, BaseEstimator):
    def __init__(self, c=1):
        self.c = c

    def fit(self, X, y):
        self.round_ = len(LOG)
        LOG.append((np.array(X, dtype=float), [int(v) for v in y]))
        self.classes_ = np.unique(y)
        return self

    def predict(self, X):
        c = SCRIPT["cls"][min(self.round_, len(SCRIPT["cls"]) - 1)]
        v = np.asarray(X, dtype=float) @ np.array(c["w"], dtype=float)
        # rows are rationals with a small denominator
        return np.where(v > c["b"] + 1e-9, c["hi"], c["lo"])

    def predict_proba(self, X):
        p = self.predict(X)
        return np.stack([p, p], 1)


class PlaneIter(Plane):
    def __init__(self, c=1, max_iter=10):
        self.c = c
        self.max_iter = max_iter


def _key(r):
    return tuple(np.round(np.asarray(r, dtype=float), 6).tolist())


class Responder(BaseEstimator):
    def fit(self, X, y, sample_weight=None):
        self.round_ = len(LOG)
        LOG.append((np.array(X, dtype=float), np.array(y), None if sample_weight is None else np.array(sample_weight)))
        return self

    def _resp(self, X):
        s = SCRIPT["resp"][min(self.round_, len(SCRIPT["resp"]) - 1)]
        return np.array([s[SCRIPT["rows"][_key(r)]] for r in np.asarray(X)], dtype=float)


class RespReg(RegressorMixin, Responder):
    def predict(self, X):
        return self._resp(X)


class RespLog(ClassifierMixin, Responder):
    """label costs are minus the log probabilities"""

    def fit(self, X, y, sample_weight=None):
        super().fit(X, y, sample_weight)
        self.classes_ = np.unique(y)
        return self

    def predict_log_proba(self, X):
        return -self._resp(X)

    def predict_proba(self, X):
        return np.exp(-self._resp(X))

    def predict(self, X):
        r = -self._resp(X)
        return np.array(SCRIPT["labs"])[r.argmax(1)]


class RespHinge(ClassifierMixin, Responder):
    def fit(self, X, y, sample_weight=None):
        super().fit(X, y, sample_weight)
        self.classes_ = np.unique(y)
        return self

    def decision_function(self, X):
        return self._resp(X)

    def predict(self, X):
        r = self._resp(X)
        return np.array(SCRIPT["labs"])[(r > 0).astype(int) if r.ndim == 1 else r.argmax(1)]


# --------------------------------------------------------------- drivers
def order(scn, n, m):
    """positions of the n source then m target rows in the input"""
    idx = list(range(n + m))
    random.Random(scn["shuffle"]).shuffle(idx)
    return np.array(idx)


def mixed(scn, src, tgt, ys, yt):
    n, m = len(src), len(tgt)
    p = order(scn, n, m)
    X = np.concatenate([src, tgt])[p]
    y = np.concatenate([ys, yt])[p]
    rng = random.Random(scn["shuffle"] + 1)
    sd = np.array([rng.choice(scn["sdom"]) for _ in range(n)] + [rng.choice(scn["tdom"]) for _ in range(m)])[p]
    return X, y, sd, p


def run_exchange(scn):
    from skada._self_labeling import DASVMClassifier
    n, m = len(scn["ys"]), scn["m"]
    # the loop is judged against the script in the order the rows came in
    src = np.array([[i, 0.5] for i in range(n)])
    tgt = np.array([[100 + j, 0.5] for j in range(m)])
    dec = [{**{i: v for i, v in enumerate(d["s"])}, **{100 + j: v for j, v in enumerate(d["t"])}} for d in scn["dec"]]
    SCRIPT.clear()
    SCRIPT.update(d=dec, classes=scn["classes"])

    def go(yt):
        LOG.clear()
        base = Margin()
        X, y, sd, _ = mixed(scn, src, tgt, np.array(scn["ys"]), yt)
        est = DASVMClassifier(base_estimator=base, k=scn["k"], max_iter=scn["maxiter"], save_estimators=scn["saveest"], save_indices=scn["saved"])
        r = est.fit(X, y, sample_domain=None if scn["nodomain"] else sd)
        return est, r is est, base, list(LOG), X, sd

    res, err = guarded(lambda: go(np.array(scn["yt2"] if scn["nodomain"] else scn["yt"])))
    ev = dict(ev="exchange", err=err, ys=scn["ys"], m=m, k=scn["k"], maxiter=scn["maxiter"], classes=scn["classes"],
              fits=[], dec=[], saved=scn["saved"], saveest=scn["saveest"], sdel=[], sadd=[], nest=0, retself=False,
              basefit=False, twin=False, q=[], pred=[], decq=[], prob=[], decs=[], ids=[])
    if err:
        return [ev]
    est, ret, base, log, X, sd = res
    # rows of each side in input order, as the saved masks refer to them
    sid = [int(v) + 1 for v in X[sd >= 0][:, 0]]
    tid = [int(v) - 99 for v in X[sd < 0][:, 0]]
    for ids, ys in log:
        s = [(i + 1, v) for i, v in zip(ids, ys) if i < 100]
        t = [(i - 99, v) for i, v in zip(ids, ys) if i >= 100]
        ev["fits"].append(dict(src=[a for a, _ in s], ysrc=[b for _, b in s], tgt=[a for a, _ in t], ytgt=[b for _, b in t]))
    ev["dec"] = [dict(s=d["s"], t=d["t"]) for d in scn["dec"]]
    while len(ev["dec"]) < len(log):
        ev["dec"].append(ev["dec"][-1])
    ev["sdel"] = [[i for i, f in zip(sid, mask) if f] for mask in est.indices_source_deleted]
    ev["sadd"] = [[i for i, f in zip(tid, mask) if f] for mask in est.indices_target_added]
    ev.update(nest=len(est.estimators), retself=ret, basefit=hasattr(base, "round_"))
    last = dec[min(len(log) - 1, len(dec) - 1)]
    ids = sorted(last)
    Q = np.array([[i, 0.5] for i in ids])
    ev["q"] = [last[i] for i in ids]
    ev["pred"] = [int(v) for v in est.predict(Q)]
    # what each recorded estimator decides, and the rows asked about
    ev["decs"] = [fxl(k.decision_function(Q), U) for k in est.estimators]
    ev["ids"] = [i + 1 if i < 100 else n + i - 99 for i in ids]
    ev["decq"] = fxl(est.decision_function(Q), U)
    ev["prob"] = fxl(est.predict_proba(Q)[:, 1], U)
    twin, terr = guarded(lambda: go(np.array(scn["yt2"])))
    ev["twin"] = not terr and twin[3] == log
    return [ev]


def run_gradual(scn):
    import ot
    from skada._gradual_da import GradualEstimator
    Xs, Xt = np.array(scn["Xs"], float), np.array(scn["Xt"], float)
    S = scn["nsteps"]
    SCRIPT.clear()
    SCRIPT.update(cls=scn["cls"])

    def method():
        if scn["ot"] == "emd":
            return ot.da.EMDTransport()
        return ot.da.SinkhornTransport(reg_e=scn["reg"], norm="max", max_iter=200)

    def go(yt):
        LOG.clear()
        base = PlaneIter() if scn["iter"] else Plane()
        meth = method()
        X, y, sd, _ = mixed(scn, Xs, Xt, np.array(scn["ys"]), yt)
        est = GradualEstimator(alpha=scn["alpha"]["num"] / scn["alpha"]["den"], n_steps=S, ot_method=meth,
                               base_estimator=base, advanced_ot_plan_sampling=scn["advanced"],
                               save_estimators=scn["saveest"], save_intermediate_data=scn["savedata"])
        r = est.fit(X, y, sample_domain=None if scn["nodomain"] else sd)
        return est, r is est, base, list(LOG), X, sd, hasattr(meth, "coupling_")

    yt0 = np.array(scn["yt2"] if scn["nodomain"] else scn["yt"])
    res, err = guarded(lambda: go(yt0))
    ev = dict(ev="gradual", otfit=False, err=err, Xs=scn["Xs"], Xt=scn["Xt"], ys=scn["ys"], nsteps=S, alpha=scn["alpha"],
              advanced=scn["advanced"], cls=scn["cls"], saveest=scn["saveest"], savedata=scn["savedata"], fits=[],
              rank=[], nest=0, data=[], retself=False, basefit=False, twin=False, q=[], pred=[], preds=[])
    if err:
        return [ev]
    est, ret, base, log, X, sd, ev["otfit"] = res
    fits = [dict(X=fxl(a * S), y=b) for a, b in log]
    ev["fits"] = fits
    o = order(scn, len(Xs), len(Xt))
    g = method().fit(Xs=X[sd >= 0], Xt=X[sd < 0]).coupling_
    # back to the numbering of the scenario
    si = [k for k in o if k < len(Xs)]
    ti = [k - len(Xs) for k in o if k >= len(Xs)]
    G = np.zeros_like(g)
    G[np.ix_(si, ti)] = g
    vals = np.sort(np.unique(G))
    lev = np.concatenate([[0], np.cumsum(np.diff(vals) > 1e-9 * max(vals[-1], 1e-30))])
    ev["rank"] = lev[np.searchsorted(vals, G)].astype(int).tolist()
    ev.update(retself=ret, basefit=hasattr(base, "round_"), nest=len(est.get_intermediate_estimators()))
    if scn["savedata"]:
        ev["data"] = [dict(X=fxl(np.asarray(a) * S), y=[int(v) for v in b]) for a, b in est.intermediate_data_]
    ev["q"] = scn["q"]
    ev["pred"] = [int(v) for v in est.predict(np.array(scn["q"], float))]
    ev["preds"] = [[int(v) for v in k.predict(np.array(scn["q"], float))] for k in est.get_intermediate_estimators()]
    twin, terr = guarded(lambda: go(np.array(scn["yt2"])))
    ev["twin"] = not terr and len(twin[3]) == len(log) and all(
        np.array_equal(a[0], b[0]) and a[1] == b[1] for a, b in zip(twin[3], log))
    return [ev]


def jdot(scn, base):
    from skada import JDOTClassifier, JDOTRegressor
    kw = dict(alpha=scn["alpha"]["num"] / scn["alpha"]["den"], n_iter_max=scn["niter"], tol=scn["tol"]["num"] / scn["tol"]["den"])
    if scn["kind"] == "reg":
        return JDOTRegressor(base, **kw)
    return JDOTClassifier(base, metric="hinge" if scn["kind"] == "hinge" else "multinomial", **kw)


def run_joint(scn):
    n = scn["n"]
    Xs, Xt = np.array(scn["Xs"], float), np.array(scn["Xt"], float)
    labs = scn["labs"]
    kind = scn["kind"]
    ys = np.array(scn["ys"], float) if kind == "reg" else np.array([labs[c] for c in scn["ys"]])
    SCRIPT.clear()
    SCRIPT.update(resp=[np.array(r, float) for r in scn["resp"]], rows={_key(r): j for j, r in enumerate(Xt)}, labs=labs)
    rowid = {_key(r): j + 1 for j, r in enumerate(Xt)}
    cls = dict(reg=RespReg, log=RespLog, hinge=RespHinge)[kind]

    def go(yt):
        LOG.clear()
        base = cls()
        X, y, sd, _ = mixed(scn, Xs, Xt, ys, yt)
        if scn["nodomain"]:
            sd = None
        est = jdot(scn, base)
        r = est.fit(X, y, sample_domain=sd)
        return est, r is est, base, list(LOG)

    mask = np.array([np.nan] * n) if kind == "reg" else np.array([-1] * n)
    yt = np.array(scn["yt"], float) if kind == "reg" else np.array([labs[c] for c in scn["yt"]])
    res, err = guarded(lambda: go(mask if scn["nodomain"] else yt))
    ev = dict(ev="joint", err=err, kind=kind, n=n, Xs=scn["Xs"], Xt=scn["Xt"], ys=scn["ys"], alpha=scn["alpha"],
              niter=scn["niter"], tol=scn["tol"], rounds=[], oto=[], tgl=[], retself=False, basefit=False, twin=False,
              flatw=False, pred=[], last=[])
    if err:
        return [ev]
    est, ret, base, log = res
    flat = True
    for r, (A, b, w) in enumerate(log):
        resp = scn["resp"][min(r, len(scn["resp"]) - 1)]
        ids = [rowid.get(_key(a), 0) for a in A]
        o = np.argsort(ids)
        if kind == "reg":
            y = [fx(b[k]) if abs(b[k] - round(b[k])) < 1e-6 else -999 for k in o]
        else:
            y = [labs.index(int(b[k])) for k in o]
            flat = flat and w is not None and bool(np.allclose(w, 1.0, atol=1e-6))
        costs = resp
        if kind == "hinge":       # hinge cost of class c: sum over classes
            costs = []
            for v in resp:
                dv = [-v, v] if not isinstance(v, list) else v
                costs.append([sum(max(0, 1 - (1 if k == c else -1) * dv[k]) for k in range(len(dv))) for c in range(len(dv))])
        ev["rounds"].append(dict(rows=[ids[k] for k in o], y=y, resp=costs))
    ev["flatw"] = flat
    F = int(np.rint(sum(((a - b) ** 2).sum() for a in Xs for b in Xt)))
    ev["oto"] = fxl(np.array(est.lst_loss_ot_, float), n * scn["alpha"]["den"] * F)
    ev["tgl"] = fxl(np.array(est.lst_loss_tgt_labels_, float), n)
    ev["retself"], ev["basefit"] = ret, hasattr(base, "round_")
    p = est.predict(Xt)
    ev["pred"] = fxl(np.asarray(p, float), 8)
    lastr = np.array(scn["resp"][min(len(log) - 1, len(scn["resp"]) - 1)], float)
    if kind == "reg":
        last = lastr
    elif kind == "log":
        last = np.array(labs, float)[(-lastr).argmax(1)]
    else:
        last = np.array(labs, float)[(lastr > 0).astype(int) if lastr.ndim == 1 else lastr.argmax(1)]
    ev["last"] = fxl(last, 8)
    twin, terr = guarded(lambda: go(mask if not scn["nodomain"] else mask))
    ev["twin"] = not terr and len(twin[3]) == len(log) and all(
        np.allclose(a[1], b[1]) and np.array_equal(a[0], b[0]) for a, b in zip(twin[3], log))
    return [ev]


def run_mass(scn):
    """unequal numbers and weights, real estimators, one iteration or several"""
    from scipy.optimize import linprog
    from sklearn.linear_model import LogisticRegression, Ridge
    rng = np.random.RandomState(scn["seed"])
    n, m, d = scn["n"], scn["m"], 2
    Xs, Xt = rng.randn(n, d), rng.randn(m, d) + 0.7
    reg = scn["kind"] == "reg"
    k = 2 + scn["seed"] % 2
    ys = Xs[:, 0] + 0.3 * rng.randn(n) if reg else np.arange(n) % k
    ws, wt = rng.randint(1, 6, n).astype(float), rng.randint(1, 6, m).astype(float)
    alpha = scn["alpha"]["num"] / scn["alpha"]["den"]
    fits = []

    class R(Ridge):
        def fit(self, X, y, sample_weight=None):
            fits.append((np.array(X), np.array(y), None if sample_weight is None else np.array(sample_weight)))
            return super().fit(X, y, sample_weight)

    class L(LogisticRegression):
        def fit(self, X, y, sample_weight=None):
            fits.append((np.array(X), np.array(y), None if sample_weight is None else np.array(sample_weight)))
            return super().fit(X, y, sample_weight)

    def go(yt):
        fits.clear()
        X, y, sd, p = mixed(scn, Xs, Xt, ys, yt)
        w = np.concatenate([ws, wt])[p] if scn["weights"] else None
        est = jdot(scn, R(alpha=1e-3) if reg else L())
        est.fit(X, y, sample_domain=sd, sample_weight=w)
        o = p
        return est, list(fits), [q for q in o if q < n], [q - n for q in o if q >= n]

    ytv = rng.randn(m) if reg else rng.randint(0, k, m)
    res, err = guarded(lambda: go(ytv))
    ev = dict(ev="mass", err=err, m=m, rows=[], cols=[], a=[], b=[], y=[], yexp=[], w=[], wexp=[], obj=0, best=0, fitrows=[], twin=False)
    if err:
        return [ev]
    est, log, si, ti = res
    a = (ws / ws.sum() if scn["weights"] else np.ones(n) / n)[si]
    b = (wt / wt.sum() if scn["weights"] else np.ones(m) / m)[ti]
    T = np.asarray(est.sol_.plan)
    xs, xt, y = Xs[si], Xt[ti], ys[si]
    S = 10 ** 6
    ev.update(rows=fxl(T.sum(1), S), cols=fxl(T.sum(0), S), a=fxl(a, S), b=fxl(b, S))
    rid = {_key(r): j + 1 for j, r in enumerate(xt)}
    A, Y, W = log[-1]
    ids = [rid.get(_key(r), 0) for r in A]
    ev["fitrows"] = ids
    if reg:
        e = np.zeros(m)
        for i, v in zip(ids, Y):
            e[i - 1] = v
        ev["y"], ev["yexp"] = fxl(e, S / 100), fxl((T.T @ y) / b, S / 100)
        wv = np.ones(m) if W is None else W / W.mean()
        ev["w"], ev["wexp"] = fxl(wv, S / 100), fxl(b * m if scn["weights"] else np.ones(m), S / 100)
    else:
        mass = np.zeros((m, k))
        for i, v, w in zip(ids, Y, W):
            mass[i - 1, int(v)] += w
        exp = T.T @ np.eye(k)[y] * m
        ev["w"], ev["wexp"] = fxl(mass.ravel(), S / 100), fxl(exp.ravel(), S / 100)
    # objective of the final plan against a linear program
    M = ((xs[:, None] - xt[None]) ** 2).sum(2)
    M = M / M.mean()
    C = (1 - alpha) * M
    if len(log) > 1:
        e2 = (R(alpha=1e-3) if reg else L()).fit(log[-2][0], log[-2][1], sample_weight=log[-2][2])
        Ml = (y[:, None] - e2.predict(xt)[None]) ** 2 if reg else -e2.predict_log_proba(xt).T[y]
        C = C + alpha * Ml
    Aeq = np.zeros((n + m, n * m))
    for i in range(n):
        Aeq[i, i * m:(i + 1) * m] = 1
    for j in range(m):
        Aeq[n + j, j::m] = 1
    lp = linprog(C.ravel(), A_eq=Aeq, b_eq=np.concatenate([a, b]), bounds=(0, None), method="highs")
    ev["obj"], ev["best"] = fx((C * T).sum(), S), fx(lp.fun, S)
    twin, terr = guarded(lambda: go(np.full(m, np.nan) if reg else np.full(m, -1)))
    ev["twin"] = not terr and len(twin[1]) == len(log) and all(np.allclose(x[1], z[1]) for x, z in zip(twin[1], log))
    return [ev]


def execute(scn):
    return dict(exchange=run_exchange, gradual=run_gradual, joint=run_joint, mass=run_mass)[scn["ev"]](scn)


# --------------------------------------------------------------- scenarios
DOMS = [([1], [-2]), ([0], [-1]), ([1, 2, 5], [-3, -4]), ([0, 3], [-1])]


def distinct(rng, n, lo=-40, hi=40):
    pool = [v for v in range(lo, hi + 1) if v != 0 and abs(v) != U]
    return rng.sample(pool, n)


def s_exchange(rng, big):
    n, m = rng.randint(2, 8), rng.randint(1, 7)
    mode = rng.choice(["wild", "margin", "sticky", "shrink"])
    rounds = rng.randint(3, 8)
    dec = []
    tl = distinct(rng, m, -7, 7)
    for r in range(rounds):
        s = distinct(rng, n)
        if mode == "wild":
            t = distinct(rng, m)
        elif mode == "margin":
            t = distinct(rng, m, -7, 7)
        elif mode == "sticky":       # labels mostly stay
            t = sorted(distinct(rng, m, -12, 12), key=lambda v: rng.random())
            t = [abs(v) if u > 0 else -abs(v) for v, u in zip(t, tl)]
            if rng.random() < 0.4 and m:
                i = rng.randrange(m)
                t[i] = -t[i]
            while len(set(t)) < m:
                t = [v + rng.choice([1, -1]) * rng.randint(0, 2) for v in t]
                t = [v if v != 0 and abs(v) != U else 17 + i for i, v in enumerate(t)]
        else:
            t = distinct(rng, m, -7 if r < 2 else -40, 7 if r < 2 else 40)
        dec.append(dict(s=s, t=t))
    cl = rng.choice([[0, 1], [-1, 1], [3, 7], [1, 2]])
    return dict(ev="exchange", ys=[rng.choice(cl) for _ in range(n)], m=m, dec=dec, k=rng.choice([1, 1, 2, 3, 5]),
                maxiter=rng.choice([1, 2, 3, 4, 6, 50]), classes=cl, saved=rng.random() < 0.7, saveest=rng.random() < 0.5,
                yt=[rng.choice(cl) for _ in range(m)], yt2=[-1] * m if cl[0] != -1 else [rng.choice(cl) for _ in range(m)])


def s_gradual(rng, big):
    n, m = rng.randint(1, 5), rng.randint(1, 5)
    pts = rng.sample([[a, b] for a in range(-6, 7) for b in range(-6, 7)], n + m)
    S = rng.choice([1, 2, 2, 3, 4, 5])
    while True:     # no two pairs may meet half-way: rows have to name their pair
        mid = [tuple((S - 1) * x + z for x, z in zip(a, b)) for a in pts[:n] for b in pts[n:]]
        if S == 1 or len(set(mid)) == len(mid):
            break
        pts = rng.sample([[a, b] for a in range(-6, 7) for b in range(-6, 7)], n + m)
    cls = []
    for _ in range(S + 1):
        w = [rng.choice([-2, -1, 1, 2, 3]), rng.choice([-2, -1, 0, 1])]
        lo, hi = rng.choice([(0, 1), (1, 0), (2, 5)])
        cls.append(dict(w=w, b=rng.randint(-4, 4), lo=lo, hi=hi))
    return dict(ev="gradual", Xs=pts[:n], Xt=pts[n:], ys=[rng.choice([0, 1]) for _ in range(n)], nsteps=S,
                alpha=rng.choice([dict(num=1, den=1), dict(num=1, den=2), dict(num=1, den=4), dict(num=2, den=1), dict(num=1, den=16)]),
                advanced=rng.random() < 0.4, cls=cls, saveest=rng.random() < 0.6, savedata=rng.random() < 0.6,
                ot=rng.choice(["emd", "sinkhorn"]), reg=rng.choice([0.3, 1.0]), iter=rng.random() < 0.5,
                yt=[rng.choice([0, 1]) for _ in range(m)], yt2=[-1] * m, q=[[rng.randint(-6, 6), rng.randint(-6, 6)] for _ in range(4)])


def s_joint(rng, big):
    n = rng.choice([2, 3, 3, 4])
    kind = rng.choice(["reg", "log", "hinge"])
    pts = rng.sample([[a, b] for a in range(0, 6) for b in range(0, 6)], 2 * n)
    rounds = rng.randint(2, 5)
    if kind == "reg":
        ys = rng.sample(range(-4, 6), n)
        resp = [[rng.randint(-4, 5) for _ in range(n)] for _ in range(rounds)]
        k, labs = 0, []
    else:
        k = rng.choice([2, 2, 3]) if n > 2 else 2
        labs = rng.choice([[0, 1, 2], [1, 2, 3], [2, 5, 9]])[:k]
        ys = list(range(k)) + [rng.randrange(k) for _ in range(n - k)]
        rng.shuffle(ys)
        if kind == "log":
            resp = [[[rng.randint(0, 6) for _ in range(k)] for _ in range(n)] for _ in range(rounds)]
        elif k == 2:
            resp = [[rng.choice([-3, -2, -1, 1, 2, 3]) for _ in range(n)] for _ in range(rounds)]
        else:
            resp = [[[rng.randint(-3, 3) for _ in range(k)] for _ in range(n)] for _ in range(rounds)]
    if rng.random() < 0.3:
        resp[-1] = resp[-2]
    return dict(ev="joint", kind=kind, n=n, Xs=pts[:n], Xt=pts[n:], ys=ys, yt=[rng.choice(ys) for _ in ys], labs=labs,
                resp=resp, alpha=rng.choice([dict(num=1, den=2), dict(num=1, den=4), dict(num=3, den=4), dict(num=1, den=10)]),
                niter=rng.choice([1, 2, 3, 4, 6, 8]), tol=rng.choice([dict(num=1, den=100000 // 97)] + [dict(num=31, den=97)] + [dict(num=1000, den=1)]),
                nodomain=rng.random() < 0.15)


def s_mass(rng, big):
    return dict(ev="mass", kind=rng.choice(["reg", "class"]), n=rng.randint(6, 14), m=rng.randint(3, 12), seed=rng.randrange(10**6),
                alpha=rng.choice([dict(num=1, den=2), dict(num=1, den=10), dict(num=3, den=4)]), niter=rng.choice([1, 1, 2, 5]),
                tol=dict(num=1, den=100000), weights=rng.random() < 0.6)


def scenarios(chk):
    rng = random.Random(chk.seed * 7103 + int(chk.prop[1:]))
    plan = {"C20": [(s_exchange, 900, 15000)], "C21": [(s_gradual, 700, 9000)],
            "C22": [(s_joint, 700, 9000), (s_mass, 120, 1500)]}[chk.prop]
    out = []
    for f, q, t in plan:
        for _ in range(chk.pick(q, t)):
            s = f(rng, chk.thorough)
            s["sdom"], s["tdom"] = rng.choice(DOMS)
            s["shuffle"] = rng.randrange(10**6)
            # domains may be left out when masked labels tell them
            s.setdefault("nodomain", rng.random() < 0.1 and -1 not in s.get("classes", []))
            out.append(s)
    return out


def corrupt(s, evs):
    e = copy.deepcopy(evs[0])
    if e["err"]:
        return None
    if e["ev"] == "exchange":
        if not e["fits"][-1]["ytgt"]:
            return None
        a, b = e["classes"]
        e["fits"][-1]["ytgt"][0] = a + b - e["fits"][-1]["ytgt"][0]
    elif e["ev"] == "gradual":
        e["fits"][-1]["X"][0][0] += 1
    elif e["ev"] == "joint":
        e["tgl"][-1] += 3
    else:
        e["obj"] += 1000
    return [e]


def check(chk):
    chk.mc("MC_SelfTraining.tla", chk.pick("MC_SelfTraining.cfg", "MC_SelfTraining_T.cfg"),
           must_cover=("FirstRound", "Exchange", "Finish") if chk.prop == "C20" else ("Plan", "Fit"), workers=6)
    chk.judge("TraceSelfTraining.tla", chk.execute(execute, scenarios(chk)), corrupt=corrupt)

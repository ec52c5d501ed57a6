"""C36: importance weights equal the ratios that define them."""
import random

import numpy as np

from .core import digest, fx, fxl, guarded

ASSUMPTIONS = ["integer rows", "sample covariances of full rank for Gaussian weights", "one nearest neighbour for neighbour counts"]


def trace_module(scn):
    return "TraceRatios.tla"


class CountClf:
    """Probability of the target: counted at the same location, one added to each side."""

    def __new__(cls):
        from sklearn.base import BaseEstimator, ClassifierMixin

        class Count(ClassifierMixin, BaseEstimator):
            def fit(self, X, y):
                self.classes_ = np.unique(y)
                self.rows_ = [(tuple(r), int(v)) for r, v in zip(np.asarray(X).tolist(), y)]
                return self

            def predict_proba(self, X):
                out = []
                for r in np.asarray(X).tolist():
                    t = sum(1 for a, v in self.rows_ if a == tuple(r) and v == 1) + 1
                    s = sum(1 for a, v in self.rows_ if a == tuple(r) and v == 0) + 1
                    out.append([s / (s + t), t / (s + t)])
                return np.array(out)
        return Count()


def make(scn):
    from skada import _reweight as R
    from sklearn.neighbors import KernelDensity
    k = scn["ev"]
    if k == "nn":
        return R.NearestNeighborReweightAdapter(laplace_smoothing=bool(scn["smooth"]), algorithm=scn["algorithm"])
    if k == "density":
        if scn["flat"]:
            return R.DensityReweightAdapter(KernelDensity(kernel="tophat", bandwidth=scn["g"] / 2))
        return R.DensityReweightAdapter(KernelDensity(bandwidth=2 / np.sqrt(scn["g"])))   # exp(-d2/(2h2)), h2 = 4/g
    if k == "odds":
        return R.DiscriminatorReweightAdapter(CountClf())
    if k == "gauss":
        return R.GaussianReweightAdapter(reg=scn["reg"])
    if k == "kmm":
        return R.KMMReweightAdapter(kernel=scn["kernel"], gamma=None if scn["rule"] == "auto" else scn["g"] / 8, degree=2, coef0=scn["g"], B=scn["B"],
                                    eps=None if scn["eps"] < 0 else scn["eps"] / 100, smooth_weights=scn["smoothed"], **(dict(solver="scipy", tol=1e-9, max_iter=3000) if scn["sharp"] else dict(solver="frank-wolfe")))
    if k == "kliep":
        return kliep(scn, ([scn["rule"]] if scn["seed"] % 2 else scn["rule"]) if scn["rule"] else ([g / 8 for g in scn["gammas"]] if scn["gammas"] else scn["g"] / 8))
    return R.MMDTarSReweightAdapter(gamma=scn["g"] / 8)


def kliep(scn, gamma):
    from skada import _reweight as R
    return R.KLIEPReweightAdapter(gamma=gamma, cv=2, n_centers=scn["centers"], tol=1e-9, max_iter=20000, random_state=scn["seed"])


def stack(scn, src, tgt, ys, yt):
    """Interleave source and target rows as the scenario says."""
    rng = random.Random(scn["seed"])
    rows = [(r, y, rng.choice(scn["sd"]), 0) for r, y in zip(src, ys)] + [(r, y, rng.choice(scn["td"]), 1) for r, y in zip(tgt, yt)]
    idx = list(range(len(rows)))
    rng.shuffle(idx)
    X = np.array([rows[i][0] for i in idx], float)
    return X, np.array([rows[i][1] for i in idx]), np.array([rows[i][2] for i in idx]), [idx.index(i) for i in range(len(rows))]


def own_order(scn):
    """Place of each fitted source row among the source rows as they were given."""
    pos = stack(scn, scn["xs"], scn["xt"], scn["y"], scn["ty"])[3][:len(scn["xs"])]
    return [sorted(pos).index(p) for p in pos]


def execute(scn):
    xs, xt, q, tq = scn["xs"], scn["xt"], scn["q"], scn["tq"]
    e = dict(ev=scn["ev"], xs=xs, xt=xt, q=q, tq=tq, ntq=len(tq), own=scn["own"], w=[], rest=[], lw=[], wt=[], T=[], changed=False, fitted=False,
             finite=False, smooth=scn["smooth"], flat=scn["flat"], g=scn["g"], half=scn["reg"] == .5, full=scn["full"], slack=5, offered=True,
             y=scn["y"], ty=scn["ty"], qy=scn["qy"], copies=scn["copies"],
             rule=scn["rule"], cvs=[], kernel=scn["kernel"], B=scn["B"], eps=scn["eps"], smoothed=scn["smoothed"], fit=[], same=False, again=True, gtol=20 if scn["sharp"] else 300)

    def go():
        ad = make(scn)
        X, y, sd, _ = stack(scn, xs, xt, scn["y"], scn["ty"])
        ym = np.where(sd < 0, -1, y)
        before = digest(X, ym, sd)
        if scn["own"]:
            _, p = ad.fit_transform(X, ym, sample_domain=sd)
            w, pos = np.asarray(p["sample_weight"], float), stack(scn, xs, xt, scn["y"], scn["ty"])[3]
            e["changed"] = before != digest(X, ym, sd)
        else:
            ad.fit(X, ym, sample_domain=sd)
            X2, y2, sd2, pos = stack(scn, q, tq, scn["qy"], [1] * len(tq))
            y2 = np.where(sd2 < 0, -1, y2)
            w = np.asarray(ad.compute_weights(X2, y2, sample_domain=sd2), float)
            e["changed"] = before != digest(X, ym, sd)
        e["finite"] = bool(np.isfinite(w).all())
        e["w"] = fxl(w[pos[:len(q)]], 1000)
        e["rest"] = fxl(w[pos[len(q):]], 1000)
        if scn["ev"] == "gauss":
            e["lw"] = fxl(np.log(np.maximum(w[pos[:len(q)]], 1e-300)), 10000)
        if scn["ev"] in ("density", "kliep", "kmm"):
            g = scn["g"]
            if scn["rule"] == "auto":
                g = 8 / len(xs[0])
            elif scn["rule"] == "scale":
                v = np.var(np.array(xs + xt, float))
                g = 8 / (len(xs[0]) * v) if v else 8
            if scn["gammas"]:
                best = ad.best_gamma_
                e["offered"] = best in [v / 8 for v in scn["gammas"]]
                e["g"] = g = int(round(best * 8))
            top = 1 + max(sum((a - b) ** 2 for a, b in zip(u, v)) for u in xs + xt + q for v in xs + xt + q)
            e["T"] = [(10000 if 4 * d < g * g else 0) if scn["flat"] else fx(np.exp(-g * d / 8), 10000) for d in range(top)]
        if scn["ev"] == "kmm":
            e["same"] = scn["own"] or np.array_equal(X[sd >= 0], X2[sd2 >= 0])
            e["fit"] = fxl(ad.source_weights_[[p for p in own_order(scn)]], 1000)
        if scn["ev"] == "kliep" and scn["gammas"]:
            # each candidate on its own: fitted on one half of the targets, judged on the other half, in the order they come
            from sklearn.model_selection import KFold
            Xt = X[sd < 0]
            for cand in scn["gammas"]:
                tot = []
                for train, test in KFold(2).split(Xt):
                    a = kliep(scn, cand / 8).fit(np.vstack([X[sd >= 0], Xt[train]]), None, sample_domain=np.array([1] * len(xs) + [-2] * len(train)))
                    tot.append(np.mean(np.log(a.compute_weights(Xt[test], None, sample_domain=np.ones(len(test), int)) + 1e-16)))
                e["cvs"].append(dict(g=cand, v=fx(np.mean(tot), 10000)))
        if scn["ev"] == "kliep":
            e["wt"] = fxl(ad.compute_weights(np.array(xt, float), None, sample_domain=np.ones(len(xt), int)), 100000)
            e["wt"] = [max(v, 100) for v in e["wt"]]
            np.random.seed(scn["seed"] + len(xs))
            other = make(scn).fit(X, ym, sample_domain=sd)
            e["again"] = np.array_equal(*(a.compute_weights(np.array(xt, float), None, sample_domain=np.ones(len(xt), int)) for a in (ad, other)))
        inner = ad.weight_estimator if scn["ev"] == "density" else ad.domain_classifier if scn["ev"] == "odds" else None
        e["fitted"] = inner is not None and any(a.endswith("_") and not a.startswith("_") for a in vars(inner))
    _, e["err"] = guarded(go, 60)
    return [e]


def rows(rng, n, d, hi, lo=0):
    return [[rng.randint(lo, hi) for _ in range(d)] for _ in range(n)]


def singular(S):
    return np.linalg.matrix_rank(np.array(S) - np.array(S[0])) < len(S[0])


def scenario(rng, ev):
    d = rng.randint(1, 2)
    ns, nt = rng.randint(2, 7), rng.randint(1, 7)
    s = dict(ev=ev, seed=rng.randint(0, 9999), sd=rng.choice([[1], [1, 3], [2, 5, 4]]), td=rng.choice([[-2], [-2, -4], [-1, -7]]), own=rng.random() < .6,
             smooth=0, flat=False, g=1, reg=None, gammas=[], centers=100, full=True, algorithm="auto", copies=False,
             rule="", kernel="rbf", B=1000, eps=-1, smoothed=False, sharp=True)
    s["xs"], s["xt"] = rows(rng, ns, d, 4), rows(rng, nt, d, 5)
    s["y"], s["ty"] = [1] * ns, [1] * nt
    if ev == "nn":
        s["smooth"], s["algorithm"] = rng.randint(0, 1), rng.choice(["auto", "brute", "kd_tree", "ball_tree"])
        hi = rng.choice([4, 30])
        s["xs"], s["xt"] = rows(rng, ns, d, hi), rows(rng, nt, d, hi)
    elif ev == "density":
        s["flat"] = rng.random() < .5
        s["g"] = rng.choice([3, 5, 7]) if s["flat"] else rng.choice([1, 2, 4])
        if rng.random() < .3:
            s["xt"] = [[v + rng.choice([0, 9]) for v in r] for r in s["xt"]] if s["flat"] else s["xt"]
    elif ev == "odds":
        s["xs"], s["xt"] = rows(rng, ns, 1, 3), rows(rng, nt, 1, 3)
    elif ev == "gauss":
        ns, nt = rng.randint(3, 6), rng.randint(3, 6)
        s["reg"] = rng.choice([None, 0., .5])
        s["xs"], s["xt"] = rows(rng, ns, d, 3), rows(rng, nt, d, 3)
        while singular(s["xs"]) or singular(s["xt"]):
            s["xs"], s["xt"] = rows(rng, ns, d, 3), rows(rng, nt, d, 3)
        s["y"], s["ty"] = [1] * ns, [1] * nt
    elif ev == "kliep":
        ns, nt = rng.randint(2, 7), rng.randint(2, 7)
        s["xs"], s["xt"] = rows(rng, ns, d, 3), rows(rng, nt, d, 3)
        s["y"], s["ty"] = [1] * ns, [1] * nt
        s["g"] = rng.choice([1, 2, 4])
        s["centers"] = rng.choice([100, nt, nt + 1]) if rng.random() < .8 else rng.randint(1, nt)
        s["full"] = s["centers"] >= nt
        if rng.random() < .3:
            s["seed"] = 0
        if nt >= 4 and rng.random() < .3:
            s["gammas"] = rng.sample([1, 2, 4, 8, 16], rng.choice([2, 2, 3]))
        elif rng.random() < .4:
            s["rule"] = rng.choice(["auto", "scale"])
    elif ev == "kmm":
        s["xs"], s["xt"] = rows(rng, ns, d, 3), rows(rng, nt, d, 4)
        s.update(kernel=rng.choice(["rbf", "rbf", "linear", "poly"]), g=rng.choice([1, 2, 4, 8]), rule=rng.choice(["", "", "auto"]), B=rng.choice([2, 4, 1000]), eps=rng.choice([-1, -1, 10, 50]),
                 smoothed=rng.random() < .3, sharp=rng.random() < .7)
        if s["kernel"] == "poly":
            s.update(g=8, rule="", sharp=True)
            s["coef0"] = 8
    else:
        ncl = rng.randint(2, 3)
        labels = rng.sample([0, 1, 2, 5, 7], ncl)
        cells = {c: rows(rng, rng.randint(1, 2), d, 3, 0) for c in labels}
        cells = {c: [[v + 8 * k for v in r] for r in rs] for k, (c, rs) in enumerate(cells.items())}
        s["xs"] = [r for c in labels for _ in range(rng.randint(1, 3)) for r in cells[c]]
        s["y"] = []
        s["xs"] = []
        s["xt"], s["ty"] = [], []
        for c in labels:
            a, b = rng.randint(1, 3), rng.randint(0 if c != labels[0] else 1, 3)
            s["xs"] += cells[c] * a
            s["y"] += [c] * (len(cells[c]) * a)
            s["xt"] += cells[c] * b
            s["ty"] += [c] * (len(cells[c]) * b)
        s["g"] = rng.choice([1, 4, 8])
        s["copies"] = True
    if s["own"]:
        s["q"], s["qy"], s["tq"] = s["xs"], s["y"], s["xt"]
    elif not s["flat"] and rng.random() < .4:   # the fitted source rows in another order
        pick = rng.sample(range(len(s["xs"])), len(s["xs"]))
        s["q"], s["qy"], s["tq"] = [s["xs"][i] for i in pick], [s["y"][i] for i in pick], rng.sample(s["xt"], len(s["xt"]))
    elif ev == "tars":
        pick = [rng.randrange(len(s["xs"])) for _ in range(rng.randint(1, 5))]
        s["q"], s["qy"], s["tq"] = [s["xs"][i] for i in pick], [s["y"][i] for i in pick], s["xt"][: rng.randint(0, len(s["xt"]))]
    else:
        s["q"] = [list(rng.choice(s["xs"] + ([] if s["flat"] else s["xt"]))) for _ in range(rng.randint(1, 6))]
        s["qy"] = [1] * len(s["q"])
        s["tq"] = [list(rng.choice(s["xs"] + s["xt"])) for _ in range(rng.randint(1 if ev == "nn" else 0, 5))]
    return s


def corrupt(s, ev):
    e = dict(ev[0])
    if e["err"] or not e["w"] or len(e["w"]) < 2 or e["ev"] in ("kliep", "gauss", "kmm"):
        return None
    e["w"] = [e["w"][0] + 700] + e["w"][1:]
    return [e]


def check(chk):
    rng = random.Random(chk.seed * 1000 + 36)
    chk.mc("MC_Ratios.tla", "MC_Ratios_T.cfg" if chk.thorough else "MC_Ratios.cfg", workers=8, must_cover=["Source", "Target"])
    chk.mc_refuted("MC_Ratios.tla", "MC_Ratios_Bad.cfg")
    k = chk.pick(1, 12)
    n = dict(nn=250, density=250, odds=150, gauss=250, kliep=150, tars=150, kmm=250)
    scns = [scenario(rng, ev) for ev in n for _ in range(n[ev] * k)]
    rng.shuffle(scns)
    chk.judge("TraceRatios.tla", chk.execute(execute, scns, chunk=16), corrupt=corrupt)

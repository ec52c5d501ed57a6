"""C09-C12: adapters, executed on interleaved domains."""
import copy
import random
import warnings

import numpy as np

from .core import fx, guarded

warnings.simplefilter("ignore")
ASSUMPTIONS = [
    "continuous random inputs have a unique optimal plan; exact answers are used on one-dimensional integer data",
    "values are compared after scaling to integers with a tolerance per adapter",
    "eigenvector-based embeddings are compared up to the sign of a column",
]


def trace_module(scn):
    return "TraceAdapters.tla"


SC = 10000


def enc(a, scale=SC):
    a = np.asarray(a, dtype=float)
    a = a.reshape(a.shape[0], -1)
    return [[fx(v, scale) for v in r] for r in a]


def adapters():
    import skada as s
    return {
        # name: (factory, kind, tol (in 1/SC), sign, multi-domain, needs y)
        "ot": (lambda: s.OTMappingAdapter(), "ot", 2, False),
        "ot_l1": (lambda: s.OTMappingAdapter(metric="euclidean", norm="max"), "ot", 2, False),
        "entropic": (lambda: s.EntropicOTMappingAdapter(reg_e=1.0), "ot", 5, False),
        "lpl1": (lambda: s.ClassRegularizerOTMappingAdapter(norm="lpl1"), "ot", 20, False),
        "l1l2": (lambda: s.ClassRegularizerOTMappingAdapter(norm="l1l2"), "ot", 50, False),
        "linear": (lambda: s.LinearOTMappingAdapter(), "ot", 5, False),
        "linear_nobias": (lambda: s.LinearOTMappingAdapter(bias=False), "ot", 5, False),
        "monge": (lambda: s.MultiLinearMongeAlignmentAdapter(), "map", 5, False),
        "coral": (lambda: s.CORALAdapter(), "map", 5, False),
        "coral_reg": (lambda: s.CORALAdapter(reg=0.1), "map", 5, False),
        "coral_centered": (lambda: s.CORALAdapter(reg=0.1, assume_centered=True), "map", 5, False),
        "mmdls": (lambda: s.MMDLSConSMappingAdapter(gamma=1e-1, max_iter=20), "map", 30, False),
        "sa": (lambda: s.SubspaceAlignmentAdapter(n_components=2), "sub", 5, True),
        "sa_none": (lambda: s.SubspaceAlignmentAdapter(), "sub", 5, True),
        "tca": (lambda: s.TransferComponentAnalysisAdapter(n_components=2), "sub", 50, True),
        "tca_lin": (lambda: s.TransferComponentAnalysisAdapter(n_components=1, kernel="linear"), "sub", 50, True),
        "tjm": (lambda: s.TransferJointMatchingAdapter(n_components=1), "sub", 300, True),
        "tjm_lin": (lambda: s.TransferJointMatchingAdapter(n_components=1, kernel="linear", max_iter=3), "sub", 300, True),
        "tsl_pca": (lambda: s.TransferSubspaceLearningAdapter(n_components=2, base_method="pca", max_iter=5), "sub", 50, True),
        "tsl_flda": (lambda: s.TransferSubspaceLearningAdapter(n_components=1, base_method="flda", max_iter=5), "sub", 50, True),
        "density": (lambda: s.DensityReweightAdapter(), "weight", 2, False),
        "density_forest": (lambda: s.DensityReweightAdapter(weight_estimator=kde()), "weight", 2, False),
        "gauss": (lambda: s.GaussianReweightAdapter(), "weight", 2, False),
        "gauss_reg": (lambda: s.GaussianReweightAdapter(reg=0.3), "weight", 2, False),
        "discr": (lambda: s.DiscriminatorReweightAdapter(), "weight", 20, False),
        "discr_nb": (lambda: s.DiscriminatorReweightAdapter(nb()), "weight", 20, False),
        "kliep": (lambda: s.KLIEPReweightAdapter(gamma=0.5, random_state=0), "weight", 0, False),
        "kliep_cv": (lambda: s.KLIEPReweightAdapter(gamma=[0.1, 1.0, "scale"], cv=3, random_state=0), "weight", 0, False),
        "nn": (lambda: s.NearestNeighborReweightAdapter(), "weight", 1, False),
        "nn_lap": (lambda: s.NearestNeighborReweightAdapter(laplace_smoothing=True), "weight", 1, False),
        "kmm": (lambda: s.KMMReweightAdapter(gamma=0.3), "weight", 100, False),
        "kmm_smooth": (lambda: s.KMMReweightAdapter(gamma=0.3, smooth_weights=True), "weight", 300, False),
        "kmm_lin": (lambda: s.KMMReweightAdapter(gamma=0.3, B=5, solver="scipy"), "weight", 100, False),
        "mmdtars": (lambda: s.MMDTarSReweightAdapter(gamma=0.5), "weight", 100, False),
        "otprop": (lambda: s.OTLabelPropAdapter(), "label", 1, False),
        "otprop_reg": (lambda: s.OTLabelPropAdapter(reg=0.1), "label", 5, False),
        "jcpot": (lambda: s.JCPOTLabelPropAdapter(reg=0.1), "label", 1, False),
    }


def kde():
    from sklearn.neighbors import KernelDensity
    return KernelDensity(bandwidth=0.7, kernel="gaussian")


def nb():
    from sklearn.naive_bayes import GaussianNB
    return GaussianNB()


def data(scn):
    """interleaved two-cluster data: label = cluster on the source"""
    rng = np.random.RandomState(scn["seed"])
    ns, nt = scn["ns"], scn["nt"]
    n = ns + nt
    D = np.r_[np.array(scn["slabs"])[np.arange(ns) % len(scn["slabs"])],
              np.array(scn["tlabs"])[np.arange(nt) % len(scn["tlabs"])]]
    for side in (D[:ns], D[ns:]):        # uneven domains, none nearly empty
        k = rng.randint(0, 3)
        side[:k] = side[0]
    lab = np.r_[np.arange(ns) % 2, np.arange(nt) % 2]
    if len(scn["slabs"]) > 1:      # every source domain sees every class
        for v in scn["slabs"]:
            i = np.where(D[:ns] == v)[0]
            lab[i] = np.arange(len(i)) % 2
    if scn.get("imbalance"):       # all targets lie by cluster 1
        lab[ns:] = 1
    X = rng.randn(n, scn.get("dim", 2)) * scn.get("spread", 0.5) + scn.get("gap", 2.0) * lab[:, None]
    X[D < 0] += scn.get("shift", 0.4)
    q = rng.permutation(n) if scn.get("mix", True) else np.arange(n)
    X, D, lab = X[q], D[q], lab[q]
    if scn.get("reg"):
        y = np.round(X.sum(1) + rng.randn(n), 2) + 0.003
    else:
        y = np.array(scn.get("classes", [0, 1]))[lab]
    ym = y.astype(float) if scn.get("reg") else y.copy()
    ym[D < 0] = np.nan if scn.get("reg") else -1
    return X.astype(scn.get("dtype", "float64")), ym, D, lab


def perm_of(scn, n):
    return np.random.RandomState(scn["seed"] + 77).permutation(n)


def out_of(res):
    return res[0] if isinstance(res, tuple) else res


def execute(scn):
    return globals()["ex_" + scn["ev"]](scn)


# ------------------------------------------------------------- C09
def pipe(scn, name):
    from sklearn.linear_model import LogisticRegression
    from sklearn.preprocessing import StandardScaler

    from skada import PerDomain, make_da_pipeline
    fac = adapters()[name][0]
    lr = LogisticRegression().set_fit_request(sample_weight=True)
    steps = [fac(), lr]
    if scn["pipe"] == "scaled":
        steps = [StandardScaler()] + steps
    elif scn["pipe"] == "perdomain":
        steps = [PerDomain(StandardScaler())] + steps
    elif scn["pipe"] == "last":
        steps = [StandardScaler(), fac()]
    return make_da_pipeline(*steps)


def ex_gate(scn):
    name = scn["name"]
    X, y, D, _ = data(scn)
    rng = np.random.RandomState(scn["seed"] + 5)
    evs = []
    if scn["pipe"]:
        m = pipe(scn, name)
        m.fit(X, y, sample_domain=D)
        f = m.transform if scn["pipe"] == "last" else getattr(m, scn["method"])
    else:
        m = adapters()[name][0]()
        m.fit_transform(X, y, sample_domain=D)
        f = m.transform
    tpos = np.where(D < 0)[0]
    spos = np.where(D >= 0)[0]
    sel = dict(mixed=np.arange(len(D)), target=tpos, source=spos,
               one=np.sort(np.r_[tpos, rng.choice(spos, 1)]), some=np.sort(rng.choice(len(D), 5, replace=False)))
    outs = {}
    for which, idx in sel.items():
        for allow in (None, False, True):
            kw = {} if allow is None else dict(allow_source=allow)
            r, err = guarded(lambda: f(X[idx], sample_domain=D[idx], **kw))
            evs.append(dict(ev="gate", name=name, D=D[idx].tolist(), allow=bool(allow), err=err,
                            nout=-1 if err else len(r)))
            if not err:
                outs[which, bool(allow)] = np.asarray(r)
    if not scn["pipe"] or scn["pipe"] != "last":
        r, err = guarded(lambda: f(X[tpos]))     # nothing said: target rows
        if name != "monge" and scn["pipe"] != "perdomain":
            evs.append(dict(ev="gate", name=name, D=[-1] * len(tpos), allow=False, err=err,
                            nout=-1 if err else len(r)))
    if ("target", False) in outs and not scn["pipe"].startswith("perdomain"):
        k = int(rng.choice(tpos))
        r, err = guarded(lambda: f(X[[k]], sample_domain=D[[k]]))
        pos = int(np.where(tpos == k)[0][0]) + 1
        evs.append(dict(ev="rows", what="alone", name=name, D=D[tpos].tolist(), pos=[pos], err=err,
                        a=enc(outs["target", False]), b=enc(r) if not err else [], tol=5, sign=False))
    if ("mixed", True) in outs and ("target", False) in outs:
        evs.append(dict(ev="rows", what="target_only", name=name, D=D.tolist(), pos=(tpos + 1).tolist(), err="",
                        a=enc(outs["mixed", True]), b=enc(outs["target", False]), tol=5, sign=False))
    return evs


# ------------------------------------------------------------- C10
def ex_perm(scn):
    name = scn["name"]
    fac, kind, tol, sign = adapters()[name]
    X, y, D, _ = data(scn)
    p = perm_of(scn, len(D))
    if scn.get("onlyside"):
        p = np.r_[np.where(D >= 0)[0], np.where(D < 0)[0]] if scn["onlyside"] == "stack" else p
    evs = []

    def two():
        a = out_of(fac().fit_transform(X, y, sample_domain=D))
        b = out_of(fac().fit_transform(X[p], y[p], sample_domain=D[p]))
        return a, b

    r, err = guarded(two)
    a, b = r if not err else (np.zeros((0, 1)), np.zeros((0, 1)))
    evs.append(dict(ev="rows", what="permuted", name=name, D=D.tolist(), pos=(p + 1).tolist(), err=err,
                    a=enc(a), b=enc(b), tol=tol, sign=sign))
    if kind == "ot" and not err:
        evs.append(dict(ev="targets", name=name, D=D.tolist(), err="", out=enc(a), X=enc(X)))
    if kind in ("ot", "map", "sub") and not err:
        # transform of the training rows in another order follows the rows
        ad = fac()
        fa, e1 = guarded(lambda: out_of(ad.fit_transform(X, y, sample_domain=D)))
        fb, e2 = guarded(lambda: ad.transform(X[p], sample_domain=D[p], allow_source=True))
        evs.append(dict(ev="rows", what="retransformed", name=name, D=D.tolist(), pos=(p + 1).tolist(), err=e1 or e2,
                        a=enc(fa), b=enc(fb) if not e2 else [], tol=max(tol, 5), sign=False)
                   ) if not (kind == "ot" and name != "linear" and name != "linear_nobias") else None
        # new target rows alone
        rng = np.random.RandomState(scn["seed"] + 9)
        Xn = X[D < 0] + 0.1 * rng.randn((D < 0).sum(), X.shape[1])
        dn = D[D < 0]
        q = rng.permutation(len(dn))
        fa, e1 = guarded(lambda: ad.transform(Xn, sample_domain=dn))
        fb, e2 = guarded(lambda: ad.transform(Xn[q], sample_domain=dn[q]))
        evs.append(dict(ev="rows", what="new_rows", name=name, D=dn.tolist(), pos=(q + 1).tolist(), err=e1 or e2,
                        a=enc(fa) if not e1 else [], b=enc(fb) if not e2 else [], tol=5, sign=False))
    return evs


# ------------------------------------------------------------- C11
def ex_weights(scn):
    name = scn["name"]
    fac, _, tol, _ = adapters()[name]
    X, y, D, lab = data(scn)
    X0 = X.copy()
    r, err = guarded(lambda: fac().fit_transform(X, y, sample_domain=D))
    evs = []
    near, far = [], []
    if scn.get("imbalance"):
        near = (np.where((D >= 0) & (lab == 1))[0] + 1).tolist()
        far = (np.where((D >= 0) & (lab == 0))[0] + 1).tolist()
    w = np.zeros(0) if err else np.asarray(r[1]["sample_weight"], dtype=float)
    e = dict(ev="weights", name=name, D=D.tolist(), err=err, near=near, far=far,
             w=[fx(v, 1000) for v in w], neg=[bool(v < -1e-9) for v in w],
             xsame=bool(err or np.array_equal(r[0], X0)))
    if not err and np.nanmax(np.abs(w)) > 1e6:       # keep sums within TLC's integers
        m = np.nanmax(np.abs(w))
        e["w"] = [fx(v / m, 1e6) if np.isfinite(v) else fx(v) for v in w]
    evs.append(e)
    if err:
        return evs
    p = perm_of(scn, len(D))
    if tol:
        r2, err2 = guarded(lambda: fac().fit_transform(X[p], y[p], sample_domain=D[p])[1]["sample_weight"])
        big = max(1.0, np.max(np.abs(w)) / 100)
        evs.append(dict(ev="rows", what="permuted", name=name, D=D.tolist(), pos=(p + 1).tolist(), err=err2,
                        a=enc(w / big), b=enc(r2 / big) if not err2 else [], tol=tol, sign=False))
    if not name.startswith("kmm"):
        # fitted once, asked in two orders
        ad = fac()

        def two():
            ad.fit(X, y, sample_domain=D)
            return (ad.compute_weights(X, y, sample_domain=D),
                    ad.compute_weights(X[p], y[p], sample_domain=D[p]))

        r3, err3 = guarded(two)
        big = 1.0 if err3 else max(1.0, np.max(np.abs(r3[0])) / 100)
        evs.append(dict(ev="rows", what="reordered", name=name, D=D.tolist(), pos=(p + 1).tolist(), err=err3,
                        a=enc(r3[0] / big) if not err3 else [], b=enc(r3[1] / big) if not err3 else [],
                        tol=max(tol, 5), sign=False))
    return evs


# ------------------------------------------------------------- C12
def even(name, lab, D):
    """the two clusters hold the same share of both sides, so the optimal plan keeps clusters apart"""
    S, T = lab[D >= 0], lab[D < 0]
    return name == "jcpot" or S.sum() * len(T) == T.sum() * len(S)


def ex_labels(scn):
    name = scn["name"]
    fac, _, tol, _ = adapters()[name]
    X, y, D, lab = data(scn)
    if scn.get("true_targets"):     # unmasked labels may reach a label propagation step
        y = np.where(D < 0, y[D >= 0][0], y).astype(scn.get("ydtype", y.dtype))
    X0 = X.copy()
    reg = bool(scn.get("reg"))
    sc = 1000 if reg else 1
    w = np.random.RandomState(scn["seed"] + 3).randint(1, 9, len(D)) / 4.0
    kw = (lambda i: dict(sample_weight=w[i])) if scn.get("weighted") else (lambda i: {})  # noqa: E731
    r, err = guarded(lambda: fac().fit_transform(X, y, sample_domain=D, **kw(slice(None))))
    out = [] if err else [fx(v, sc) for v in np.asarray(r[1], dtype=float)]
    evs = [dict(ev="labels", name=name, D=D.tolist(), err=err, reg=reg, tol=2,
                y=[fx(v, sc) for v in y], out=out,
                xsame=bool(err or np.array_equal(r[0], X0)),
                dsame=bool(err or "sample_domain" not in r[2] or np.array_equal(r[2]["sample_domain"], D)),
                cluster=(lab.tolist() if scn.get("separated") and not reg and "weighted" not in scn and even(name, lab, D) else []))]
    if err:
        return evs
    p = perm_of(scn, len(D))
    r2, err2 = guarded(lambda: fac().fit_transform(X[p], y[p], sample_domain=D[p], **kw(p))[1])
    evs.append(dict(ev="rows", what="permuted", name=name, D=D.tolist(), pos=(p + 1).tolist(), err=err2,
                    a=[[v] for v in out], b=[[fx(v, sc)] for v in r2] if not err2 else [], tol=tol, sign=False))
    return evs


# ------------------------------------------------------------- exact answers on the line
def ex_line(scn):
    import skada as s
    rng = np.random.RandomState(scn["seed"])
    what, ns, nt = scn["what"], scn["ns"], scn["nt"]
    n = ns + nt
    D = rng.permutation(np.r_[np.full(ns, scn["slab"]), np.full(nt, scn["tlab"])])
    S, T = np.where(D >= 0)[0], np.where(D < 0)[0]
    x = np.zeros(n, int)
    if what == "neighbors":
        # sources on multiples of 20, targets never half way
        x[S] = rng.choice(np.arange(10), ns, replace=False) * 20
        x[T] = rng.choice(np.arange(200), nt, replace=False)
        x[T] += (x[T] % 20 == 10)
        x[T] += (x[T] % 10 == 0)
    elif what == "affine":
        base = rng.choice(np.arange(-12, 13), ns, replace=False)
        x[S] = base * scn["den"] + scn["off"]
        x[T] = rng.permutation(base) * scn["num"]
    else:
        x[S] = rng.choice(np.arange(-40, 41), ns, replace=False)
        x[T] = rng.choice(np.arange(-40, 41), nt, replace=False) + scn["off"]
    X = x.astype(scn.get("dtype", "float64"))[:, None]
    y = rng.randint(0, 3, n)
    if what == "propagate":
        y = 2 * rng.randint(0, 20, n) + 1
    if what == "classes":
        y = np.array([2, 5, 9])[y]
    e = dict(ev="line", what=what, name=scn["name"], D=D.tolist(), x=x.tolist(), y=y.tolist(), scale=1000, tol=2,
             lap=0, num=scn.get("num", 1), den=scn.get("den", 1), centred=False)
    ym = y / 2.0 if what == "propagate" else y.copy()
    ym[D < 0] = np.nan if what == "propagate" else -1
    nm = scn["name"]
    if what == "map":
        ad = s.OTMappingAdapter(metric=scn["metric"])
        f = lambda: ad.fit_transform(X, ym, sample_domain=D)[:, 0]  # noqa: E731
    elif what in ("propagate", "classes"):
        ad = s.OTLabelPropAdapter()
        f = lambda: ad.fit_transform(X, ym, sample_domain=D)[1]  # noqa: E731
        e["scale"] = 500 if what == "propagate" else 1   # y is carried doubled
    elif what == "neighbors":
        ad = s.NearestNeighborReweightAdapter(laplace_smoothing=scn["lap"])
        e["lap"] = int(scn["lap"])
        f = lambda: ad.fit_transform(X, ym, sample_domain=D)[1]["sample_weight"]  # noqa: E731
    else:
        e["tol"] = 5
        if nm == "coral":
            ad = s.CORALAdapter(reg=None)
            e["centred"] = True
        elif nm == "linear":
            ad = s.LinearOTMappingAdapter(reg=1e-10)
        f = lambda: ad.fit_transform(X, ym, sample_domain=D)[:, 0]  # noqa: E731
    r, err = guarded(f)
    sc = {"propagate": 1000, "classes": 1}.get(what, 1000)
    e["out"] = [] if err else [fx(v, sc) for v in r]
    e["err"] = err
    return [e]


# ------------------------------------------------------------- scenarios
SIDES = [([1], [-2]), ([1], [-1]), ([0], [-3]), ([1, 2], [-3]), ([1, 2], [-3, -4]), ([0, 3], [-1])]


def base(rng, seed, **kw):
    sl, tl = rng.choice(SIDES)
    return dict(seed=seed, ns=rng.choice([8, 12, 15]), nt=rng.choice([8, 12, 14]), slabs=sl, tlabs=tl, **kw)


def scenarios(chk):
    rng = random.Random(chk.seed * 31337 + int(chk.prop[1:]))
    A = adapters()
    out = []
    reps = chk.pick(3, 25)
    for r in range(reps):
        for name, (_, kind, _, _) in A.items():
            s = base(rng, rng.randrange(10**6))
            slow = name.startswith("tsl") or name == "mmdls"
            if name == "jcpot":
                s["ns"] = 16
            if chk.prop == "C09":
                if slow and r > 1:
                    continue
                for pp in ("", rng.choice(["plain", "scaled", "perdomain", "last"])):
                    if pp == "last" and kind in ("label",):
                        pp = "plain"
                    if name == "monge" and pp == "":
                        pass
                    out.append(dict(s, ev="gate", name=name, pipe=pp, spread=0.8,
                                    method=rng.choice(["predict", "predict_proba", "decision_function"])))
            elif chk.prop == "C10" and kind in ("ot", "map", "sub"):
                for k in range(2 if slow else 4):
                    s = base(rng, rng.randrange(10**6))
                    if kind == "sub":
                        s["dim"] = 3
                    if kind == "map" or name.startswith("linear"):
                        s["spread"] = 0.9
                    out.append(dict(s, ev="perm", name=name, onlyside="stack" if k == 1 else "",
                                    mix=k != 2))
            elif chk.prop == "C11" and kind == "weight":
                for k in range(5):
                    s = base(rng, rng.randrange(10**6), imbalance=k % 2 == 1)
                    if k % 2:
                        s.update(gap=3.0, shift=-0.3 if k == 3 else 0.2)
                    else:
                        s.update(spread=1.0, gap=1.0)
                    if k == 2 and not s.get("imbalance"):
                        s["reg"] = True
                    out.append(dict(s, ev="weights", name=name, mix=k != 4,
                                    classes=rng.choice([[0, 1], [3, 1], [1, 2]])))
            elif chk.prop == "C12" and kind == "label":
                for k in range(20):
                    s = base(rng, rng.randrange(10**6))
                    s["ns"] = s["nt"] = rng.choice([12, 16])
                    sep = k % 2 == 0
                    if sep:
                        s.update(gap=8.0, spread=0.4)
                    if name == "jcpot":
                        s["slabs"] = rng.choice([[1], [1, 2]])
                    if len(s["slabs"]) > 1 and name != "jcpot":
                        pass
                    reg = name != "jcpot" and k % 5 == 1
                    if name.startswith("otprop") and k % 4 == 1:
                        s["weighted"] = True
                    if k % 5 in (2, 3) and not reg:
                        s.update(true_targets=True, ydtype=rng.choice(["uint8", "int8", "bool", "float32", "int32", "uint16", "int64"]))
                    cl = [[0, 1], [1, 0]] if s.get("ydtype") == "bool" else [[0, 1], [3, 7], [5, 2], [1, 0]]
                    out.append(dict(s, ev="labels", name=name, separated=sep, reg=reg, classes=rng.choice(cl), mix=k % 4 != 3))
    for i in range(chk.pick(60, 800)):
        ns = rng.choice([3, 4, 5, 6, 8])
        m = rng.choice([1, 1, 2, 3])
        a, b = (ns, ns * m) if rng.random() < 0.5 else (ns * m, ns)
        s = dict(ev="line", seed=rng.randrange(10**6), ns=a, nt=b, slab=rng.choice([0, 1, 4]), tlab=rng.choice([-1, -2, -5]),
                 off=rng.choice([0, 7, 100]))
        if chk.prop == "C10":
            w = rng.choice(["map", "map", "affine"])
            if w == "map":
                out.append(dict(s, what="map", name="ot", metric=rng.choice(["sqeuclidean", "sqeuclidean"])))
            else:
                s["ns"] = s["nt"] = rng.choice([4, 7, 10])
                out.append(dict(s, what="affine", name=rng.choice(["coral", "linear"]), num=rng.choice([1, 2, 3]),
                                den=rng.choice([1, 2])))
        elif chk.prop == "C11":
            s["ns"] = min(s["ns"], 10)
            out.append(dict(s, what="neighbors", name="nn", lap=rng.random() < 0.5))
        elif chk.prop == "C12":
            out.append(dict(s, what=rng.choice(["propagate", "classes"]), name="otprop"))
    return out


def corrupt(s, evs):
    for e in evs:
        e = copy.deepcopy(e)
        if e["ev"] == "gate":
            e["err"] = "" if e["err"] else "ValueError"
            e["nout"] = len(e["D"])
            return [e]
        if e["ev"] == "rows" and not e["err"] and len(e["b"]) > 1:
            e["b"] = e["b"][1:] + e["b"][:1]
            return [e]
        if e["ev"] == "weights" and not e["err"]:
            e["w"] = [-1 - v for v in e["w"]]
            return [e]
        if e["ev"] == "labels" and not e["err"]:
            e["out"] = e["out"][1:] + e["out"][:1]
            return [e] if e["out"] != evs[0]["out"] else None
        if e["ev"] == "line" and not e["err"]:
            e["out"] = [v + 7 for v in e["out"]]
            return [e]
    return None


def check(chk):
    chk.mc("MC_Adapters.tla", chk.pick("MC_Adapters.cfg", "MC_Adapters_T.cfg"), must_cover=("Apply", "Restack"))
    chk.judge("TraceAdapters.tla", chk.execute(execute, scenarios(chk)), corrupt=corrupt)

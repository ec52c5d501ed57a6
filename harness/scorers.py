"""C18 C19: scorers, judged on the calls they make and the values they return."""
import copy
import math
import random
import types

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, TransformerMixin

from .core import NAN, digest, fx, fxl, guarded

ASSUMPTIONS = [
    "probabilities are multiples of 1/8 and logs whole numbers of bits, so formulas are exact",
    "soft neighbourhood density is evaluated exactly for one-hot predictions at temperature 1/ln 2",
]
LN2 = math.log(2)
LOG = []


def trace_module(scn):
    return "TraceScorers.tla"


def rows_of(X):
    X = np.asarray(X)
    X = X.reshape(len(X), -1)
    if X.shape[1] and "onehot" in MODE:
        return [int(np.argmax(x)) + 1 for x in X]
    if "milli" in MODE:
        return [int(round(float(v) * 1000)) % 50000 for v in X[:, 0]]
    return [int(round(float(v))) % 1000 for v in X[:, 0]]


MODE = set()


def doms(d):
    return [] if d is None else [int(v) for v in d]


class Est(ClassifierMixin, BaseEstimator):
    __sklearn_is_fitted__ = lambda self: True

    """Scripted estimator: answers from tables indexed by row identity, logs every call."""
    __metadata_request__fit = {"sample_domain": True}
    __metadata_request__predict = {"sample_domain": True, "allow_source": True}
    __metadata_request__predict_proba = {"sample_domain": True, "allow_source": True}
    __metadata_request__predict_log_proba = {"sample_domain": True, "allow_source": True}
    __metadata_request__score = {"sample_domain": True, "sample_weight": True, "allow_source": True}

    def __init__(self, table=None):
        self.table = table

    def mark(self):
        self.token_ = id(self)
        self.classes_ = np.array([0, 1])
        return self

    @property
    def orig(self):
        return getattr(self, "token_", None) == id(self)

    def fit(self, X, y, sample_domain=None):
        LOG.append(dict(m="fit", orig=self.orig, rows=rows_of(X), doms=doms(sample_domain), labels=self.enc(y)))
        y = np.asarray(y)
        self.seen_ = np.unique(y[(y != -1) if y.dtype.kind in "iu" else ~np.isnan(y)])
        self.refit_ = True
        return self

    def enc(self, y):
        return [fx(v, 2) if self.table.get("reg") else int(v) if v == v else NAN for v in np.asarray(y, dtype=float)]

    def predict(self, X, sample_domain=None, allow_source=False):
        r = rows_of(X)
        if getattr(self, "refit_", False):
            out = np.array([self.seen_[self.table["back"][i - 1] % len(self.seen_)] for i in r])
        else:
            out = np.array([self.table["pred"][i - 1] for i in r])
        LOG.append(dict(m="predict", orig=self.orig, rows=r, doms=doms(sample_domain), out=self.enc(out)))
        return out

    def predict_proba(self, X, sample_domain=None, allow_source=False):
        r = rows_of(X)
        LOG.append(dict(m="predict_proba", rows=r, doms=doms(sample_domain), allow=bool(allow_source)))
        return np.array([self.table["P"][i - 1] for i in r], dtype=float) / self.table.get("pden", 8)

    def score(self, X, y, sample_domain=None, sample_weight=None, allow_source=False):
        v = self.table["scores"][sum(c["m"] == "score" for c in LOG) % len(self.table["scores"])]
        LOG.append(dict(m="score", rows=rows_of(X), labels=self.enc(y), doms=doms(sample_domain), value=v, allow=bool(allow_source),
                        w=[] if sample_weight is None else fxl(sample_weight, 16384),
                        vecs=fxl(np.asarray(X).reshape(len(X), -1), 4) if "onehot" in MODE else []))
        return float(v)


class EstLog(Est):
    def predict_log_proba(self, X, sample_domain=None, allow_source=False):
        r = rows_of(X)
        LOG.append(dict(m="predict_log_proba", rows=r, doms=doms(sample_domain), allow=bool(allow_source)))
        with np.errstate(divide="ignore"):
            lp = np.array([self.table["LP"][i - 1] for i in r], dtype=float)
            p = np.array([self.table["P"][i - 1] for i in r])
        lp[p == 0] = -np.inf
        return lp


class Fitted:
    def __sklearn_is_fitted__(self):
        return True


class Trans(Fitted, TransformerMixin, BaseEstimator):
    """Features are the raw ones shifted by 1000, so that their users can be told apart."""

    def fit(self, X, y=None):
        return self

    def transform(self, X):
        LOG.append(dict(m="features", rows=rows_of(X)))
        X = np.asarray(X)
        return X.reshape(len(X), -1) + 1000.0


class Dens(BaseEstimator):
    """Scripted density estimator; its answers depend on the side it was fitted on."""

    def __init__(self, table=None):
        self.table = table

    def fit(self, X, y=None):
        r = rows_of(X)
        FITS.append(r)
        self.source_ = r[0] in self.table["src"]
        return self

    def score_samples(self, X):
        t = self.table["ks" if self.source_ else "kt"]
        return np.array([t[i - 1] for i in rows_of(X)]) * LN2


class DClf(ClassifierMixin, BaseEstimator):
    """Scripted domain classifier giving P(target)/P(source) = r."""

    def __init__(self, table=None):
        self.table = table

    def fit(self, X, y):
        X = np.asarray(X)
        ok = X.reshape(len(X), -1)[:, 0].min() >= 1000 or not self.table["shift"]
        r = rows_of(X)
        LOG.append(dict(m="dfit", rows=r if ok else [0], labels=[int(v) for v in y]))
        self.classes_ = np.unique(y)
        tg = [v for v, i in zip(y, r) if i in self.table["tgt"]]
        self.tcol_ = int(np.searchsorted(self.classes_, tg[0]))
        return self

    def predict_proba(self, X):
        X = np.asarray(X)
        r = rows_of(X)
        LOG.append(dict(m="dproba", rows=r))
        q = np.array([self.table["r"][i - 1] for i in r], dtype=float)
        out = np.empty((len(r), 2))
        out[:, self.tcol_] = q / (1 + q)
        out[:, 1 - self.tcol_] = 1 / (1 + q)
        return out


class Deep:
    """What the scorers need of a deep estimator."""

    def __init__(self, table):
        self.table = table
        self.est = Est(table).mark()
        self.module_ = types.SimpleNamespace(layer_name="feat")

    def predict_features(self, X):
        import torch
        return torch.tensor(Trans().transform(X))

    def predict_proba(self, X, sample_domain=None, allow_source=False):
        return self.est.predict_proba(X, sample_domain, allow_source)

    def infer(self, X, **kw):
        import torch
        r = rows_of(X)
        LOG.append(dict(m="infer", rows=r, doms=[]))
        return torch.tensor([self.table["logits"][i - 1] for i in r], dtype=torch.float64)

    forward = infer

    def fit(self, X, y):
        return self


FITS = []


def state_of(obj):
    if isinstance(obj, Deep):
        return repr(obj.table)
    if hasattr(obj, "steps"):
        return repr([state_of(s) for _, s in obj.steps])
    return repr(sorted((k, repr(v)) for k, v in vars(obj).items()))


def build(scn, t, shape):
    """(estimator, scorer) for a scripted scenario."""
    from sklearn.pipeline import Pipeline
    from skada import metrics as M
    k, gib = scn["ev"], scn["sign"] == 1
    if k == "supervised":
        def fn(est, X, y, sample_domain=None, **kw):
            LOG.append(dict(m="score", rows=rows_of(X), labels=Est(t).enc(y), doms=doms(sample_domain)))
            return float(scn["scripted"])
        return Est(t).mark(), M.SupervisedScorer(scoring=fn if scn["callable"] else None, greater_is_better=gib)
    if k == "iw":
        if scn["callable"]:
            def fn(est, X, y, sample_domain=None, sample_weight=None, **kw):
                return est.score(X, y, sample_domain=sample_domain, sample_weight=sample_weight, allow_source=kw.get("allow_source", False))
        else:
            fn = None
        we = None if scn["k"] == [] else Dens(t)
        return Est(t).mark(), M.ImportanceWeightedScorer(weight_estimator=we, scoring=fn, greater_is_better=gib)
    if k == "entropy":
        return (EstLog if scn["log"] else Est)(t).mark(), M.PredictionEntropyScorer(greater_is_better=gib, reduction=scn["reduction"])
    if k == "snd":
        return Est(t).mark(), M.SoftNeighborhoodDensity(T=1 / LN2 if scn["exact"] else scn["T"], greater_is_better=gib)
    if k == "dev":
        if scn["customloss"]:
            def loss(y, p):
                codes = [int(round(v * 64)) % 8 for v in np.asarray(p)[:, 0]]
                out = [(3 * int(a) + b) % 6 for a, b in zip(y, codes)]
                return np.array(out, dtype=float)
        else:
            loss = None
        est = Est(t).mark()
        if scn["host"] == "deep":
            est = Deep(t)
        elif scn["host"] == "pipe":
            est = Pipeline([("t", Trans()), ("e", est)])
        else:
            est = Pipeline([("e", est)])
        return est, M.DeepEmbeddedValidation(domain_classifier=DClf(t), loss_func=loss, random_state=scn["seed"], greater_is_better=gib)
    if k == "mano":
        est = Deep(t) if scn["deep"] else Pipeline([("e", Est(t).mark())])
        return est, M.MaNoScorer(p=scn["p"], threshold=scn["threshold"], greater_is_better=gib)
    if k == "mixval":
        return Est(t).mark(), M.MixValScorer(alpha=scn["alpha"] / 4, ice_type=scn["ice"], random_state=scn["seed"], greater_is_better=gib)
    if k == "circ":
        def metric(truth, pred):
            LOG.append(dict(m="metric", truth=Est(t).enc(truth), pred=Est(t).enc(pred)))
            return float(scn["scripted"])
        return Est(t).mark(), M.CircularValidation(source_scorer=metric, greater_is_better=gib)
    raise KeyError(k)


def execute(scn):
    if scn["ev"] == "real":
        return [real(scn)]
    if scn["ev"] == "strscore":
        return [strscore(scn)]
    import sklearn
    D = np.array(scn["D"])
    n = len(D)
    MODE.clear()
    if scn["ev"] == "mixval":
        MODE.add("onehot")
        X = np.eye(n)
    else:
        X = np.zeros((n, 2))
        X[:, 0] = np.arange(1, n + 1)
        if scn["ev"] == "iw" and scn["k"] == []:
            MODE.add("milli")
            X = np.c_[np.arange(1, n + 1) / 1000 + np.array(scn["cluster"]) * 50.0]
        if scn.get("nd"):
            X = np.concatenate([X, X], 1).reshape(n, 2, 2)
    t = {k: scn[k] for k in ("P", "LP", "pred", "back", "scores", "r", "logits", "ks", "kt", "reg", "pden") if k in scn}
    t["src"] = [i + 1 for i in range(n) if D[i] >= 0]
    t["tgt"] = [i + 1 for i in range(n) if D[i] < 0]
    t["shift"] = scn.get("host") in ("deep", "pipe")
    reg = scn.get("reg", False)
    dt = float if reg else int
    y = np.array([v if v != NAN else np.nan for v in scn["y"]], dtype=dt)
    TL = None if scn["TL"] is None else np.array(scn["TL"], dtype=dt)

    def run(y, TL, keep):
        LOG.clear()
        FITS.clear()
        est, sc = build(scn, t, X.shape)
        before, dg = state_of(est), digest(X, y, D, TL)
        arrs = [a for a in (X, y, D, TL) if a is not None]
        for a in arrs:
            a.flags.writeable = not scn.get("readonly", False)
        kw = dict(sample_domain=D)
        if TL is not None:
            kw["target_labels"] = TL
        with sklearn.config_context(enable_metadata_routing=True):
            val, err = guarded(lambda: sc(est, X, y, **kw))
            calls = copy.deepcopy(LOG)
            fits = copy.deepcopy(FITS)
            again = None
            if keep and not err:
                LOG.clear()
                again, _ = guarded(lambda: sc(est, X, y, **kw))
        return dict(val=val, err=err, calls=calls, fits=fits, changed=state_of(est) != before, modified=digest(X, y, D, TL) != dg,
                    repeat=not keep or bool(err) or np.array_equal(np.asarray(val), np.asarray(again), equal_nan=True))

    a = run(y, TL, True)
    y2 = y.copy()
    alt = np.array(scn["alt"], dtype=dt)
    tg = np.array([i for i in range(n) if D[i] < 0 and i + 1 not in scn.get("keepmask", [])], dtype=int)
    y2[tg] = alt[tg]
    TL2 = TL
    b = run(y2, TL2, False)
    same = a["err"] == b["err"] and repr(a["calls"]) == repr(b["calls"]) and (
        bool(a["err"]) or np.array_equal(np.asarray(a["val"]), np.asarray(b["val"]), equal_nan=True))
    if scn.get("refuse"):
        same = True
    val = a["val"]
    unit = LN2 if (scn["ev"] == "snd" and scn["exact"]) or (scn["ev"] == "entropy" and not scn["log"]) or (
        scn["ev"] == "dev" and not scn["customloss"]) else 1.0
    ev = {k: scn[k] for k in ("ev", "sign", "D", "scripted", "k", "near", "P", "LP", "reduction", "exact", "cls", "r", "e", "p", "logits",
                              "threshold", "alpha", "ice", "pred", "reg", "scores") if k in scn}
    ev["y"] = Est(t).enc(y)
    ev["TL"] = [] if TL is None else Est(t).enc(TL)
    if reg:
        ev["pred"] = [fx(v, 2) for v in scn["pred"]] if "pred" in scn else []
        ev["maskv"] = NAN
    else:
        ev["maskv"] = -1
    ev.update(err=a["err"], refuse=bool(scn.get("refuse")), same=bool(same), modified=a["modified"], estchanged=a["changed"], repeat=bool(a["repeat"]),
              calls=a["calls"], fits=a["fits"], score=NAN, lossok=True, possign=True)
    if a["err"]:
        ev["calls"] = []
        return [ev]
    if scn["ev"] == "mano":
        ev["possign"] = bool(np.sign(val) == scn["sign"])
        ev["score"] = fx(abs(float(val)) ** scn["p"], 16384)
    elif scn["ev"] == "entropy" and scn["reduction"] == "none":
        ev["scores"] = fxl(np.asarray(val) / unit, 1024)
    else:
        ev["score"] = fx(float(val) / unit, 1024)
    return [ev]


# ------------------------------------------------------------ real pipelines
def real(scn):
    import warnings
    import sklearn
    warnings.simplefilter("ignore")
    from sklearn.linear_model import LogisticRegression
    from skada import metrics as M, make_da_pipeline
    from skada import CORALAdapter, SubspaceAlignmentAdapter, OTMappingAdapter, DensityReweightAdapter
    rng = np.random.RandomState(scn["seed"])
    D = np.array(scn["D"])
    n = len(D)
    labs = np.array(scn["labels"])
    c = rng.randint(0, len(labs), n)
    X = rng.randn(n, 3) + 2 * c[:, None] + (D < 0)[:, None]
    yfull = labs[c]
    for cc in range(len(labs)):          # every class on both sides
        for side in (D >= 0, D < 0):
            i = np.flatnonzero(side)[cc]
            yfull[i] = labs[cc]
    y = np.where(D < 0, -1, yfull)
    LR = LogisticRegression().set_score_request(sample_weight=True)
    ad = dict(coral=CORALAdapter, sa=lambda: SubspaceAlignmentAdapter(n_components=2), ot=OTMappingAdapter).get(scn["pipe"])
    with sklearn.config_context(enable_metadata_routing=True):
        if scn["pipe"] == "dens":
            p = make_da_pipeline(DensityReweightAdapter(), LR.set_fit_request(sample_weight=True))
        else:
            p = make_da_pipeline(*([ad()] if ad else []), LR)
        p.fit(X, y, sample_domain=D)
        mk = dict(iw=M.ImportanceWeightedScorer, entropy=M.PredictionEntropyScorer, snd=M.SoftNeighborhoodDensity,
                  dev=lambda: M.DeepEmbeddedValidation(random_state=0), circ=M.CircularValidation,
                  mixval=lambda: M.MixValScorer(random_state=0), mano=M.MaNoScorer, supervised=M.SupervisedScorer)[scn["sc"]]
        sc = mk()
        kw = dict(sample_domain=D)
        if scn["sc"] == "supervised":
            kw["target_labels"] = yfull
        pr = p.predict_proba(X[D < 0], sample_domain=D[D < 0])
        dg = digest(X, y, D, yfull)
        a, err = guarded(lambda: sc(p, X, y, **kw), 120)
        y2 = y.copy()
        t = np.flatnonzero(D < 0)
        if scn["sc"] == "circ":
            t = t[1:]
        y2[t] = rng.permutation(yfull[D < 0])[:len(t)]
        b, err2 = guarded(lambda: mk()(p, X, y2, **kw), 120)
        again, _ = guarded(lambda: mk()(p, X, y, **kw), 120)
        pr2 = p.predict_proba(X[D < 0], sample_domain=D[D < 0])
    eq = lambda u, v: u is not None and v is not None and bool(np.isclose(u, v, rtol=1e-9, atol=1e-12, equal_nan=True))
    return dict(ev="real", err=err or err2, refuse=False, same=eq(a, b), repeat=eq(a, again), modified=digest(X, y, D, yfull) != dg,
                estchanged=not np.array_equal(pr, pr2), score=fx(a, 1024) if a is not None else NAN)


def strscore(scn):
    import sklearn
    from sklearn.linear_model import LogisticRegression
    from skada import metrics as M, make_da_pipeline
    rng = np.random.RandomState(0)
    D = np.array([1, -1] * 8)
    X = rng.randn(16, 2)
    yf = np.array([0, 0, 1, 1] * 4)
    y = np.where(D < 0, -1, yf)
    with sklearn.config_context(enable_metadata_routing=True):
        p = make_da_pipeline(LogisticRegression().set_score_request(sample_weight=True)).fit(X, y, sample_domain=D)
        sc = getattr(M, scn["cls"])(scoring="accuracy")
        kw = dict(target_labels=yf) if scn["cls"] == "SupervisedScorer" else {}
        _, err = guarded(lambda: sc(p, X, y, sample_domain=D, **kw))
    return dict(ev="strscore", err=err, cls=scn["cls"])


# ------------------------------------------------------------------ scenarios
def layout(rng, n, labs=None, smin=1, tmin=1):
    while True:
        pool = labs or rng.choice([[1, -1], [1, -2], [0, -1], [0, 1, -1, -2], [2, 5, -3, -4], [0, 3, -3], [1, 2, 3, -1]])
        d = [rng.choice(pool) for _ in range(n)]
        if rng.random() < 0.15:
            d.sort(reverse=True)
        if sum(v >= 0 for v in d) >= smin and sum(v < 0 for v in d) >= tmin:
            return d


def probs(rng, c):
    """eighths summing to one"""
    cuts = sorted(rng.randrange(9) for _ in range(c - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [8])]


def dyadic(rng, c):
    """powers of two (in eighths) summing to one, and their logs"""
    p = rng.choice({2: [[4, 4], [8, 0]], 3: [[4, 2, 2], [4, 4, 0], [8, 0, 0]], 4: [[2, 2, 2, 2], [4, 2, 1, 1], [4, 4, 0, 0], [8, 0, 0, 0]]}[c])[:]
    rng.shuffle(p)
    return p, [-{8: 0, 4: 1, 2: 2, 1: 3, 0: 0}[v] for v in p]


def base(rng, n, D, classes):
    y = [rng.choice(classes) if d >= 0 else (-1 if rng.random() < 0.8 else rng.choice(classes)) for d in D]
    t = [i for i in range(n) if D[i] < 0]
    if not any(y[i] == -1 for i in t):
        y[rng.choice(t)] = -1
    return dict(D=D, y=y, alt=[rng.choice(classes) for _ in D], TL=None, sign=rng.choice([1, -1]), readonly=rng.random() < 0.3)


def one(rng, kind):
    n = rng.randint(3, 9)
    classes = rng.choice([[0, 1], [0, 1, 2], [3, 7], [1, 2], [4, 9, 12] if kind == "circ" else [-5, 4, 9]])
    D = layout(rng, n)
    s = base(rng, n, D, classes)
    s["ev"] = kind
    if kind == "supervised":
        s["TL"] = [rng.choice(classes) if d < 0 or rng.random() < 0.5 else -1 for d in D]
        s.update(callable=rng.random() < 0.6, scripted=rng.choice([-3, 2, 5]))
        s["scores"] = [s["scripted"]]
        s["nd"] = rng.random() < 0.2
    elif kind == "iw":
        s.update(callable=rng.random() < 0.4, scripted=rng.choice([-3, 2, 5]), near=[])
        s["scores"] = [s["scripted"]]
        s["ks"] = [rng.randrange(4) for _ in D]
        s["kt"] = [a + rng.randrange(6) for a in s["ks"]]
        s["k"] = [b - a for a, b in zip(s["ks"], s["kt"])]
        s["nd"] = rng.random() < 0.2
    elif kind == "entropy":
        c = rng.choice([2, 3, 4])
        s.update(log=rng.random() < 0.6, reduction=rng.choice(["mean", "mean", "sum", "none"]), nd=rng.random() < 0.2)
        if s["log"]:
            s["P"] = [probs(rng, c) for _ in D]
            s["LP"] = [[-rng.randrange(6) for _ in range(c)] for _ in D]
        else:
            z = [dyadic(rng, c) for _ in D]
            s["P"], s["LP"] = [a for a, _ in z], [b for _, b in z]
    elif kind == "snd":
        s["exact"] = rng.random() < 0.8
        if s["exact"]:
            c = rng.choice([2, 3])
            s["cls"] = [rng.randrange(c) for _ in D]
            s["P"] = [[8 if j == v else 0 for j in range(c)] for v in s["cls"]]
        else:
            s["T"] = rng.choice([0.05, 1.0, 0.001])
            s["P"] = [probs(rng, 3) for _ in D]
    elif kind == "dev":
        D = layout(rng, n + 4, smin=6)
        if rng.random() < 0.3:      # far more target than source rows: small, close weights
            D = D + [rng.choice([d for d in D if d < 0])] * rng.choice([30, 60, 90])
        n = len(D)
        s.update(base(rng, n, D, classes))
        c = len(classes)
        src = [i for i in range(n) if D[i] >= 0]
        for j, i in enumerate(rng.sample(src, len(src))):
            s["y"][i] = classes[j % c]
        s.update(host=rng.choice(["pipe", "pipe", "plain", "deep"]), customloss=rng.random() < 0.5, seed=rng.randrange(100),
                 r=[rng.choice([1, 1, 2, 3, 4]) for _ in D])
        if s["host"] == "deep" and not s["customloss"]:
            new = {v: i for i, v in enumerate(sorted(classes))}      # deep classes are 0..k-1
            s["y"] = [new.get(v, -1) for v in s["y"]]
            s["alt"] = [new[v] for v in s["alt"]]
            classes = list(range(c))
        if s["customloss"]:
            code = [rng.randrange(8) for _ in D]
            s["P"], s["pden"] = [[v] + [0] * (c - 1) for v in code], 64
            s["e"] = [(3 * v + k) % 6 for v, k in zip(s["y"], code)]
        else:
            z = [dyadic(rng, c) for _ in D]
            while any(0 in a for a, _ in z):
                z = [dyadic(rng, c) if 0 in p[0] else p for p in z]
            s["P"] = [a for a, _ in z]
            idx = {v: i for i, v in enumerate(sorted(classes))}
            s["e"] = [-b[idx[v]] if v in idx else 0 for (_, b), v in zip(z, s["y"])]
        s["nd"] = s["host"] == "deep" and rng.random() < 0.3
    elif kind == "mano":
        c = rng.choice([2, 3, 4])
        s.update(p=rng.choice([1, 2, 4]), threshold=rng.choice([5, 5, 0, 20]), deep=rng.random() < 0.6, logits=[])
        if s["deep"]:
            s["p"] = rng.choice([2, 4])
            big = rng.random() < 0.5
            close = rng.random() < 0.5   # a criterion between the default threshold and a large one
            rows = []
            for _ in D:
                if big:
                    v = [0] + [-22] * (c - 1) if close else [-30 * k for k in range(c)]
                    if rng.random() < 0.3:
                        v = [x + 7 for x in v]
                else:
                    v = rng.sample(range(-2, 4), c)
                    while len({2 + 2 * x + x * x for x in v}) < 2:
                        v = rng.sample(range(-2, 4), c)
                rng.shuffle(v)
                rows.append(v)
            s["logits"] = rows
        else:
            s["P"] = [probs(rng, c) for _ in D]
    elif kind == "mixval":
        s.update(alpha=rng.choice([1, 2, 3]), ice=rng.choice(["both", "both", "intra", "inter"]), seed=rng.randrange(1000),
                 scores=rng.sample([-4, -1, 2, 3, 8], 2), pred=[rng.choice(classes) for _ in D])
        s["cls"] = s["pred"]
    elif kind == "circ":
        reg = rng.random() < 0.25
        s["reg"] = reg
        s["scripted"] = rng.choice([-3, 2, 5])
        s["keepmask"] = [next(i + 1 for i in range(n) if D[i] < 0 and s["y"][i] == -1)]
        if reg:
            half = [v / 2 for v in range(-9, 10, 2)]
            s["y"] = [rng.choice(half) if d >= 0 else NAN for d in D]
            s["alt"] = [rng.choice(half) for _ in D]
            s["pred"] = [rng.choice(half) for _ in D]
        else:
            s["pred"] = [rng.choice(classes + ([11] if rng.random() < 0.1 else [])) for _ in D]
        if rng.random() < 0.15:
            s["pred"] = [s["pred"][0]] * n
        s["back"] = [rng.randrange(6) for _ in D]
        if rng.random() < 0.06 and not reg:
            s["refuse"] = True
            s["y"] = [v if v != -1 else classes[0] for v in s["y"]]
            s["keepmask"] = []
            s["alt"] = s["y"]
    return s


def scenarios(chk):
    rng = random.Random(chk.seed * 8009 + int(chk.prop[1:]))
    out = []
    if chk.prop == "C18":
        kinds = ["supervised", "iw", "entropy", "snd", "dev", "mano", "mixval"]
        for k in kinds:
            for _ in range(chk.pick(170, 2500)):
                out.append(one(rng, k))
        for _ in range(chk.pick(40, 400)):
            # real densities: near sources weigh more
            n = rng.randint(6, 14)
            D = layout(rng, n, smin=4, tmin=2)
            s = base(rng, n, D, [0, 1])
            src = [i for i in range(n) if D[i] >= 0]
            half = rng.randint(2, len(src) - 2)
            near = set(rng.sample(src, half))
            s.update(ev="iw", callable=False, scripted=2, scores=[2], k=[], near=[i + 1 for i in near],
                     cluster=[0 if D[i] < 0 or i in near else 1 for i in range(n)])
            out.append(s)
        for c in ("SupervisedScorer", "ImportanceWeightedScorer", "MixValScorer"):
            out.append(dict(ev="strscore", cls=c))
        scs = ["iw", "entropy", "snd", "dev", "mixval", "mano", "supervised"]
    else:
        for _ in range(chk.pick(900, 15000)):
            out.append(one(rng, "circ"))
        scs = ["circ"]
    for sc in scs:
        for pipe in ("none", "coral", "sa", "ot", "dens"):
            for i in range(chk.pick(2 if chk.prop == "C18" else 6, 12)):
                labs = rng.choice([[0, 1], [2, 5], [0, 1, 2]])
                if sc == "mano":
                    labs = [0, 1]
                out.append(dict(ev="real", sc=sc, pipe=pipe, seed=rng.randrange(10**5), labels=labs,
                                D=layout(rng, 30, [1, -2] if i % 2 else [0, 1, -1], smin=8, tmin=8)))
    return out


def corrupt(s, evs):
    e = copy.deepcopy(evs[0])
    if e["err"] or e.get("refuse") or e["ev"] in ("real", "strscore"):
        return None
    if e["ev"] == "entropy" and e["reduction"] == "none":
        e["scores"][0][0] += 400
    elif e["ev"] == "snd" and not e["exact"]:
        return None
    elif e["score"] == NAN:
        return None
    else:
        e["score"] += 4000
    return [e]


def check(chk):
    chk.mc("MC_Scorers.tla", chk.pick("MC_Scorers.cfg", "MC_Scorers_T.cfg"), must_cover=("Swap", "Shortcut", "Back", "Score"))
    chk.judge("TraceScorers.tla", chk.execute(execute, scenarios(chk)), corrupt=corrupt)

"""C04 C06 C07 C08 C30: pipelines of selectors, executed with recording stubs."""
import copy
import pickle
import random
import warnings

import numpy as np
from sklearn.base import BaseEstimator, clone

from .core import NAN, digest, fx, guarded

warnings.simplefilter("ignore")
ASSUMPTIONS = [
    "base estimators are recording stubs whose outputs identify the rows they were fitted on",
    "class labels are >= 0 (a class label of -1 is skada's mask)",
]
LOG = []


def trace_module(scn):
    return "TracePipeline.tla"


# ----------------------------------------------------------------- the stubs
def _vals(a, reg):
    return [fx(v, 2 if reg else 1) for v in np.asarray(a, dtype=float).ravel()]


class _Rec(BaseEstimator):
    """Records what it is given; k is its place in the pipeline."""

    def __init__(self, k=1, kind="T", reg=False, side="s"):
        self.k = k
        self.kind = kind
        self.reg = reg
        self.side = side

    def _record(self, X, y, sample_weight, sample_domain):
        ids = [fx(v) for v in X[:, 0]]
        LOG.append(dict(k=self.k, side=self.side, ids=ids, trail=[fx(v) for v in X[:, 1]],
                        y=[] if y is None else _vals(y, self.reg), ygiven=y is not None,
                        wgiven=sample_weight is not None,
                        w=[] if sample_weight is None else _vals(sample_weight, False),
                        dgiven=sample_domain is not None,
                        d=[] if sample_domain is None else _vals(sample_domain, False)))
        self.tag_ = sum(ids) % 97 + 1

    def fit(self, X, y=None, sample_weight=None, sample_domain=None):
        self._record(X, y, sample_weight, sample_domain)
        return self

    def _next(self, X):
        return (X[:, 1] * 31 + self.k * 7 + self.tag_) % 10007


class RecPlain(_Rec):
    """a transformer without fit_transform"""

    def transform(self, X):
        return np.stack([X[:, 0], self._next(X)], 1)


class RecTrans(RecPlain):
    def fit_transform(self, X, y=None, sample_weight=None, sample_domain=None):
        self.fit(X, y, sample_weight, sample_domain)
        return self.transform(X)


class RecAdapter(_Rec):
    def transform(self, X):
        return X

    def fit_transform(self, X, y=None, sample_weight=None, sample_domain=None):
        self._record(X, y, sample_weight, sample_domain)
        ids = np.array(X[:, 0], dtype=int)
        sc = 2 if self.reg else 1
        out = {}
        if "W" in self.kind:
            out["sample_weight"] = 1000.0 * self.k + ids
        if self.kind == "AD":
            sample_domain = np.asarray(sample_domain)
            out["sample_domain"] = np.where(sample_domain >= 0, sample_domain + 5, sample_domain - 5)
        if "Y" in self.kind:
            v = 21 + 2 * (ids % 3)
            ny = np.where(ids % 2 == 0, np.nan if self.reg else -1, v / sc)
            return X, ny if self.reg else ny.astype(int), out
        if self.kind == "AS":
            keep = ids % 3 != 0
            out["sample_domain"] = np.asarray(sample_domain)[keep]
            if sample_weight is not None:
                out["sample_weight"] = np.asarray(sample_weight)[keep]
            return X[keep], np.asarray(y)[keep], out
        return X, out


class RecFinal(_Rec):
    def predict(self, X):
        v = self._next(X)
        if self.tag_ % 2 == 0:
            return v.astype(np.int64)       # domains may answer in different dtypes
        return v + 0.5

    def predict_proba(self, X):
        v = self.predict(X)
        return np.stack([v, -v], 1)

    def decision_function(self, X):
        return self.predict(X)

    predict_log_proba = predict_proba


CLS = dict(T=RecTrans, Tn=RecPlain, E=RecFinal)
SELECTORS = {}


def _selectors():
    from skada import PerDomain, SelectSource, SelectSourceTarget, SelectTarget, Shared
    return dict(shared=Shared, perdomain=PerDomain, source=SelectSource, target=SelectTarget,
                st=SelectSourceTarget)


def make_step(s, k, reg):
    est = CLS.get(s["kind"], RecAdapter)(k=k, kind=s["kind"], reg=reg)
    other = clone(est).set_params(side="t")
    req = {}
    for r, nm in (("wreq", "sample_weight"), ("dreq", "sample_domain")):
        if s[r] != "unset":
            req[nm] = s[r] == "yes"
    if req:
        est.set_fit_request(**req)
        other.set_fit_request(**req)
    sel = _selectors()[s["sel"]]
    if s["sel"] == "st" and s.get("two"):
        return sel(est, other)
    if s["sel"] in ("target", "st"):
        return sel(est)
    return sel(est, mask_target_labels=s["mask"])


def build(prog, reg, via, dup="none"):
    from skada import make_da_pipeline
    steps = [make_step(s, k + 1, reg) for k, s in enumerate(prog)]
    o = steps[0] if via == "direct" else make_da_pipeline(*steps)
    # a duplicate that has not been fitted does what the original would do
    return {"none": lambda v: v, "clone": clone, "deepcopy": copy.deepcopy,
            "pickle": lambda v: pickle.loads(pickle.dumps(v))}[dup](o)


def data(c, reg):
    n = c["n"]
    X = np.stack([np.arange(1, n + 1), np.zeros(n)], 1).astype(float)
    y = np.array(c["y"]) / 2 if reg else np.array(c["y"]).astype(c.get("ydt", "int64"))
    w = np.array(c["w"], dtype=float) if c["wgiven"] else None
    return X, y, np.array(c["d"]), w


METHODS = ("predict", "predict_proba", "decision_function", "predict_log_proba")


def run_once(scn, y=None):
    c, reg = scn["c"], scn["reg"]
    X, y0, d, w = data(c, reg)
    y = y0 if y is None else y
    kw = {"sample_weight": w} if w is not None else {}
    LOG.clear()
    before = digest(X, y, d, w)
    box = {}

    def fit():
        # selectors with incompatible base methods refuse at construction
        box["pipe"] = build(scn["prog"], reg, scn["via"], scn.get("dup", "none"))
        box["pipe"].fit(X, y, sample_domain=scn_d(scn, d), **kw)

    _, err = guarded(fit)
    calls = copy.deepcopy(LOG)
    preds = []
    if not err:
        last = scn["prog"][-1]["kind"]
        for p in scn["preds"]:
            P = np.stack([np.array(p["ids"]), np.zeros(len(p["ids"]))], 1).astype(float)
            m = p["method"] if last == "E" else "transform"
            out, perr = guarded(lambda: getattr(box["pipe"], m)(P, sample_domain=np.array(p["d"])))
            if perr == "" and m == "transform":
                out = out[:, 1]
            if perr == "" and m.endswith("proba"):
                out = out[:, 0]
            preds.append(dict(ids=p["ids"], d=p["d"], method=m, err=perr,
                              out=[] if perr else [fx(v, 2) for v in np.asarray(out).ravel()]))
    return calls, err, preds, digest(X, y, d, w) != before


def scn_d(scn, d):
    return d.tolist() if scn.get("dlist") else d


def execute(scn):
    if scn["ev"] in ("build", "buildmask"):
        return build_event(scn)
    if scn["ev"] == "leakreal":
        return leak_real(scn)
    calls, err, preds, mod = run_once(scn)
    mv = NAN if scn["reg"] else -1
    for c in calls:
        if not c.pop("ygiven"):
            c["y"] = [-77]      # no labels at all: never what the model expects
    e = dict(ev="run", prog=scn["prog"], c=dict(scn["c"], mv=mv), calls=calls, err=err, preds=preds, modified=mod)
    evs = [e]
    if scn.get("flip") and not err:
        _, y, d, _ = data(scn["c"], scn["reg"])
        y2 = np.array(y)
        for i in np.where(d < 0)[0]:
            y2[i] = scn["flip"][i] / 2 if scn["reg"] else scn["flip"][i]
        if (y2 != y).any():
            calls2, err2, preds2, _ = run_once(scn, y2)
            for c in calls2:
                c.pop("ygiven")
            masked = all(s["mask"] for s in scn["prog"])
            if masked or (scn["prog"][0]["sel"] != "source" and not scn["prog"][0]["mask"]):
                k0 = len(scn["prog"]) if masked else 1
                f = lambda cs: [x for x in cs if x["k"] <= k0]  # noqa: E731
                evs.append(dict(ev="leak", name="stub", err=err2, masked=masked,
                                sameCalls=f(calls2) == f(calls), samePred=preds2 == preds))
    return evs


# ----------------------------------------------------------- real estimators
def real_pipes(kind):
    from sklearn.linear_model import LogisticRegression, Ridge
    from sklearn.preprocessing import StandardScaler
    from sklearn.svm import SVC

    import skada
    from skada import (CORALAdapter, DensityReweightAdapter, MMDTarSReweightAdapter, OTLabelPropAdapter, PerDomain,
                       SelectSource, make_da_pipeline)
    from skada._gradual_da import GradualEstimator
    out = {}
    if kind == "clf":
        LR = lambda: LogisticRegression().set_fit_request(sample_weight=True)  # noqa: E731
        out["coral"] = lambda: make_da_pipeline(StandardScaler(), CORALAdapter(), LogisticRegression())
        out["subspace"] = lambda: make_da_pipeline(skada.SubspaceAlignmentAdapter(n_components=1), LogisticRegression())
        out["tca"] = lambda: make_da_pipeline(skada.TransferComponentAnalysisAdapter(n_components=1), SVC())
        out["ot"] = lambda: make_da_pipeline(skada.OTMappingAdapter(), LogisticRegression())
        out["classreg_ot"] = lambda: make_da_pipeline(skada.ClassRegularizerOTMappingAdapter(norm="lpl1"), LogisticRegression())
        out["density"] = lambda: make_da_pipeline(DensityReweightAdapter(), LR())
        out["kliep"] = lambda: make_da_pipeline(skada.KLIEPReweightAdapter(gamma=1.0), LR())
        out["mmdtars"] = lambda: make_da_pipeline(MMDTarSReweightAdapter(gamma=1.0), LR())
        out["discr"] = lambda: make_da_pipeline(skada.DiscriminatorReweightAdapter(), LR())
        out["labelprop"] = lambda: make_da_pipeline(OTLabelPropAdapter(), LogisticRegression())
        out["jcpot"] = lambda: make_da_pipeline(skada.JCPOTLabelPropAdapter(), LogisticRegression())
        out["perdomain"] = lambda: make_da_pipeline(PerDomain(StandardScaler()), LogisticRegression())
        out["source"] = lambda: make_da_pipeline(StandardScaler(), SelectSource(LogisticRegression()))
        out["dasvm"] = lambda: make_da_pipeline(skada.DASVMClassifier(max_iter=2))
        out["jdot"] = lambda: make_da_pipeline(skada.JDOTClassifier(LogisticRegression(), metric="multinomial"))
        out["gradual"] = lambda: make_da_pipeline(GradualEstimator(n_steps=2, base_estimator=LogisticRegression()))
        out["plain"] = lambda: make_da_pipeline(StandardScaler(), LogisticRegression())
        out["linmonge"] = lambda: make_da_pipeline(skada.MultiLinearMongeAlignmentAdapter(), LogisticRegression())
    else:
        RG = lambda: Ridge().set_fit_request(sample_weight=True)  # noqa: E731
        out["coral"] = lambda: make_da_pipeline(StandardScaler(), CORALAdapter(), Ridge())
        out["density"] = lambda: make_da_pipeline(DensityReweightAdapter(), RG())
        out["mmdtars"] = lambda: make_da_pipeline(MMDTarSReweightAdapter(gamma=1.0), RG())
        out["labelprop"] = lambda: make_da_pipeline(OTLabelPropAdapter(), Ridge())
        out["plain"] = lambda: make_da_pipeline(StandardScaler(), Ridge())
        out["perdomain"] = lambda: make_da_pipeline(PerDomain(StandardScaler()), Ridge())
        out["jdot"] = lambda: make_da_pipeline(skada.JDOTRegressor(Ridge()))
        out["transferlabels"] = lambda: make_da_pipeline(skada.OTMappingAdapter(), Ridge())
    return out


REAL = [("clf", n) for n in ("coral subspace tca ot classreg_ot density kliep mmdtars discr labelprop jcpot perdomain "
                             "source dasvm jdot gradual plain linmonge").split()] + \
       [("reg", n) for n in "coral density mmdtars labelprop plain perdomain jdot transferlabels".split()]


def real_data(kind, seed, ints):
    rng = np.random.RandomState(seed)
    n = 24
    d = rng.permutation(np.r_[np.ones(12, int), -2 * np.ones(12, int)])
    lab = rng.permutation(n) % 2
    X = rng.randn(n, 2) * 0.6 + 2.0 * lab[:, None] + np.where(d < 0, 0.7, 0.0)[:, None]
    y = lab if kind == "clf" else np.round(X.sum(1), 1) + 0.05
    if kind == "clf":
        y = y.astype(ints)
    flip = np.array(y)
    t = np.where(d < 0)[0]
    if kind == "clf":
        flip[t] = 1 - flip[t] if seed % 2 else np.where(rng.rand(len(t)) < 0.5, 0, 1)
        flip[t[0]] = 1 - y[t[0]]
    else:
        flip[t] = rng.permutation(flip[t]) * 3 + 0.05
    return X, y, flip, d


def leak_real(scn):
    kind, name = scn["kind"], scn["name"]
    X, y, y2, d = real_data(kind, scn["seed"], scn.get("dtype", "int64"))
    outs = []

    def fit_predict(yy):
        np.random.seed(0)
        p = real_pipes(kind)[name]()
        p.fit(X.copy(), yy.copy(), sample_domain=d.copy())
        r = [p.predict(X[d < 0], sample_domain=d[d < 0])]
        if hasattr(p, "predict_proba"):
            r.append(p.predict_proba(X[d < 0], sample_domain=d[d < 0]))
        return r

    a, err = guarded(lambda: fit_predict(y))
    b, err2 = guarded(lambda: fit_predict(y2))
    same = not err and not err2 and all(np.array_equal(u, v) for u, v in zip(a, b))
    return [dict(ev="leak", name=kind + "_" + name, err=err or err2, masked=True, sameCalls=True, samePred=bool(same))]


# ------------------------------------------------------------------ building
class Alpha(_Rec):
    def transform(self, X):
        return X

    def fit_transform(self, X, y=None):
        return X


class Beta(Alpha):
    pass


class Prop(Alpha):
    predicts_target_labels = True


class Omega(_Rec):
    def predict(self, X):
        return X[:, 0]


BASES = dict(alpha=Alpha, beta=Beta, prop=Prop, omega=Omega)


def build_event(scn):
    """items: list of dicts base/name/sel/mask, or nested dict(name, items)"""
    import skada
    from skada import make_da_pipeline
    from skada.base import BaseSelector
    counter = [0]
    flat, objs = [], {}

    def mk(it):
        counter[0] += 1
        est = BASES[it["base"]](k=counter[0])
        rec = dict(id=counter[0], name=it.get("name", ""), sel=it.get("sel", ""), base=it["base"],
                   own=bool(it.get("name")), pred=it["base"] == "prop", mask=False)
        obj = est
        if rec["sel"]:
            cls = getattr(skada, rec["sel"])
            if rec["sel"] == "SelectTarget":
                obj = cls(est)
            else:
                obj = cls(est, mask_target_labels=it.get("mask", True))
                rec["mask"] = it.get("mask", True)
            # a wrapped step does not say that it predicts target labels
            rec["pred"] = False
            if it.get("used"):      # it ended another pipeline before
                make_da_pipeline(obj)
        objs[counter[0]] = obj
        return obj, rec

    args = []
    for it in scn["items"]:
        if "items" in it:
            sub, recs = [], []
            for x in it["items"]:
                o, r = mk(x)
                sub.append((x["name"], o) if x.get("name") else o)
                recs.append(r)
            nested = make_da_pipeline(*sub, mask_target_labels=it.get("mask", True))
            for (nm, selobj), r in zip(nested.steps, recs):
                r["name"] = f"{it['name']}__{nm}" if it.get("name") else nm
                r["mask"] = selobj.mask_target_labels
                r["sel"] = type(selobj).__name__
                r["pred"] = False
                r["own"] = bool(it.get("name"))
                objs[r["id"]] = selobj
                flat.append(r)
            args.append((it["name"], nested) if it.get("name") else nested)
        else:
            o, r = mk(it)
            flat.append(r)
            args.append((it["name"], o) if it.get("name") else o)
    kw = {}
    defsel = "Shared"
    bad = False
    ds = scn["defsel"]
    if ds == "shared":
        kw["default_selector"] = "shared"
    elif ds == "per_domain":
        kw["default_selector"], defsel = "per_domain", "PerDomain"
    elif ds == "call_PerDomain":
        kw["default_selector"], defsel = skada.PerDomain, "PerDomain"
    elif ds == "call_SelectSource":
        kw["default_selector"], defsel = skada.SelectSource, "SelectSource"
    elif ds == "call_lambda":
        kw["default_selector"] = lambda est, **k: skada.Shared(est, **k)
    elif ds == "bad_name":
        kw["default_selector"], bad = "no_such_selector", True
    elif ds == "bad_type":
        kw["default_selector"], bad = 3, True
    elif ds == "bad_call":
        kw["default_selector"], bad = (lambda est, **k: est), True
    bad = bad and any(r["sel"] == "" for r in flat)
    if scn["mask"] is not None:
        kw["mask_target_labels"] = scn["mask"]
    pipe, err = guarded(lambda: make_da_pipeline(*args, **kw))
    steps = []
    if not err:
        for nm, s in pipe.steps:
            depth, o = 0, s
            while isinstance(o, BaseSelector):
                depth, o = depth + 1, o.base_estimator
            i = getattr(o, "k", -1)
            steps.append(dict(name=nm, id=i, sel=type(s).__name__, depth=depth, final=bool(getattr(s, "_is_final", len(steps) == len(pipe.steps) - 1)),
                              mask=bool(s.mask_target_labels), kept=objs.get(i) is s))
    return [dict(ev=scn["ev"], items=flat, defsel=defsel, badsel=bad, mask=scn["mask"] is not False, err=err, steps=steps)]


# ----------------------------------------------------------------- scenarios
ALPHABETS = [[0, 1, 2, 3], [0, 1, 2, 3], [-3, 5, 4, -7], [10, -2, 0, 7], [-2, -3, -4, -5]]


def caller(rng, n, reg, weights, two_sided=True):
    labs = rng.choice([[1, -2], [1, -2], [1, 2, -3], [0, 1, -2, -3], [1, -1], [3, 0, -5, -1]])
    d = [rng.choice(labs) for _ in range(n)]
    if two_sided:
        p = rng.sample(range(n), 2)
        d[p[0]], d[p[1]] = labs[0], labs[-1]
    y = [2 * rng.randint(0, 3) + 1 if reg else rng.randint(0, 3) for _ in range(n)]
    if reg:
        y[0] = 3
    if not reg and n > 1 and len(set(y)) == 1:
        y[0] = (y[0] + 1) % 4
    if not reg:
        al = rng.choice(ALPHABETS)
        y = [al[v] for v in y]
    elif rng.random() < 0.4 and n > 2:      # real values near and at the class mask
        y = [y[0]] + [v - rng.choice([0, 4, 6, 40]) for v in y[1:]]
    return dict(n=n, d=d, y=y, wgiven=weights, w=[500 + 3 * i for i in range(n)],
                ydt=rng.choice(["int64", "int64", "int32", "float64", "int8"] + (["uint8", "uint16"] if min(y) >= 0 else [])))


def flips(rng, c, reg):
    if reg:
        return [v + 2 for v in c["y"]]
    al = next(a for a in ALPHABETS if set(c["y"]) <= set(a))
    return [rng.choice([a for a in al if a != v and (a >= 0 or c["ydt"][0] != "u")]) for v in c["y"]]


def preds(rng, c, prog):
    out = []
    doms = sorted(set(c["d"]))
    for _ in range(2):
        n = rng.randint(1, 6)
        pool = doms if rng.random() < 0.8 else doms + [7, -7]
        if any(s["kind"] == "AD" for s in prog) and rng.random() < 0.7:
            pool = [d + 5 if d >= 0 else d - 5 for d in doms]
        out.append(dict(ids=[101 + i for i in range(n)], d=[rng.choice(pool) for _ in range(n)],
                        method=rng.choice(METHODS)))
    return out


def weighted_ok(prog):
    # scikit-learn itself refuses weights that no step asks for
    return any(s["wreq"] == "yes" for s in prog)


def mk_run(rng, prog, reg, via="pipeline", n=None):
    # what is handed to a step depends on its own flags and on being last
    prog = [dict(s, last=(i == len(prog) - 1 and via == "pipeline"), two=rng.random() < 0.5) for i, s in enumerate(prog)]
    c = caller(rng, n or rng.randint(4, 9), reg, rng.random() < 0.5 and weighted_ok(prog))
    if reg and all(s["sel"] == "shared" and s["kind"] not in ("AS", "AY", "AYW") for s in prog) and rng.random() < 0.7:
        # a real label may be the very number that masks classes
        for i in rng.sample(range(1, c["n"]), rng.randint(1, 2)):
            c["y"][i] = -2
    return dict(ev="run", prog=prog, c=c, reg=reg, via=via, preds=preds(rng, c, prog), flip=flips(rng, c, reg),
                dlist=rng.random() < 0.15, dup=rng.choice(["none", "none", "clone", "deepcopy", "pickle"]))


FOCUS = {
    "C04": lambda p: all(s["mask"] for s in p) or not p[0]["mask"],
    "C06": lambda p: any(s["sel"] != "shared" for s in p),
    "C07": lambda p: any(s["kind"][0] == "A" for s in p[:-1]) or len(p) == 1,
    "C08": lambda p: any(s["kind"] == "E" for s in p),
}


def run_scenarios(chk):
    rng = random.Random(chk.seed * 7919 + int(chk.prop[1:]))
    g = chk.gen("GenPipeline.tla")[0]
    want = FOCUS[chk.prop]
    scns = []
    for p in g["singles"]:
        for reg in (False, True):
            if want(p) or rng.random() < 0.3:
                scns.append(mk_run(rng, p, reg, via=rng.choice(["pipeline", "pipeline", "direct"])))
    pairs = [p for p in g["pairs"] if want(p)]
    for p in rng.sample(pairs, min(len(pairs), chk.pick(900, 9000))):
        scns.append(mk_run(rng, p, rng.random() < 0.4))
    inter, finals = g["inter"], g["finals"]
    k = 0
    while k < chk.pick(700, 8000):
        p = [rng.choice(inter) for _ in range(rng.choice([2, 2, 3, 3, 4]))] + [rng.choice(finals)]
        if rng.random() < 0.7:      # mostly layouts that fit without an error
            for s in p[-1:]:
                if s["dreq"] == "unset":
                    s = p[-1] = dict(s, dreq="no")
                if s["wreq"] == "unset":
                    p[-1] = dict(s, wreq="yes")
        if want(p):
            scns.append(mk_run(rng, p, rng.random() < 0.4, n=rng.randint(5, 14)))
            k += 1
    # rows cut more than once, by steps that leave the caller's weights to the last one
    cuts = [s for s in inter if s["sel"] == "source" and s["wreq"] == "no" and s["kind"] in ("T", "Tn", "AY", "AD")]
    mids = [s for s in inter if s["sel"] in ("source", "shared") and (s["wreq"] == "no" or s["kind"] == "AS")]
    ends = [s for s in finals if s["kind"] == "E" and s["wreq"] == "yes" and s["dreq"] != "unset" and s["sel"] in ("shared", "source")]
    for _ in range(chk.pick(60, 600)):
        p = [rng.choice(mids) for _ in range(rng.randint(0, 1))] + [rng.choice(cuts), rng.choice(mids), rng.choice(cuts), rng.choice(ends)]
        p = p[rng.randint(0, 1):]
        if want(p):
            x = mk_run(rng, p, rng.random() < 0.4, n=rng.randint(6, 14))
            x["c"]["wgiven"] = True
            scns.append(x)
    return scns


def build_scenarios(chk):
    rng = random.Random(chk.seed * 104729 + 30)
    scns = []
    sels = ["", "", "", "", "Shared", "PerDomain", "SelectSource", "SelectTarget"]

    def item(last, names):
        b = rng.choice(["omega", "alpha"]) if last else rng.choice(["alpha", "alpha", "beta", "beta", "prop"])
        it = dict(base=b, sel=rng.choice(sels), mask=rng.random() < 0.7)
        it["used"] = bool(it["sel"]) and rng.random() < 0.4
        if rng.random() < 0.4:
            nm = rng.choice(["scale", "step", "alpha", "clf", "x_1", "omega"])
            if nm not in names:
                names.add(nm)
                it["name"] = nm
        return it

    for _ in range(chk.pick(700, 6000)):
        n = rng.randint(1, 6)
        names = set()
        items = []
        for i in range(n):
            last = i == n - 1
            if rng.random() < 0.2:
                inner = set()
                m = rng.randint(1, 3)
                nest = dict(items=[item(last and j == m - 1, inner) for j in range(m)], mask=rng.random() < 0.7,
                            name=rng.choice(["outer", "sub", None]))
                nest["name"] = nest["name"] + str(i) if nest["name"] else ""
                items.append(nest)
            else:
                items.append(item(last, names))
        scns.append(dict(ev="build", items=items, mask=rng.choice([None, True, False]),
                         defsel=rng.choice(["default", "shared", "per_domain", "call_PerDomain", "call_SelectSource",
                                            "call_lambda", "default", "bad_name", "bad_type", "bad_call"])))
    return scns


def corrupt(s, evs):
    e = copy.deepcopy(evs[0])
    if e["ev"] == "run":
        if e["err"] or not e["calls"]:
            return None
        # undefined programs are not judged
        call = next((c for c in e["calls"] if len(c["ids"]) > 1), None)
        if call is None or any(not c["ids"] for c in e["calls"]):
            return None
        how = len(json_len(s)) % 3
        if how == 0:
            call["ids"] = call["ids"][::-1]
        elif how == 1:
            call["y"] = [v + 1 for v in call["y"]]
        else:
            e["calls"].remove(call)
        return [e]
    if e["ev"] == "build":
        if e["err"] or len(e["steps"]) < 2:
            return None
        e["steps"][0], e["steps"][1] = e["steps"][1], e["steps"][0]
        return [e]
    if e["ev"] == "buildmask":
        st = [x for x in e["steps"]]
        if e["err"] or not st:
            return None
        st[-1]["mask"] = not st[-1]["mask"]
        return [e]
    if e["ev"] == "leak":
        e["samePred"] = False
        return [e]
    return None


def json_len(s):
    import json
    return json.dumps(s)


def check(chk):
    if chk.prop == "C30":
        chk.mc("MC_Pipeline.tla", must_cover=("Fit",))
        scns = build_scenarios(chk)
        runs = chk.execute(execute, scns)
        chk.judge("TracePipeline.tla", runs, corrupt=corrupt)
        return
    chk.mc("MC_Pipeline.tla", chk.pick("MC_Pipeline.cfg", "MC_Pipeline_T.cfg"), must_cover=("Fit",))
    scns = run_scenarios(chk)
    runs = chk.execute(execute, scns)
    chk.judge("TracePipeline.tla", runs, corrupt=corrupt)
    if chk.prop == "C04":
        # who is told to mask is decided when the pipeline is put together
        built = [dict(x, ev="buildmask") for x in build_scenarios(chk)[:chk.pick(400, 4000)] if not x["defsel"].startswith("bad")]
        chk.judge("TracePipeline.tla", chk.execute(execute, built), corrupt=corrupt)
        real = [dict(ev="leakreal", kind=k, name=n, seed=chk.seed * 100 + r, dtype=dt)
                for k, n in REAL for r in range(chk.pick(2, 12))
                for dt in (("int64", "int32", "int8") if k == "clf" and r == 0 else ("int64",))]
        chk.judge("TracePipeline.tla", chk.execute(execute, real), corrupt=corrupt)

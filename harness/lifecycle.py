"""C05, C28, C29: histories of calls on estimator objects, replayed on the machine of Lifecycle.tla."""
import contextlib
import copy
import inspect
import io
import os
import pickle
import random

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin, clone
from sklearn.exceptions import NotFittedError
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.utils.validation import check_is_fitted

from .core import digest, guarded

ASSUMPTIONS = ["the global random state is seeded before every fit, so estimators drawing from it are comparable"]


def trace_module(scn):
    return "TraceLifecycle.tla"


# ------------------------------------------------------------------ subjects
ALT = {  # parameter -> a value other than the default
    "metric": "euclidean", "norm": "max", "kernel": "linear", "solver": "scipy", "weights": "distance", "algorithm": "brute",
    "reg": 0.5, "base_method": "pca", "gamma": 0.25, "n_jobs": 1, "random_state": 7, "n_components": 1, "B": 2.0, "eps": 0.5, "cv": 3,
    "mask_target_labels": None, "max_iter": 7, "n_iter_max": 2, "tol": 0.05, "n_centers": 10, "train_size": 11, "advanced_ot_plan_sampling": True,
    "alpha": 0.25, "n_steps": 3, "length_scale": 0.5, "mu": 2.0, "k": 5, "p": 1, "leaf_size": 5, "coef0": 3,
}


def lr(**k):
    return LogisticRegression(**k)


def alt(cls, name, default):
    from sklearn.neighbors import KernelDensity
    from ot.da import SinkhornTransport
    if name == "weight_estimator":
        return KernelDensity(bandwidth=0.2)
    if name == "domain_classifier":
        return lr(C=0.05)
    if name == "ot_method":
        return SinkhornTransport(reg_e=5.0)
    if cls.startswith("JDOTClassifier") and name == "metric":
        return "hinge"
    if cls.startswith("ClassReg") and name == "norm":
        return "l1l2"
    if cls.startswith("TransferSubspace") and name == "reg":
        return 0.5
    if cls.startswith("NearestNeighbor") and name == "metric":
        return "chebyshev"
    if cls.startswith("MultiLinear") and name in ("reg", "bias") or cls.startswith("Linear") and name == "reg":
        return 0.7 if name == "reg" else False
    if name in ALT:
        return ALT[name]
    if isinstance(default, bool):
        return not default
    if isinstance(default, int):
        return default + 1
    if isinstance(default, float):
        return default * 3
    raise KeyError(f"no alternative for {cls}.{name}")


class ShiftR(RegressorMixin, BaseEstimator):
    """Least squares on features moved by an option of fit."""

    def fit(self, X, y, sample_weight=None, shift=0.0):
        self.m_ = Ridge(alpha=5.0).fit(X + shift * np.arange(X.shape[1]), y, sample_weight)
        self.shift_ = shift
        return self

    def predict(self, X):
        return self.m_.predict(X) + self.shift_


class ShiftC(ClassifierMixin, BaseEstimator):
    def fit(self, X, y, sample_weight=None, shift=0.0):
        self.m_ = lr(C=1 / (1 + 9 * shift)).fit(X, y, sample_weight)
        self.classes_ = self.m_.classes_
        return self

    def predict(self, X):
        return self.m_.predict(X)

    def predict_proba(self, X):
        return self.m_.predict_proba(X)


ESTS = {}   # name -> dict(make(**params), params, kind, ...)


def subjects():
    if ESTS:
        return ESTS
    import skada as s
    from sklearn.preprocessing import StandardScaler
    from sklearn.svm import SVC
    from skada._gradual_da import GradualEstimator

    def add(name, f, req=None, skip=(), **kw):
        sig = inspect.signature(f)
        req = req or {}
        pars = [p for p, v in sig.parameters.items() if v.kind is not v.VAR_KEYWORD and p not in skip + ("metric_params", "verbose")]
        ESTS[name] = dict(f=f, req=req, params=pars, defaults={p: v.default for p, v in sig.parameters.items()}, **kw)

    # adapters alone
    for n, req in {
        "OTMappingAdapter": {}, "EntropicOTMappingAdapter": {}, "ClassRegularizerOTMappingAdapter": {}, "LinearOTMappingAdapter": {},
        "MultiLinearMongeAlignmentAdapter": {}, "CORALAdapter": {}, "MMDLSConSMappingAdapter": dict(gamma=0.1, max_iter=10),
        "SubspaceAlignmentAdapter": dict(n_components=2), "TransferComponentAnalysisAdapter": dict(n_components=2),
        "TransferJointMatchingAdapter": dict(n_components=2, max_iter=5),
        "TransferSubspaceLearningAdapter": dict(n_components=2, max_iter=4),
        "DensityReweightAdapter": {}, "GaussianReweightAdapter": {}, "DiscriminatorReweightAdapter": {},
        "KLIEPReweightAdapter": dict(gamma=0.5, cv=2, max_iter=50), "NearestNeighborReweightAdapter": dict(n_neighbors=3), "KMMReweightAdapter": dict(max_iter=60),
        "MMDTarSReweightAdapter": dict(gamma=0.5, max_iter=50), "OTLabelPropAdapter": {}, "JCPOTLabelPropAdapter": dict(reg=0.3),
    }.items():
        add(n, getattr(s, n), req, kind="adapter", search=False)
    for n in ("Subsampler", "DomainSubsampler", "StratifiedDomainSubsampler"):
        add(n, getattr(s, n), dict(train_size=9, random_state=3), kind="adapter", search=False)
    # factories: whole pipelines
    for n, req in {
        "OTMapping": {}, "EntropicOTMapping": {}, "ClassRegularizerOTMapping": {}, "LinearOTMapping": {}, "MultiLinearMongeAlignment": {},
        "CORAL": {}, "MMDLSConSMapping": dict(gamma=0.1, max_iter=10), "SubspaceAlignment": dict(n_components=2),
        "TransferComponentAnalysis": dict(n_components=2), "TransferJointMatching": dict(n_components=2, max_iter=5),
        "TransferSubspaceLearning": dict(n_components=2, max_iter=4), "DensityReweight": {}, "GaussianReweight": {},
        "DiscriminatorReweight": {}, "KLIEPReweight": dict(cv=2, max_iter=50), "NearestNeighborReweight": dict(n_neighbors=3), "KMMReweight": dict(max_iter=60),
        "MMDTarSReweight": dict(max_iter=50), "OTLabelProp": {}, "JCPOTLabelProp": dict(reg=0.3),
    }.items():
        add(n, getattr(s, n), req, kind="est", pipe=True, random=n.startswith("KLIEP"), skip=("base_estimator",))
    # estimators
    add("DASVMClassifier", s.DASVMClassifier, dict(max_iter=4), kind="est", search=False, binary=True, nest=lambda: SVC(kernel="linear"), skip=("save_estimators", "save_indices"), nodom=True)
    add("JDOTRegressor", s.JDOTRegressor, {}, kind="est", reg=True, nest=lambda: Ridge())
    add("JDOTClassifier", s.JDOTClassifier, {}, kind="est", nest=lambda: lr())
    add("GradualEstimator", GradualEstimator, dict(n_steps=2), kind="est", search=False, nest=lambda: lr(), skip=("save_estimators", "save_intermediate_data"), nodom=True)
    # estimators left to their defaults
    add("DASVMClassifier_default", s.DASVMClassifier, dict(max_iter=4), kind="est", search=False, binary=True, skip=("save_estimators", "save_indices", "base_estimator"), nodom=True, random=True)
    add("JDOTRegressor_default", s.JDOTRegressor, {}, kind="est", reg=True, skip=("base_estimator",))
    add("JDOTClassifier_default", s.JDOTClassifier, {}, kind="est", skip=("base_estimator",))
    def gradual_ot(reg_e=1.0):
        return GradualEstimator(n_steps=1, base_estimator=lr()).set_params(ot_method__reg_e=reg_e)

    def classreg_svc(C=1.0):
        return s.ClassRegularizerOTMapping().set_params(svc__C=C)
    ALT["reg_e"] = 30.0
    add("GradualEstimator_ot", gradual_ot, {}, kind="est", search=False, nodom=True, key={"reg_e": "ot_method__reg_e"})
    add("ClassRegularizerOTMapping_svc", classreg_svc, {}, kind="est", key={"C": "svc__C"})
    # options of the base estimator's fit are taken as keyword arguments
    def jdot_c(shift=0.0):
        return s.JDOTClassifier(ShiftC(), shift=shift, n_iter_max=5)

    def jdot_r(shift=0.0):
        return s.JDOTRegressor(ShiftR(), shift=shift, n_iter_max=5)
    ALT["shift"] = 2.0
    add("JDOTClassifier_options", jdot_c, {}, kind="est")
    add("JDOTRegressor_options", jdot_r, {}, kind="est", reg=True)
    # selectors
    nl = lambda: lr()  # noqa: E731

    def sel(cls, key="base_estimator"):
        def make(C=1.0, **k):
            inner = k.pop("_inner", None) or lr(C=C)
            if cls is s.SelectSourceTarget:
                return cls(inner, lr(C=0.5), **k)
            return cls(inner, **({"mask_target_labels": False} if cls is s.PerDomain else {}), **k)
        make.__signature__ = inspect.Signature([inspect.Parameter("C", inspect.Parameter.POSITIONAL_OR_KEYWORD, default=1.0)])
        return make
    ALT["C"] = 0.03
    for c in ("Shared", "PerDomain", "SelectSource", "SelectTarget"):
        add(c, sel(getattr(s, c)), {}, kind="est", unmasked=c in ("SelectTarget", "PerDomain"), key={"C": "C"}, allq=c == "PerDomain", noscore=c == "PerDomain")
    add("SelectSourceTarget", sel(s.SelectSourceTarget), {}, kind="est", unmasked=True, key={"C": "source_estimator__C"}, allq=True, noscore=True)

    def shared_mask(mask_target_labels=True):
        return s.Shared(lr(), mask_target_labels=mask_target_labels)
    add("Shared_mask", shared_mask, {}, kind="est")

    def scale_pipe(with_mean=True, C=1.0):
        return s.make_da_pipeline(StandardScaler(with_mean=with_mean), s.PerDomain(StandardScaler()), lr(C=C))
    add("pipe_scale", scale_pipe, {}, kind="est", key={"C": "logisticregression__C", "with_mean": "standardscaler__with_mean"})
    ALT["with_mean"] = False

    def unmask_pipe(C=1.0, mask_target_labels=False):
        return s.make_da_pipeline(StandardScaler(), s.Shared(lr(C=C), mask_target_labels=mask_target_labels))
    add("pipe_unmasked", unmask_pipe, {}, kind="est", key={"C": "logisticregression__C", "mask_target_labels": "logisticregression__mask_target_labels"})

    def st_pipe(C=1.0):
        return s.make_da_pipeline(s.SelectSourceTarget(StandardScaler(), StandardScaler(with_std=False)), s.SelectSource(lr(C=C)))
    add("pipe_st", st_pipe, {}, kind="est", key={"C": "selectsource__C"}, keyany=True)

    def reweight_pipe(C=1.0, n_neighbors=2):
        return s.make_da_pipeline(s.NearestNeighborReweightAdapter(n_neighbors=n_neighbors), lr(C=C).set_fit_request(sample_weight=True))
    add("pipe_reweight", reweight_pipe, {}, kind="est", key={"C": "logisticregression__C", "n_neighbors": "nearestneighborreweightadapter__n_neighbors"})
    ALT["n_neighbors"] = 7

    def sub_pipe(train_size=12, C=1.0):
        return s.make_da_pipeline(StandardScaler(), s.DomainSubsampler(train_size, random_state=0), s.CORALAdapter(), lr(C=C))
    add("pipe_subsample", sub_pipe, {}, kind="est", key={"C": "logisticregression__C", "train_size": "domainsubsampler__train_size"})

    def dasvm_pipe(k=3):
        return s.make_da_pipeline(StandardScaler(), s.DASVMClassifier(SVC(kernel="linear"), k=k, max_iter=3))
    def gradual_pipe(n_steps=2):
        return s.make_da_pipeline(StandardScaler(), GradualEstimator(n_steps=n_steps, base_estimator=lr()))
    add("pipe_gradual", gradual_pipe, {}, kind="est", search=False, key={"n_steps": "gradualestimator__n_steps"})
    add("pipe_dasvm", dasvm_pipe, {}, kind="est", search=False, binary=True, key={"k": "dasvmclassifier__k"})
    return ESTS


def values(sub, name):
    """The two parameter settings of a history: p=1 the configured defaults, p=2 with one (or all) changed."""
    sb = subjects()[sub]
    base = dict(sb["req"])
    two = dict(base)
    if name.endswith("=None"):
        return {1: base, 2: dict(base, **{name[:-5]: None})}
    for n in ([name] if name != "*" else sb["params"]):
        if n == "base_estimator":
            from sklearn.svm import SVC
            two[n] = Ridge(alpha=50.0) if sb.get("reg") else SVC(kernel="rbf", gamma=0.3) if sb.get("binary") else lr(C=20.0)
            continue
        if n == "C" or sb["f"].__name__ == "make":
            two[n] = 0.03
        elif n == "mask_target_labels":
            two[n] = not sb["defaults"][n]
        else:
            v = alt(sub, n, sb["defaults"][n])
            if n in base and base[n] == v:
                v = v * 2
            two[n] = v
    return {1: base, 2: two}


# ------------------------------------------------------------------ data
def datasets(scn):
    sb = subjects()[scn["sub"]]
    out = {}
    for d, (n, f, dom, seed) in {1: (30, 2, (1, -2), 0), 2: (23, 2 + scn["seed"] % 2, (3, -4), 1)}.items():
        r = np.random.RandomState(100 * scn["seed"] + seed)
        D = np.array([dom[i % 2] for i in range(n)])
        r.shuffle(D)
        k = 2 if (sb.get("binary") or d == 1) else 3
        lab = np.arange(n) % k
        r.shuffle(lab)
        for s_ in dom:   # every class on both sides
            lab[D == s_] = np.arange((D == s_).sum()) % k
        X = r.randn(n, f) * 0.8 + 1.7 * lab[:, None] * (np.arange(f) % 2 * 2 - 1) + 0.6 * (D < 0)[:, None]
        y = lab + (0 if d == 1 else 1)
        if sb.get("reg"):
            y = X @ np.arange(1, f + 1) + 0.25 + 0.1 * r.randn(n)
        Xq = r.randn(11, f) * 1.5 + 0.5
        out[d] = dict(X=X, y=y, sd=D, Xq=Xq, sdq=np.full(11, dom[1]), Xa=r.randn(8, f), sda=np.array([dom[i % 2] for i in range(8)]),
                      w=r.rand(n) + 0.5)
    if scn["readonly"]:
        for v in out.values():
            for a in v.values():
                a.flags.writeable = False
    return out


def flat(o):
    if isinstance(o, tuple):
        return np.concatenate([flat(x) for x in o]) if o else np.zeros(0)
    if isinstance(o, dict):
        return np.concatenate([flat(o[k]) for k in sorted(o)] + [np.zeros(0)])
    if o is None:
        return np.zeros(0)
    return np.asarray(o, float).ravel()


def canon(v, depth=0):
    if isinstance(v, np.ndarray):
        return digest(v)
    if isinstance(v, (list, tuple)):
        return [canon(x, depth + 1) for x in v]
    if isinstance(v, dict):
        return {str(k): canon(x, depth + 1) for k, x in sorted(v.items(), key=lambda z: str(z[0]))}
    if isinstance(v, np.random.RandomState):
        return digest(np.asarray(v.get_state()[1]))
    if hasattr(v, "get_params") or type(v).__module__.startswith("ot."):
        return type(v).__name__
    return repr(v)


def report(o):
    return canon(o.get_params(deep=True))


def innards(o, path=()):
    """Everything a (nested) estimator holds, fitted attributes included."""
    if isinstance(o, np.ndarray):
        return digest(o)
    if id(o) in path:
        return "itself"
    path += (id(o),)
    if isinstance(o, (list, tuple)):
        return [innards(x, path) for x in o]
    if isinstance(o, dict):
        return {str(k): innards(x, path) for k, x in sorted(o.items(), key=lambda z: str(z[0]))}
    if hasattr(o, "__dict__") and not callable(o):
        return [type(o).__name__, innards(vars(o), path)]
    return repr(o) if not callable(o) else "callable"


class Obj:
    def __init__(self, est, fitout=None, d=0):
        self.est, self.fitout, self.d = est, fitout, d


def owned(est, top=True):
    """The innards of every estimator handed over as a parameter: of the object, and of each step of a pipeline (whose steps are fitted in place)."""
    try:
        pars = est.get_params(deep=False)
    except Exception:
        return ()
    steps = getattr(est, "steps", None)
    if steps is not None:
        return tuple((n, owned(e, False)) for n, e in steps if hasattr(e, "get_params"))
    return tuple((n, innards(v)) for n, v in sorted(pars.items()) if not isinstance(v, type) and (hasattr(v, "get_params") or type(v).__module__.startswith("ot.")))


def build(scn, p, nest=None):
    sb = subjects()[scn["sub"]]
    pars = dict(values(scn["sub"], scn["par"])[p])
    if nest is not None and "base_estimator" not in pars and sb.get("nest"):
        pars["base_estimator"] = nest
    pars = {k: (clone(v, safe=False) if hasattr(v, "get_params") and v is not nest else v) for k, v in pars.items()}
    return sb["f"](**pars), pars


def find_key(est, sb, name):
    k = sb.get("key", {}).get(name, name)
    keys = est.get_params(deep=True)
    if k in keys:
        return k
    hits = [x for x in keys if x.endswith("__" + k.split("__")[-1])]
    hits = [x for x in hits if "adapter" in x] or hits
    return min(hits, key=len) if hits else None


def fit(o, sb, D, d, seed=5):
    np.random.seed(seed)
    v = D[d]
    kw = dict(sample_domain=v["sd"])
    if sb["kind"] == "adapter":
        o.fitout = copy.deepcopy(o.est.fit_transform(v["X"], v["y"], **kw))
    else:
        o.est.fit(v["X"], v["y"], **kw)
        o.fitout = None
    o.d = d


REFUSED = 123456789.0


def foreign(o, sb, v):
    """What a fitted object says to rows of any domain of the two data sets, its own and the other's; refusals included."""
    outs = []
    for lab in (1, -2, 3, -4):
        q = dict(sample_domain=np.full(4, lab))
        f = o.est.transform if sb["kind"] == "adapter" else o.est.predict
        try:
            outs.append(flat(f(v["Xq"][:4], **q)))
        except Exception:  # noqa: BLE001
            outs.append(np.full(1, REFUSED))
    return np.concatenate(outs)


def ask(o, sb, D):
    """All answers of a fitted object, as one vector."""
    v = D[o.d]
    np.random.seed(11)
    e = o.est
    outs = [flat(o.fitout)]
    if not sb.get("nodom"):
        outs.append(foreign(o, sb, v))
    if sb["kind"] == "adapter":
        outs.append(flat(e.transform(v["Xq"], sample_domain=v["sdq"])))
        return np.concatenate(outs)
    kw = {} if sb.get("nodom") else dict(sample_domain=v["sdq"])
    ms = ["predict"] + [m for m in ("predict_proba", "decision_function") if hasattr(e, m)]
    for m in ms:
        if m != "predict" and sb.get("reg"):
            continue
        outs.append(flat(getattr(e, m)(v["Xq"], **kw)))
        if sb.get("allq"):
            outs.append(flat(getattr(e, m)(v["Xa"], sample_domain=v["sda"])))
    return np.concatenate(outs)


def is_fitted(e):
    try:
        check_is_fitted(e)
        return True
    except (NotFittedError, TypeError):
        return False


def in_child(fn):
    """Run fn in a forked child, so that nothing it does can be seen here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                b = pickle.dumps((fn(), ""))
            except BaseException as ex:  # noqa: BLE001
                b = pickle.dumps((None, type(ex).__name__))
            with os.fdopen(w, "wb") as f:
                f.write(b)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        b = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else (None, "ChildDied")


REFS = {}


def fresh(scn, p, d):
    """What a fresh object does, worked out once per setting and data set."""
    k = (scn["sub"], scn["par"], scn["seed"], p, d)
    if k not in REFS:
        REFS[k] = _fresh(dict(scn, readonly=False), p, d)
    return REFS[k]


def _fresh(scn, p, d):
    """What a fresh object configured with p and fitted on d reports and answers."""
    sb = subjects()[scn["sub"]]

    def go():
        nest = sb["nest"]() if sb.get("nest") else None
        e, _ = build(scn, p, nest)
        rep = report(e)
        o = Obj(e)
        fit(o, sb, datasets(scn), d)
        return rep, ask(o, sb, datasets(scn))
    return in_child(go)


def same(a, b):
    return a is not None and b is not None and a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-8, equal_nan=True)


def bad_fit(o, sb, D, d):
    v = D[d]
    m = o.est.fit_transform if sb["kind"] == "adapter" else o.est.fit
    m(v["X"], v["y"][:-3], sample_domain=v["sd"])


def execute(scn):
    with contextlib.redirect_stdout(io.StringIO()):
        return _execute(scn)


def _execute(scn):
    if scn["kind"] == "call":
        return ex_call(scn)
    if scn["kind"] == "factory":
        return ex_factory(scn)
    sb = subjects()[scn["sub"]]
    D = datasets(scn)
    before = {d: digest(*v.values()) for d, v in D.items()}
    dsets = sorted({a["d"] for a in scn["h"] if a["op"] in ("fit", "search")})
    refs, reps = {}, {}
    for p in (1, 2):
        for d in dsets:
            (r, err) = fresh(scn, p, d)
            if err:   # a fresh object refuses this setting or data
                refs[p, d] = err
            else:
                reps[p], refs[p, d] = r
    for p in (1, 2):
        if p not in reps:
            (r, err) = in_child(lambda: report(build(scn, p, sb["nest"]() if sb.get("nest") else None)[0]))
            reps[p] = r
    nest = sb["nest"]() if sb.get("nest") else None
    nest0 = innards(nest)
    objs = {}
    evs = [dict(ev="begin", prop=scn["prop"], sub=scn["sub"], par=scn["par"])]
    hist = [dict(a) for a in scn["h"]]

    def setpar(est, p):
        vals = values(scn["sub"], scn["par"])
        names = [n for n in set(vals[1]) | set(vals[2])]
        kw = {}
        for n in names:
            v = vals[p].get(n, sb["defaults"].get(n))
            if n == "base_estimator" and n not in vals[p] and nest is not None:
                v = nest
            k = find_key(est, sb, n)
            kw[k if k else n] = clone(v, safe=False) if hasattr(v, "get_params") and v is not nest else v
        return kw

    def dummy_score(est, X, y, **kw):
        return 0.5
    for a in hist:
        rep_ok = True
        op, o, o2 = a["op"], a["o"], a["o2"]

        held = {} if op == "set" else {k: (id(ob.est), owned(ob.est)) for k, ob in objs.items()}

        def run():
            nonlocal rep_ok
            if op == "new":
                e, pars = build(scn, a["p"], nest)
                objs[o] = Obj(e)
                got = e.get_params(deep=True)
                for n, v in pars.items():
                    k = find_key(e, sb, n)
                    # None stands for the default estimator in these
                    rep_ok = rep_ok and k is not None and (v is None and (sb["defaults"].get(n) is None) or got[k] is v or canon(got[k]) == canon(v))
            elif op == "set":
                objs[o].est.set_params(**setpar(objs[o].est, a["p"]))
            elif op == "clone":
                objs[o2] = Obj(clone(objs[o].est))
            elif op == "copy":
                objs[o2] = Obj(pickle.loads(pickle.dumps(objs[o].est)) if scn["pickle"] else copy.deepcopy(objs[o].est), objs[o].fitout, objs[o].d)
            elif op == "fit":
                fit(objs[o], sb, D, a["d"])
            elif op == "badfit":
                bad_fit(objs[o], sb, D, 1)
            elif op == "score":
                v = D[objs[o].d]
                t = v["sd"] < 0
                if sb.get("noscore"):   # the score of several estimators at once is not defined
                    ask(objs[o], sb, D)
                elif sb["kind"] == "est":
                    objs[o].est.score(v["X"][t], v["y"][t], **({} if sb.get("nodom") else dict(sample_domain=v["sd"][t])))
                else:
                    objs[o].est.transform(v["Xq"][:3], sample_domain=v["sdq"][:3])
            elif op == "search":
                from sklearn.model_selection import GridSearchCV
                from skada.model_selection import SourceTargetShuffleSplit
                v = D[a["d"]]
                kw = {k: [x] for k, x in setpar(objs[o].est, a["p"]).items()}
                g = GridSearchCV(objs[o].est, kw, scoring=dummy_score, cv=SourceTargetShuffleSplit(n_splits=1, random_state=0, test_size=0.3), error_score="raise")
                np.random.seed(5)
                g.fit(v["X"], v["y"], sample_domain=v["sd"])
                objs[o2] = Obj(g.best_estimator_, None, a["d"])
        _, err = guarded(run, 100)
        answers = []
        if not err or op == "badfit":
            for k, ob in sorted(objs.items()):
                if is_fitted(ob.est) and ob.d and not (op == "badfit" and k == o):
                    got, qe = guarded(lambda: ask(ob, sb, D))
                    if not qe:
                        answers.append(dict(o=k, match=[[p, d] for (p, d), r in sorted(refs.items()) if not isinstance(r, str) and d == ob.d and same(got, r)]))
                    else:
                        answers.append(dict(o=k, match=[]))
        if op == "badfit":
            objs[o].d = 0
        pids = [[p for p in (1, 2) if k in objs and reps[p] == report(objs[k].est)] for k in (1, 2)]
        refused = [[p, d] for (p, d), r in sorted(refs.items()) if isinstance(r, str)]
        evs.append(dict(ev="op", op=op, refused=refused, o=o, o2=o2, p=a["p"], d=a["d"], err=err, pids=pids, answers=answers, reported=bool(rep_ok),
                        fitted=[k in objs and is_fitted(objs[k].est) for k in (1, 2)],
                        caller=any(digest(*D[d].values()) != before[d] for d in D), nested=innards(nest) != nest0 or any(k in objs and id(objs[k].est) == i and owned(objs[k].est) != h for k, (i, h) in held.items()),
                        sub=scn["sub"], par=scn["par"]))
        if err and op != "badfit":
            break
    return evs


# ------------------------------------------------------------------ factories: every argument reaches a step
def ex_factory(scn):
    import skada
    f = getattr(skada, scn["sub"])
    v = values(scn["sub"], scn["par"])[2]
    ev = dict(ev="factory", sub=scn["sub"], par=scn["par"], err="", reported=False)

    def go():
        pipe = f(**v)
        got = pipe.get_params(deep=True)
        k = find_key(pipe, subjects()[scn["sub"]], scn["par"])
        return k is not None and (got[k] is v[scn["par"]] or canon(got[k]) == canon(v[scn["par"]]))
    r, err = guarded(go)
    ev.update(err=err, reported=bool(r))
    return [ev]


# ------------------------------------------------------------------ C05: calls without an estimator's life
def calls():
    import skada
    from skada import metrics as M
    from skada import model_selection as MS
    from skada import utils as U
    from skada.datasets import DomainAwareDataset
    from sklearn.preprocessing import StandardScaler
    c = {}
    for n in ("check_X_y_domain", "check_X_domain"):
        f = getattr(U, n)
        c[n] = lambda v, f=f, n=n: f(v["X"], v["y"], v["sd"]) if "y" in n else f(v["X"], v["sd"])
    c["source_target_split"] = lambda v: U.source_target_split(v["X"], v["y"], v["w"], sample_domain=v["sd"])
    c["per_domain_split"] = lambda v: [list(map(np.array, x)) for x in U.per_domain_split(v["X"], v["y"], sample_domain=v["sd"])[0].values()]
    c["source_target_merge"] = lambda v: U.source_target_merge(v["X"][v["sd"] >= 0], v["X"][v["sd"] < 0], sample_domain=v["sd"])
    c["extract_source_indices"] = lambda v: U.extract_source_indices(v["sd"])
    c["extract_domains_indices"] = lambda v: U.extract_domains_indices(v["sd"])
    for n, k in dict(SourceTargetShuffleSplit={}, DomainShuffleSplit={}, StratifiedDomainShuffleSplit={}, LeaveOneDomainOut=dict(max_n_splits=2)).items():
        cls = getattr(MS, n)

        def sp(v, cls=cls, k=k, n=n):
            sd = v["sd"]
            if n == "LeaveOneDomainOut":
                sd = v["sd2"]
            return [np.concatenate(s) for s in cls(random_state=0, test_size=0.4, **k).split(v["X"], v["y"], sd)] if n != "LeaveOneDomainOut" else [
                np.concatenate(s) for s in cls(random_state=0, **k).split(v["X"], v["y"], sd)]
        c[n] = sp
    for n in ("ImportanceWeightedScorer", "PredictionEntropyScorer", "SoftNeighborhoodDensity", "DeepEmbeddedValidation", "MixValScorer", "CircularValidation"):
        def sc(v, n=n):
            from skada import make_da_pipeline
            p = make_da_pipeline(StandardScaler(), lr().set_score_request(sample_weight=True)).fit(v["X"], v["y"], sample_domain=v["sd"])
            np.random.seed(3)
            cls = getattr(M, n)
            s = cls(random_state=0) if "random_state" in inspect.signature(cls).parameters else cls()
            return s(p, v["X"], v["ym"], sample_domain=v["sd"])
        c[n] = sc

    def sup(v):
        from skada import make_da_pipeline
        p = make_da_pipeline(StandardScaler(), lr()).fit(v["X"], v["y"], sample_domain=v["sd"])
        return M.SupervisedScorer()(p, v["X"], v["ym"], v["sd"], target_labels=v["y"])
    c["SupervisedScorer"] = sup

    def cv(v):
        from skada import make_da_pipeline
        from sklearn.model_selection import cross_validate
        p = make_da_pipeline(StandardScaler(), skada.CORALAdapter(), lr())
        return cross_validate(p, v["X"], v["y"], params=dict(sample_domain=v["sd"]), scoring=M.PredictionEntropyScorer(),
                              cv=MS.SourceTargetShuffleSplit(n_splits=2, random_state=0))["test_score"]
    c["cross_validate"] = cv

    def cvt(v):
        from skada import make_da_pipeline
        from sklearn.model_selection import cross_validate
        p = make_da_pipeline(StandardScaler(), lr())
        return cross_validate(p, v["X"], v["ym"], params=dict(sample_domain=v["sd"], target_labels=v["y"]),
                              scoring=M.SupervisedScorer(), cv=MS.SourceTargetShuffleSplit(n_splits=2, random_state=0))["test_score"]
    c["cross_validate_supervised"] = cvt

    def pack(v):
        s, t = v["sd"] >= 0, v["sd"] < 0
        ds = DomainAwareDataset()
        Xs, ys, Xt, yt = v["X"][s], v["y"][s], v["X"][t], v["y"][t]
        for a in (Xs, ys, Xt, yt):
            a.flags.writeable = False
        ds.add_domain(Xs, ys, "s").add_domain(Xt, yt, "t")
        out = []
        for m, kw in ((ds.pack_train, dict(as_sources=["s"], as_targets=["t"])), (ds.pack_test, dict(as_targets=["t"])), (ds.pack_lodo, {})):
            x, y, d = m(**kw)
            x[0] += 1   # the pack is the caller's own copy
            out += [y, d]
        again = ds.get_domain("s")
        return out + [again[0], again[1], Xs, ys, Xt, yt]
    c["pack"] = pack
    for n in ("jdot_r", "jdot_c"):
        def jd(v, n=n):
            from sklearn.linear_model import Ridge
            s = v["sd"] >= 0
            X, y = v["X"], v["y"]
            f = skada.solve_jdot_regression if n == "jdot_r" else skada.solve_jdot_classification
            b = v["est"] if n == "jdot_c" else Ridge()
            o = f(b, X[s], y[s], X[~s], ws=v["ws"][: s.sum()], wt=v["ws"][: (~s).sum()], n_iter_max=3)
            return [o[0].predict(X)]
        c["solve_" + n] = jd

    def qp(v):
        n = 4
        Q = v["Q"]
        return [U.qp_solve(Q, v["c"], A=v["A"], b=v["b"], lb=v["lb"], ub=v["ub"], x0=v["x0"], solver="scipy", log=False)[0]]
    c["qp_solve"] = qp

    def fw(v):
        return [U.qp_solve(v["Q"], v["c"], A=v["A"], b=v["b"], x0=v["x0"], solver="frank-wolfe", log=False)[0]]
    c["frank_wolfe"] = fw
    return c


def flat_any(o):
    if isinstance(o, (list, tuple)):
        return np.concatenate([flat_any(x) for x in o] + [np.zeros(0)])
    if isinstance(o, dict):
        return np.concatenate([np.concatenate([np.array([float(k)]), flat_any(x)]) for k, x in sorted(o.items())] + [np.zeros(0)])
    if o is None:
        return np.zeros(0)
    return np.asarray(o, float).ravel()


def ex_call(scn):
    v = datasets(dict(scn, sub="Shared", readonly=False))[1]
    v = dict(v, ym=np.where(v["sd"] < 0, -1, v["y"]), sd2=np.array([1, -1, 2, -2, 3, -3] * 5), ws=np.ones(40),
             Q=np.eye(4) * 2, c=-np.arange(1.0, 5), A=np.ones((1, 4)), b=np.array([1.0]), lb=np.zeros(4), ub=np.ones(4), x0=np.full(4, 0.25),
             est=lr())
    if scn["readonly"]:
        for a in v.values():
            if isinstance(a, np.ndarray):
                a.flags.writeable = False
    arrs = [a for a in v.values() if isinstance(a, np.ndarray)]
    before, n0 = digest(*arrs), innards(v["est"])
    f = calls()[scn["call"]]

    def go():
        r1 = flat_any(f(v))
        return r1, flat_any(f(v))
    r, err = guarded(go)
    return [dict(ev="call", name=scn["call"], err=err, caller=digest(*arrs) != before, nested=innards(v["est"]) != n0,
                 same=bool(not err and same(*r)), readonly=scn["readonly"])]


# ------------------------------------------------------------------ scenarios
WANT = {
    "C05": ["refit", "two_objects", "search", "fit_after_refused", "set_then_fit", "copy"],
    "C28": ["set_back", "two_configured", "clone_of_changed", "fit_set_fit", "clone_of_fitted", "search", "set_then_fit", "copy"],
    "C29": ["refit_other_data", "refit", "fit_set_fit", "two_objects", "fit_after_refused", "clone_of_fitted"],
}


NONES = {("TransferSubspaceLearningAdapter", "reg"), ("JDOTClassifier", "base_estimator"), ("JDOTRegressor", "base_estimator"),
         ("DASVMClassifier", "base_estimator"), ("GradualEstimator", "ot_method"), ("DensityReweightAdapter", "weight_estimator"),
         ("DiscriminatorReweightAdapter", "domain_classifier"), ("KMMReweightAdapter", "gamma"), ("SubspaceAlignmentAdapter", "n_components"),
         ("TransferComponentAnalysisAdapter", "n_components"), ("OTLabelPropAdapter", "reg"), ("CORALAdapter", "reg")}


def left_out(sb):
    """Parameters given a value in every setting although they may be left out."""
    return [p for p in sb["params"] if p in sb["req"] and sb["defaults"][p] is None]


def scenarios(chk, hists):
    rng = random.Random(chk.seed * 77 + int(chk.prop[1:]))
    by = {}
    for h in hists:
        for c in h["c"]:
            by.setdefault(c, []).append(h["h"])
    out = []
    for name, sb in subjects().items():
        pars = list(sb["params"]) if chk.prop == "C28" else [rng.choice(sb["params"]) for _ in range(chk.pick(2, 6))]
        if chk.prop == "C28":
            pars += [p + "=None" for p in sb["params"] if (name, p) in NONES or p in left_out(sb)]
        else:
            pars += [p + "=None" for p in left_out(sb)]
        reps = chk.pick({"C28": 4, "C29": 5, "C05": 3}[chk.prop], {"C28": 16, "C29": 18, "C05": 8}[chk.prop])
        want = WANT[chk.prop]
        i = rng.randrange(6)
        for p in pars:
            seed = rng.randrange(50)
            for r in range(reps):
                for _try in range(40):
                    c = want[i % len(want)] if chk.prop != "C28" or r >= 2 else want[r]
                    h = rng.choice(by[c])
                    srch = any(a["op"] == "search" for a in h)
                    if srch and (sb["kind"] != "est" or sb.get("random") or sb.get("search") is False):
                        i += 1
                        continue
                    if any(a["op"] == "new" and a["o"] == 2 for a in h) or chk.prop != "C29" or c not in ("two_objects",) or rng.random() < 0.4:
                        break
                i += 1
                out.append(dict(kind="life", prop=chk.prop, sub=name, par=p, h=h, cls=c, seed=seed + r % 2 if r < 6 else rng.randrange(50),
                                readonly=rng.random() < (0.8 if chk.prop == "C05" else 0.2), pickle=rng.random() < 0.5))
        if chk.prop == "C28" and sb.get("pipe"):
            for p in sb["params"]:
                out.append(dict(kind="factory", prop=chk.prop, sub=name, par=p))
    if chk.prop == "C05":
        for n in calls():
            for ro in (True, False):
                for sd in range(chk.pick(1, 6)):
                    out.append(dict(kind="call", prop="C05", call=n, readonly=ro, seed=sd))
    return out


def corrupt(s, evs):
    if s["kind"] != "life":
        return None
    e = copy.deepcopy(evs)
    done = False
    for x in e[1:]:
        if x["err"]:
            return None
        for a in x["answers"]:
            if len(a["match"]) == 1:
                a["match"] = [[3 - a["match"][0][0], a["match"][0][1]]]
                done = True
        x["caller"] = done
        x["pids"] = [[3 - p for p in q] if len(q) == 1 else q for q in x["pids"]]
    return e if done else None


def check(chk):
    chk.mc("MC_Lifecycle.tla", chk.pick("MC_Lifecycle.cfg", "MC_Lifecycle_T.cfg"), must_cover=("New", "Set", "Clone", "Copy", "Fit", "Search", "Query"))
    bad = {"C05": "CopyData", "C28": "CloneNested", "C29": "ResetInFit"}[chk.prop]
    chk.mc_refuted("MC_Lifecycle.tla", f"MC_Lifecycle_Bad{bad}.cfg")
    hists = chk.gen("GenLifecycle.tla", workers=1)
    chk.judge("TraceLifecycle.tla", chk.execute(execute, scenarios(chk, hists)), corrupt=corrupt)

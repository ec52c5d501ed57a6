"""C39: cross-validation and parameter search over domain-aware pipelines."""
import random

import numpy as np

from .core import digest, fx, guarded

ASSUMPTIONS = ["base estimators answer from the row, their parameter and the rows they were fitted on", "folds with rows for every estimator involved"]


def trace_module(scn):
    return "TraceSelection.tla"


def recorder(bias, aware, log):
    from sklearn.base import BaseEstimator, ClassifierMixin

    class Rec(ClassifierMixin, BaseEstimator):
        def __init__(self, bias=0):
            self.bias = bias

        def _learn(self, X, y, ds):
            self.ids_ = [int(v) for v in X[:, 0]]
            self.classes_ = np.array([0, 1, 2])
            log.append(("fit", dict(bias=self.bias, ids=self.ids_, ys=[int(v) for v in y], ds=[] if ds is None else [int(v) for v in ds])))
            return self

        def fit(self, X, y):
            return self._learn(X, y, None)

        def _level(self, X):
            log.append(("ask", dict(bias=self.bias, ids=self.ids_, rows=[int(v) for v in X[:, 0]])))
            return X[:, 1].astype(int) + self.bias + sum(self.ids_)

        def predict(self, X):
            return self._level(X) % 3

        def predict_proba(self, X):
            return np.where(self._level(X)[:, None] % 2 == 0, [[1, 0, 0.]], [[.5, .5, 0]])

    class Aware(Rec):
        __metadata_request__fit = {"sample_domain": True}

        def fit(self, X, y, sample_domain=None):
            k = np.asarray(y) != -1   # masked rows reach an estimator that knows about domains
            return self._learn(X[k], np.asarray(y)[k], np.asarray(sample_domain)[k])
    return (Aware if aware else Rec)(bias)


def pipeline(scn, log):
    from skada import PerDomain, SelectSource, SelectSourceTarget, SelectTarget, make_da_pipeline
    from sklearn.preprocessing import FunctionTransformer
    r = recorder(0, scn["aware"], log)
    hide = scn["hide"]
    sel = dict(shared=lambda: r, source=lambda: SelectSource(r, mask_target_labels=hide), target=lambda: SelectTarget(r),
               st=lambda: SelectSourceTarget(r, recorder(0, scn["aware"], log)) if scn["two"] else SelectSourceTarget(r),
               per=lambda: PerDomain(r, mask_target_labels=hide))[scn["sel"]]()
    steps = ([FunctionTransformer()] if scn["pre"] else []) + [sel]
    return make_da_pipeline(*steps, mask_target_labels=hide)


def splitter(scn):
    from skada import model_selection as M
    from sklearn.model_selection import KFold, ShuffleSplit, StratifiedKFold
    s, n, ts = scn["seed"] % 1000, scn["nsplits"], .4
    return dict(st=lambda: M.SourceTargetShuffleSplit(n_splits=n, test_size=ts, random_state=s),
                dom=lambda: M.DomainShuffleSplit(n_splits=n, test_size=ts, random_state=s),
                strat=lambda: M.StratifiedDomainShuffleSplit(n_splits=n, test_size=ts, random_state=s),
                lodo=lambda: M.LeaveOneDomainOut(max_n_splits=n, test_size=ts, random_state=s),
                kfold=lambda: KFold(max(n, 2)), shuffle=lambda: ShuffleSplit(n, test_size=ts, random_state=s),
                skf=lambda: StratifiedKFold(2))[scn["split"]]()


def scorers(scn):
    from skada.metrics import PredictionEntropyScorer, SupervisedScorer
    m = [dict(own=None, supervised=SupervisedScorer(), entropy=PredictionEntropyScorer())[k] for k in scn["metrics"]]
    return m[0] if len(m) == 1 else dict(zip("ab", m))


def execute(scn):
    import joblib
    from sklearn.model_selection import GridSearchCV, RandomizedSearchCV, cross_validate
    D, yt = np.array(scn["D"]), np.array(scn["yt"])
    y = np.where(D < 0, -1, yt) if scn["masked"] else yt.copy()
    n = len(D)
    X = np.c_[np.arange(1, n + 1), scn["cell"]].astype(float)
    metrics, search = scn["metrics"], scn["drive"] != "cv"
    e = dict(ev="select", err="", sel=scn["sel"], split=scn["split"], hide=scn["hide"], D=scn["D"], y=y.tolist(), yt=scn["yt"], cell=scn["cell"], cands=scn["cands"],
             folds=[], fits=[], asks=[], scores=[], trscores=[], metrics=metrics, best=scn["cands"][0], refit=bool(search and scn["refit"]), final=[], fscore=0,
             changed=False, touched=False, train=scn["train"], search=search, threads=scn["threads"])
    def split():
        sp = splitter(scn)
        return [dict(tr=[int(v) + 1 for v in a], te=[int(v) + 1 for v in b])
                for a, b in (sp.split(X, y, D) if scn["split"] not in ("kfold", "shuffle", "skf") else sp.split(X, y))]
    folds, err = guarded(split)
    if err:
        return []   # the splitter refuses; judged with the splitters
    need = {"shared": lambda i: True, "source": lambda i: True, "target": lambda i: True, "st": lambda i: D[i - 1] >= 0, "per": lambda i: D[i - 1]}[scn["sel"]]
    for f in folds:
        tr = [i for i in f["tr"] if not (D[i - 1] < 0 and (scn["hide"] or y[i - 1] == -1))]
        if scn["sel"] == "source":
            tr = [i for i in tr if D[i - 1] >= 0]
        if scn["sel"] == "target":
            tr = [i for i in tr if D[i - 1] < 0]
        groups = {need(i) for i in f["te"] + f["tr"]}
        if not tr or any(not any(need(i) == g for i in tr) for g in groups):
            return []
        if not all(any(D[i - 1] < 0 for i in f[k]) for k in ("te", "tr")) or len({D[i - 1] >= 0 for i in f["tr"]}) < 2:
            return []
        if "own" in metrics and any(all(y[i - 1] == -1 for i in f[k]) for k in ("te", "tr")):
            return []
    e["folds"] = folds
    e["best"] = int(e["best"])
    params = dict(sample_domain=D)
    if "supervised" in metrics:
        params["target_labels"] = yt
    log = []

    def go():
        p = pipeline(scn, log)
        before, state = digest(X, y, D, yt), repr(p.get_params())
        names = [k for k in p.get_params() if k.split("__")[-1] == "bias" and k.count("__") == min(k.count("__") for k in p.get_params() if k.split("__")[-1] == "bias")]
        kw = dict(cv=splitter(scn), scoring=scorers(scn), error_score="raise", n_jobs=2 if scn["threads"] else None, return_train_score=scn["train"])
        suffix = ["score"] if len(metrics) == 1 else ["a", "b"]
        sc = lambda v: [fx(t, 100000) for t in v]  # noqa: E731
        with joblib.parallel_config("threading" if scn["threads"] else "loky"):
            if scn["drive"] == "cv":
                r = cross_validate(p.set_params(**{k: scn["cands"][0] for k in names}), X, y, params=params, **kw)
                state = repr(p.get_params())
                e["scores"] = [[sc(r["test_" + s])] for s in suffix]
                e["trscores"] = [[sc(r["train_" + s])] for s in suffix] if scn["train"] else []
            else:
                rf = (True if len(metrics) == 1 else "a") if scn["refit"] else False
                if len(names) > 1:
                    grid = [{k: [c] for k in names} for c in scn["cands"]]
                else:
                    grid = {names[0]: scn["cands"]}
                if scn["drive"] == "random":
                    g = RandomizedSearchCV(p, grid, n_iter=len(scn["cands"]), random_state=0, refit=rf, **kw)
                else:
                    g = GridSearchCV(p, grid, refit=rf, **kw)
                g.fit(X, y, **params)
                order = [c[names[0]] for c in g.cv_results_["params"]]
                at = [order.index(c) for c in scn["cands"]]
                tab = lambda w, s: [[fx(g.cv_results_[f"split{f}_{w}_{s}"][i], 100000) for f in range(len(folds))] for i in at]  # noqa: E731
                e["scores"] = [tab("test", s) for s in suffix]
                e["trscores"] = [tab("train", s) for s in suffix] if scn["train"] else []
                if len(metrics) == 1 or rf:
                    e["best"] = int(g.best_params_[names[0]])
                else:
                    e["search"] = False
                if rf:
                    cut = len(log)
                    e["final"] = [int(v) for v in g.best_estimator_.predict(X, sample_domain=D)]
                    e["fscore"] = fx(g.score(X, y, **{k: v for k, v in params.items() if k == "sample_domain" or metrics[0] == "supervised"}), 100000)
                    del log[cut:]
        e["changed"] = before != digest(X, y, D, yt)
        from sklearn.utils.validation import check_is_fitted
        from sklearn.exceptions import NotFittedError
        fitted = False
        for _, s in p.steps:
            try:
                check_is_fitted(s)
                fitted = fitted or any(a.endswith("_") for a in vars(s))
            except NotFittedError:
                pass
        e["touched"] = fitted or state != repr(p.get_params())
    _, e["err"] = guarded(go, 90)
    e["fits"] = [r for k, r in log if k == "fit"]
    e["asks"] = [r for k, r in log if k == "ask"]
    return [e]


def scenario(rng):
    n = rng.randint(8, 16)
    split = rng.choice(["st", "st", "dom", "strat", "lodo", "kfold", "shuffle", "skf"])
    dom = rng.choice([[1, -2], [1, 2, -3], [3, -1, -2], [1, 2, -3, -4], [0, -1]])
    if split == "lodo":
        dom = rng.choice([[1, -1, 2, -2], [1, -1, 2, -2, 3, -3]])
    D = [dom[i % len(dom)] for i in range(n)]
    rng.shuffle(D)
    sel = rng.choice(["shared", "shared", "source", "target", "st", "per"])
    hide = sel not in ("target", "st", "per") and rng.random() < .7
    ncand = rng.randint(2, 3)
    metrics = rng.choice([["own"], ["supervised"], ["entropy"], ["supervised", "entropy"], ["entropy", "supervised"]])
    masked = hide and rng.random() < .6
    drive = rng.choice(["cv", "grid", "grid", "random"])
    aware = rng.random() < .3 and sel != "per"
    return dict(ev="select", D=D, yt=[rng.randint(0, 2) for _ in range(n)], cell=[rng.randint(0, 5) for _ in range(n)], sel=sel, hide=hide, masked=masked, metrics=metrics, split=split,
                nsplits=rng.randint(1, 3), seed=rng.randint(0, 9999), cands=rng.sample(range(4), 1 if drive == "cv" else ncand), drive=drive, refit=rng.random() < .8,
                train=rng.random() < .3, threads=rng.random() < .25, two=rng.random() < .5, aware=aware, pre=rng.random() < .4)


def corrupt(s, ev):
    e = dict(ev[0])
    if e["err"] or not e["fits"]:
        return None
    e["fits"] = e["fits"][1:]
    return [e]


def check(chk):
    rng = random.Random(chk.seed * 1000 + 39)
    chk.mc("MC_Selection.tla", "MC_Selection_T.cfg" if chk.thorough else "MC_Selection.cfg", workers=8, must_cover=["Fit", "Score", "Choose", "Refit"])
    chk.mc_refuted("MC_Selection.tla", "MC_Selection_Bad.cfg")
    scns = [scenario(rng) for _ in range(chk.pick(1500, 15000))]
    chk.judge("TraceSelection.tla", chk.execute(execute, scns, chunk=16), corrupt=corrupt)

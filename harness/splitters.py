"""C13 C14: splitters, judged fold by fold."""
import copy
import itertools
import random

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin

from .core import digest, guarded

ASSUMPTIONS = [
    "fractional sizes are exactly representable or multiples of one tenth",
    "leave-one-domain-out is judged on domain labels with both signs present and no label 0 (what pack_lodo yields)",
]
NONE = dict(k="none", num=0, den=1)


def trace_module(scn):
    return "TraceSplitters.tla"


def size(z):
    return None if z["k"] == "none" else z["num"] if z["k"] == "int" else z["num"] / z["den"]


def make(scn):
    from skada import model_selection as ms
    kw = dict(test_size=size(scn["ts"]), train_size=size(scn["tr"]), random_state=scn["seed"])
    k = scn["kind"]
    if k == "lodo":
        return ms.LeaveOneDomainOut(scn["nsplits"], **kw)
    if k == "source_target":
        return ms.SourceTargetShuffleSplit(scn["nsplits"], **kw)
    if k == "stratified":
        return ms.StratifiedDomainShuffleSplit(scn["nsplits"], **kw)
    return ms.DomainShuffleSplit(scn["nsplits"], under_sampling=scn["us"]["num"] / scn["us"]["den"], **kw)


def arrays(scn):
    D = np.array(scn["D"])
    n = len(D)
    X = np.arange(n * (4 if scn.get("nd") else 1), dtype=float)
    X = X.reshape(n, 2, 2) if scn.get("nd") else X.reshape(n, 1)
    y = np.array(scn["y"])
    G = np.unique(np.stack([y, D], 1), axis=0, return_inverse=True)[1].ravel() + 1
    if scn.get("ykind") == "str":
        y = np.array([f"c{v}" for v in y])
    elif scn.get("ykind") == "float":
        y = y.astype(float)
    elif scn.get("ykind") == "2d":
        y = np.stack([y, y % 2], 1)
    return X, y, D, G


def folds_of(sp, X, y, D):
    return [dict(train=(np.asarray(a) + 1).tolist(), test=(np.asarray(b) + 1).tolist()) for a, b in sp.split(X, y, D)]


class Rec(ClassifierMixin, BaseEstimator):
    __metadata_request__fit = {"sample_domain": True}
    __metadata_request__predict = {"sample_domain": True}
    __metadata_request__score = {"sample_domain": True}
    log = []

    def fit(self, X, y, sample_domain=None):
        Rec.log.append((np.ravel(X).copy(), np.array(sample_domain)))
        self.classes_ = np.unique(y)
        return self

    def predict(self, X, sample_domain=None):
        return np.zeros(len(X))

    def score(self, X, y, sample_domain=None):
        return 0.0


def execute(scn):
    X, y, D, G = arrays(scn)
    if scn["ev"] == "cv":
        import sklearn
        from sklearn.model_selection import cross_validate
        sp = make(scn)
        folds = folds_of(make(scn), X, y, D)
        Rec.log = []
        with sklearn.config_context(enable_metadata_routing=True):
            _, err = guarded(lambda: cross_validate(Rec(), X, y, params={"sample_domain": D}, cv=sp, error_score="raise"))
        fits = [[int(v) + 1 for v in x] for x, _ in Rec.log]
        dom = all(np.array_equal(d, D[x.astype(int)]) for x, d in Rec.log)
        return [dict(ev="cv", kind=scn["kind"], err=err, folds=folds, fits=fits, domok=bool(dom))]
    sp = make(scn)
    dom = D.tolist() if scn.get("dlist") else D
    before = digest(X, y, D)
    if scn.get("readonly"):
        for a in (X, y, D):
            a.flags.writeable = False
    state = np.random.get_state()[1].copy(), np.random.get_state()[2]
    folds, err = guarded(lambda: folds_of(sp, X, y, dom))
    getn = same = sameobj = 0
    if not err:
        getn = sp.get_n_splits(X, y, D)
        same = folds_of(make(scn), X, y, D) == folds
        sameobj = folds_of(sp, X, y, D) == folds
    st = np.random.get_state()
    return [dict(ev="split", kind=scn["kind"], D=scn["D"], G=G.tolist(), ts=scn["ts"], tr=scn["tr"], us=scn["us"],
                 nsplits=scn["nsplits"], err=err, folds=folds or [], getn=int(getn), same=bool(same),
                 sameobj=bool(sameobj), modified=digest(X, y, D) != before,
                 grng=bool(np.array_equal(st[1], state[0]) and st[2] == state[1]))]


def rand_size(rng, n, none=0.4):
    r = rng.random()
    if r < none:
        return NONE
    if r < 0.6:
        return dict(k="int", num=rng.randint(1, max(2, n // 2)), den=1)
    num, den = rng.choice([(1, 2), (1, 4), (3, 4), (1, 8), (3, 8), (1, 16), (1, 10), (1, 5), (3, 10)])
    return dict(k="frac", num=num, den=den)


def layout(rng, n, labs):
    w = [rng.choice([1, 1, 2, 5]) for _ in labs]
    d = rng.choices(labs, w, k=n)
    for i, v in enumerate(labs[:n]):
        d[i] = v
    if rng.random() < 0.85:
        rng.shuffle(d)
    else:
        d.sort(reverse=True)
    return d


SIDES = [[1, -2], [1, -1], [0, -1], [1, 2, -3], [1, 2, -3, -4], [0, 3, -2, -5], [1, 2, 3, -1, -2, -3], [4, -1], [1], [-1]]


def scenarios(chk):
    rng = random.Random(chk.seed * 6007 + int(chk.prop[1:]))
    out = []
    if chk.prop == "C13":
        # small layouts exhaustively
        for n in range(2, chk.pick(5, 7)):
            for d in itertools.product([1, -1] if n > 4 else [1, 2, -1], repeat=n):
                for kind in ("source_target", "domain"):
                    for ts, tr in ((NONE, NONE), (dict(k="int", num=1, den=1), NONE), (NONE, dict(k="frac", num=1, den=2))):
                        out.append(dict(ev="split", kind=kind, D=list(d), y=[i % 2 for i in range(n)], ts=ts, tr=tr,
                                        us=dict(num=1, den=1) if n % 2 else dict(num=1, den=2), nsplits=2,
                                        seed=rng.choice([0, rng.randrange(1000), rng.randrange(1000)])))
        for _ in range(chk.pick(900, 12000)):
            n = rng.choice([6, 8, 10, 11, 16, 20, 25, 30, 41, 60])
            kind = rng.choice(["source_target", "domain", "stratified", "stratified"])
            D = layout(rng, n, rng.choice(SIDES))
            k = rng.choice([2, 2, 3])
            y = [rng.randrange(k) for _ in range(n)]
            if rng.random() < 0.3:      # masked targets
                y = [-1 if d < 0 else v for v, d in zip(y, D)]
            if rng.random() < 0.2:
                y = [[-4, 7, 100][v] if v >= 0 else v for v in y]
            if kind == "stratified" and rng.random() < 0.8:   # every group twice at least
                m = rng.randint(1, 4)
                gs = sorted(set(zip(y, D)))
                reps = [rng.randint(2, 4 * m) for _ in gs]
                rows = [g for g, r in zip(gs, reps) for _ in range(r)]
                rng.shuffle(rows)
                y, D = [r[0] for r in rows], [r[1] for r in rows]
                n = len(y)
            s = dict(ev="split", kind=kind, D=D, y=y, ts=rand_size(rng, n), tr=rand_size(rng, n, 0.6),
                     us=rng.choice([dict(num=4, den=5), dict(num=1, den=2), dict(num=1, den=1), dict(num=1, den=4), dict(num=3, den=4)]),
                     nsplits=rng.choice([1, 2, 3, 5]), seed=rng.choice([0, rng.randrange(10**5), rng.randrange(10**5)]), dlist=rng.random() < 0.1,
                     nd=rng.random() < 0.15, readonly=rng.random() < 0.3)
            if kind == "stratified":
                s["ykind"] = rng.choice(["int", "int", "str", "float", "2d"])
            out.append(s)
    else:
        for _ in range(chk.pick(900, 12000)):
            nd = rng.randint(1, 6)
            ids = sorted(rng.sample(range(1, 12), nd)) if rng.random() < 0.5 else list(range(1, nd + 1))
            rows = []
            for d in ids:
                m = rng.choice([2, 3, 4, 5, 8, 13])
                rows += [d] * m + [-d] * (m if rng.random() < 0.7 else rng.randint(2, 9))
            if rng.random() < 0.8:
                rng.shuffle(rows)
            n = len(rows)
            small = rng.random() < 0.75
            ts = rng.choice([NONE, dict(k="frac", num=1, den=2), dict(k="frac", num=1, den=4), dict(k="int", num=1, den=1)]) if small else rand_size(rng, n)
            tr = rng.choice([NONE, NONE, dict(k="frac", num=1, den=2), dict(k="int", num=1, den=1)]) if small else rand_size(rng, n, 0.6)
            out.append(dict(ev="split", kind="lodo", D=rows, y=[rng.randrange(3) for _ in rows], ts=ts, tr=tr,
                            us=dict(num=1, den=1), nsplits=rng.choice([1, 2, 3, 4, 6, 10]), seed=rng.choice([0, rng.randrange(10**5), rng.randrange(10**5)]),
                            nd=rng.random() < 0.15, readonly=rng.random() < 0.3))
    for s in out[:: max(1, len(out) // 60)]:
        if s.get("nd") or s.get("ykind", "int") != "int" or len(s["D"]) < 12:
            continue
        out.append(dict(s, ev="cv", ts=NONE, tr=NONE))
    return out


def corrupt(s, evs):
    e = copy.deepcopy(evs[0])
    if e["err"] or not e["folds"] or len(e["folds"][0]["train"]) < 2:
        return None
    f = e["folds"][0]
    if len(s["D"]) % 2:
        f["train"] = f["train"][:-1] + f["test"][:1]
    else:
        f["train"] = f["train"][:-1]
    return [e]


def cv_ok(s):
    """only layouts where the splitter itself succeeds"""
    if s["ev"] != "cv":
        return True
    X, y, D, _ = arrays(s)
    return guarded(lambda: folds_of(make(s), X, y, D))[1] == ""


def check(chk):
    chk.mc("MC_Splitters.tla", chk.pick("MC_Splitters.cfg", "MC_Splitters_T.cfg"), must_cover=("Thin", "CutTest", "CutTrain"))
    chk.judge("TraceSplitters.tla", chk.execute(execute, [s for s in scenarios(chk) if cv_ok(s)]), corrupt=corrupt)

"""C17: subsamplers keep rows, labels, domains and weights together."""
import copy
import itertools
import random

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin

from .core import digest, fx, fxl, guarded

ASSUMPTIONS = ["proportions are multiples of 1/16 (exactly representable)"]


def trace_module(scn):
    return "TraceSubsample.tla"


def size(z):
    return z["num"] if z["k"] == "int" else z["num"] / z["den"]


def make(scn):
    from skada.transformers import DomainSubsampler, StratifiedDomainSubsampler, Subsampler
    cls = dict(plain=Subsampler, domain=DomainSubsampler, stratified=StratifiedDomainSubsampler)[scn["cls"]]
    rs = np.random.RandomState(scn["seed"]) if scn["rs"] == "obj" else scn["seed"]
    return cls(size(scn["z"]), random_state=rs)


class Sink(ClassifierMixin, BaseEstimator):
    __metadata_request__fit = {"sample_domain": True, "sample_weight": True}
    __metadata_request__predict = {"sample_domain": True}
    got = None

    def fit(self, X, y, sample_domain=None, sample_weight=None):
        Sink.got = (np.array(X), np.array(y), np.array(sample_domain), None if sample_weight is None else np.array(sample_weight))
        self.classes_ = np.unique(y)
        return self

    def predict(self, X, sample_domain=None):
        return np.asarray(X)[:, 0]


class NoWeight(Sink):
    __metadata_request__fit = {"sample_domain": True}

    def fit(self, X, y, sample_domain=None):
        return super().fit(X, y, sample_domain)


def data(scn):
    n = len(scn["d"])
    X = np.stack([np.arange(1, n + 1), np.arange(n) * 10.0 + 3], 1)
    y = np.array(scn["y"])
    w = np.array([(i * 7) % 11 + 1 for i in range(n)], float) / 4 if scn["weighted"] else None
    return X, y, np.array(scn["d"]), w


def masked_d(scn):
    """domains derived from masked labels when none are given"""
    return [-2 if v == -1 else 1 for v in scn["y"]] if scn["nodomain"] else scn["d"]


def execute(scn):
    X, y, D, w = data(scn)
    n = len(X)
    d = None if scn["nodomain"] else D
    dj = masked_d(scn)
    wj = fxl(w, 4) if w is not None else [0] * n
    base = dict(cls=scn["cls"], n=n, d=dj, y=[int(v) for v in scn["y"]], z=scn["z"], weighted=scn["weighted"], w=wj)
    if scn["ev"] == "pipe":
        from sklearn.preprocessing import FunctionTransformer
        from skada import make_da_pipeline
        Sink.got = None
        steps = ([FunctionTransformer()] if scn["pre"] else []) + [make(scn)] + ([FunctionTransformer()] if scn["post"] else [])
        final = Sink() if scn["weighted"] else NoWeight()
        kw = dict(sample_weight=w) if scn["weighted"] else {}
        if d is not None:
            kw["sample_domain"] = d
        pipe = make_da_pipeline(*steps, final)
        p = {}

        def go():
            pipe.fit(X, y, **kw)
            return pipe.predict(X, sample_domain=D, allow_source=True)
        pred, err = guarded(go)
        ev = dict(base, ev="pipe", err=err, rows=[], yout=[], dout=[], wout=[], pred=[],
                  ymask=[-1 if s < 0 else int(v) for s, v in zip(dj, scn["y"])])
        if not err:
            gx, gy, gd, gw = Sink.got
            ev.update(rows=[int(v) for v in gx[:, 0]], yout=[fx(v) for v in gy], dout=[int(v) for v in gd],
                      wout=[] if gw is None else fxl(gw, 4), pred=[int(v) for v in pred])
        return [ev]
    if scn["readonly"]:
        for a in (X, y, D) + ((w,) if w is not None else ()):
            a.flags.writeable = False
    dg = digest(X, y, D, w)
    st = np.random.get_state()
    dd = D.tolist() if scn["lists"] and d is not None else d
    ww = w.tolist() if scn["lists"] and w is not None else w
    s = make(scn)
    out, err = guarded(lambda: s.fit_transform(X, y, sample_domain=dd, sample_weight=ww))
    st2 = np.random.get_state()
    ev = dict(base, ev="direct", err=err, rows=[], xok=False, yout=[], dout=[], wout=[], trans=True, same=True,
              modified=digest(X, y, D, w) != dg, grng=bool(np.array_equal(st[1], st2[1]) and st[2] == st2[2]))
    if err:
        return [ev]
    a, b, p = out
    a = np.asarray(a)
    rows = [int(v) for v in a[:, 0]]
    ev.update(rows=rows, xok=bool(all(1 <= r <= n and np.array_equal(a[i], X[r - 1]) for i, r in enumerate(rows))),
              yout=[fx(v) for v in b], dout=[int(v) for v in p["sample_domain"]] if "sample_domain" in p else [],
              wout=fxl(np.asarray(p["sample_weight"], float), 4) if p.get("sample_weight") is not None else [])
    t, terr = guarded(lambda: s.transform(X, None, sample_domain=D, allow_source=True))
    ev["trans"] = not terr and np.array_equal(t, X)
    o2, e2 = guarded(lambda: make(scn).fit_transform(X, y, sample_domain=dd, sample_weight=ww))
    ev["same"] = not e2 and np.array_equal(o2[0], a) and np.array_equal(o2[1], b)
    if scn["rs"] == "int":   # the object itself, fitted again, and fitted on other data in between
        for between in (False, True):
            if between:
                guarded(lambda: s.fit_transform(X[::-1].copy(), y[::-1].copy(), sample_domain=D[::-1].copy()))
            o3, e3 = guarded(lambda: s.fit_transform(X, y, sample_domain=dd, sample_weight=ww))
            ev["same"] = ev["same"] and not e3 and np.array_equal(o3[0], a) and np.array_equal(o3[1], b)
    return [ev]


def frac(rng):
    return rng.choice([dict(k="frac", num=a, den=b) for a, b in [(1, 2), (1, 4), (3, 4), (1, 8), (5, 8), (1, 16), (15, 16), (1, 1)]])


def scenarios(chk):
    rng = random.Random(chk.seed * 9001)
    out = []
    # small layouts exhaustively
    for n in range(1, chk.pick(5, 6)):
        for d in itertools.product([1, 2, -1], repeat=n):
            for cls in ("plain", "domain", "stratified"):
                for z in [dict(k="int", num=k, den=1) for k in range(1, n + 2)]:
                    if len(out) % chk.pick(3, 1) == 0 or n < 4:
                        out.append(dict(ev="direct", cls=cls, d=list(d), y=[i % 2 for i in range(n)], z=z, seed=rng.choice([0, rng.randrange(1000), rng.randrange(1000)])))
                    else:
                        out.append(None)
    out = [o for o in out if o]
    for _ in range(chk.pick(900, 12000)):
        n = rng.randint(3, 40)
        labs = rng.choice([[1, -2], [0, -1], [1, 2, -3, -4], [1, -2, -3], [5, 3, -1], [1], [-1]])
        d = [rng.choice(labs) for _ in range(n)]
        kk = rng.choice([2, 3])
        y = [rng.choice([0, 1, 2][:kk]) for _ in range(n)]
        if rng.random() < 0.4:
            y = [-1 if v < 0 else u for u, v in zip(y, d)]
        z = dict(k="int", num=rng.choice([1, 2, n // 2, n - 2, n - 1, n, n + 3, rng.randint(1, n)]), den=1) if rng.random() < 0.6 else frac(rng)
        if z["num"] < 1:
            z["num"] = 1
        out.append(dict(ev=rng.choice(["direct", "direct", "pipe"]), cls=rng.choice(["plain", "domain", "stratified"]), d=d, y=y, z=z,
                        seed=rng.choice([0, rng.randrange(10**5), rng.randrange(10**5)])))
    for s in out:
        s.update(weighted=rng.random() < 0.6, rs=rng.choice(["int", "int", "obj"]), lists=rng.random() < 0.15, readonly=rng.random() < 0.3,
                 pre=rng.random() < 0.5, post=rng.random() < 0.5, nodomain=rng.random() < 0.1 and -1 in s["y"])
        if s["ev"] == "pipe" and (len(set(s["y"])) < 2 or s["z"]["k"] == "frac" and s["z"]["num"] * len(s["d"]) < s["z"]["den"]):
            s["ev"] = "direct"
        if s["ev"] == "pipe" and not any(v >= 0 for v in s["d"]):
            s["ev"] = "direct"
    return out


def corrupt(s, evs):
    e = copy.deepcopy(evs[0])
    if e["err"] or len(set(e["dout"])) < 2:
        return None
    e["dout"] = e["dout"][1:] + e["dout"][:1]
    return [e]


def check(chk):
    chk.mc("MC_Subsample.tla", chk.pick("MC_Subsample.cfg", "MC_Subsample_T.cfg"), must_cover=("ShareOut", "Draw", "Stop"))
    chk.judge("TraceSubsample.tla", chk.execute(execute, scenarios(chk)), corrupt=corrupt)

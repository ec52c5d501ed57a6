"""C01-C03: sample_domain splitting, merging, validation and derivation."""
import itertools
import random
import warnings

import numpy as np

from .core import digest, fx, guarded

warnings.simplefilter("ignore")
ASSUMPTIONS = ["row values are compared as integers after scaling by 2 (all inputs are halves of integers)",
               "source labels are >= 0 and target labels < 0 (documented convention)"]
FLAGS = ("source", "target", "msource", "mtarget", "common", "auto")


def trace_module(scn):
    return "TraceDomains.tla"


def rows(a, scale):
    """rows of a as sequences of ints"""
    a = np.asarray(a)
    a = a.reshape(a.shape[0], int(np.prod(a.shape[1:])))
    return [[fx(v, scale) for v in r] for r in a]


def ints(a):
    return [fx(v) for v in np.asarray(a).ravel()]


# ------------------------------------------------------------------ arrays
def table(n, kinds):
    """Parallel arrays with values that tell every row and array apart."""
    out = []
    for k, kind in enumerate(kinds):
        base = 100 * (k + 1) + np.arange(n)
        if kind == "f2":
            out.append(np.stack([base + 0.5, -base - 0.5, base * 0.5], 1))
        elif kind == "f1":
            out.append(base + 0.5)
        elif kind == "i1":
            out.append(base.astype(np.int64))
        elif kind == "i2":
            out.append(np.stack([base, base + 1000], 1).astype(np.int32))
        elif kind == "b1":
            out.append(np.arange(n) % 2 == 0)
        elif kind == "f3":
            out.append((base[:, None, None] + np.arange(4).reshape(1, 2, 2)) * 0.5)
        elif kind == "none":
            out.append(None)
    return out


def enc(a):
    return [] if a is None else rows(a, 2)


def ev_split(D, kinds, aslist):
    from skada.utils import source_target_split
    arrs = table(len(D), kinds)
    sd = list(D) if aslist else np.array(D)
    before = digest(sd, *arrs)
    res, err = guarded(lambda: source_target_split(*arrs, sample_domain=sd))
    e = dict(ev="split", D=D, arrays=[enc(a) for a in arrs], given=[a is not None for a in arrs], err=err,
             modified=digest(sd, *arrs) != before, outs=[], outgiven=[], dtypes_kept=True)
    if not err:
        e["outs"] = [enc(a) for a in res]
        e["outgiven"] = [a is not None for a in res]
        e["dtypes_kept"] = all(r is None or r.dtype == arrs[i // 2].dtype for i, r in enumerate(res)
                               if i // 2 < len(arrs) and arrs[i // 2] is not None)
    return e


def ev_perdomain(D, kinds, aslist):
    from skada.utils import extract_domains_indices, extract_source_indices, per_domain_split
    arrs = table(len(D), kinds)
    sd = list(D) if aslist else np.array(D)
    before = digest(sd, *arrs)

    def run():
        s, t = per_domain_split(*arrs, sample_domain=sd)
        idx = extract_domains_indices(sd)
        si, ti = extract_domains_indices(sd, split_source_target=True)
        return s, t, idx, si, ti, extract_source_indices(sd)
    res, err = guarded(run)
    e = dict(ev="perdomain", D=D, arrays=[enc(a) for a in arrs], given=[a is not None for a in arrs], err=err,
             modified=digest(sd, *arrs) != before, src=[], tgt=[], idx=[], sidx=[], tidx=[], mask=[])
    if not err:
        s, t, idx, si, ti, mask = res

        def part(dic):
            return [dict(d=int(k), outs=[enc(a) for a in v], given=[a is not None for a in v])
                    for k, v in dic.items()]

        def pos(dic):
            return [dict(d=int(k), pos=[int(i) + 1 for i in v]) for k, v in dic.items()]
        e.update(src=part(s), tgt=part(t), idx=pos(idx), sidx=pos(si), tidx=pos(ti),
                 mask=[bool(b) for b in mask])
    return e


def ev_merge(D, pairs, dgiven=True):
    """pairs: list of (kind, sgiven, tgiven, missing_as, extra)"""
    from skada.utils import source_target_merge
    sd = np.array(D)
    ns, nt = int((sd >= 0).sum()), int((sd < 0).sum())
    args, enc_pairs, want = [], [], []
    for k, (kind, sg, tg, empty, dx) in enumerate(pairs):
        def make(n, off, typ):
            b = 50 * (k + 1) + off + np.arange(n)
            if typ == "int":
                return b.astype(np.int64), 1
            if typ == "int32":
                return b.astype(np.int32), 1
            if typ == "float":
                return b + 0.5, 2
            if typ == "float2":
                return np.stack([b + 0.5, -b + 0.5], 1), 2
            if typ == "int2":
                return np.stack([b, -b], 1), 2
        st, tt = {"class": ("int", "int"), "class32": ("int32", "int32"), "reg": ("float", "float"),
                  "reg2": ("float2", "float2"),
                  "intfloat": ("int", "float"), "floatint": ("float", "int"),
                  "int2float2": ("int2", "float2")}[kind]
        s, _ = make(ns + dx, 0, st)
        t, _ = make(nt, 500, tt)
        scale = 1 if kind.startswith("class") else 2
        args += [s if sg else (np.array([]) if empty else None), t if tg else (np.array([]) if empty else None)]
        enc_pairs.append(dict(sgiven=bool(sg and len(s)), tgiven=bool(tg and len(t)),
                              s=rows(s, scale) if sg else [], t=rows(t, scale) if tg else [],
                              kind="discrete" if kind.startswith("class") else "continuous"))
        want.append((s.dtype, t.dtype, sg, tg, scale))
    before = digest(sd, *args)
    res, err = guarded(lambda: source_target_merge(*args, sample_domain=sd if dgiven else None))
    e = dict(ev="merge", dgiven=dgiven, D=D, pairs=enc_pairs, err=err, outs=[], outD=[], dtypes_kept=True,
             modified=digest(sd, *args) != before)
    if not err:
        e["outs"] = [rows(o, want[i][4]) if i < len(want) else [] for i, o in enumerate(res[:-1])]
        e["outD"] = ints(res[-1])
        # same-typed full pairs must come back in that type
        e["dtypes_kept"] = all(o.dtype == w[0] for o, w in zip(res[:-1], want)
                               if w[2] and w[3] and w[0] == w[1])
    return e


# ------------------------------------------------------------------ validation
def labels(masked, kind):
    n = len(masked)
    if kind == "class":
        return np.array([-1 if m else i % 3 for i, m in enumerate(masked)])
    if kind == "class32":
        return np.array([-1 if m else i % 3 for i, m in enumerate(masked)], dtype=np.int32)
    if kind == "classf":
        return np.array([-1. if m else i % 3 for i, m in enumerate(masked)])
    return np.array([np.nan if m else i + 0.5 for i, m in enumerate(masked)])


def ev_validate(fn, D, dkind, masked, ykind, flags, restrict=None, xkind="float"):
    from skada.utils import check_X_domain, check_X_y_domain
    n = len(masked)
    if xkind == "nd":
        X = (np.arange(n)[:, None, None] + np.arange(4).reshape(1, 2, 2)) * 0.5
    else:
        X = np.stack([np.arange(n) + 0.5, -np.arange(n) * 1.0], 1)
        if xkind == "int":
            X = (X * 2).astype(int)
    y = labels(masked, ykind)
    for a in (X, y):
        a.setflags(write=False)
    sd = {"array": lambda: np.array(D), "list": lambda: list(D), "none": lambda: None,
          "scalar": lambda: D[0]}[dkind]()
    kw = dict(allow_source=flags["source"], allow_target=flags["target"], allow_multi_source=flags["msource"],
              allow_multi_target=flags["mtarget"], allow_common_domain_idx=flags["common"],
              allow_auto_sample_domain=flags["auto"], allow_nd=xkind == "nd")
    f = dict(flags, restrict=restrict is not None, domains=[], anysource=False, anytarget=False)
    if restrict is not None:
        f.update(domains=sorted(restrict["domains"]), anysource=restrict["anysource"],
                 anytarget=restrict["anytarget"])
        allow = set(restrict["domains"])
        if restrict["anysource"]:
            allow.add(np.inf)
        if restrict["anytarget"]:
            allow.add(-np.inf)
        kw["allow_domains"] = allow
    before = digest(X, y, sd)
    if fn == "Xy":
        res, err = guarded(lambda: check_X_y_domain(X, y, sd, **kw))
    else:
        res, err = guarded(lambda: check_X_domain(X, sd, **kw))
    e = dict(ev="validate", fn=fn, dkind=dkind, D=list(D), n=n, masked=[bool(m) for m in masked], flags=f,
             X=rows(X, 2), y=rows(y, 2), outX=[], outy=[], outD=[], err=err, modified=digest(X, y, sd) != before)
    if not err:
        e["outX"] = rows(res[0], 2)
        if fn == "Xy":
            e["outy"] = rows(res[1], 2)
        e["outD"] = ints(res[-1])
        if np.asarray(res[-1]).ndim != 1:
            e["outD"] = [[v] for v in e["outD"]]
    return e


# ------------------------------------------------------------------ equivalence
def _pipes():
    """name -> (factory, does fit derive a missing domain?, regression?)"""
    from sklearn.linear_model import LogisticRegression, Ridge
    from sklearn.preprocessing import StandardScaler

    import skada as S
    lr = LogisticRegression
    pipe = S.make_da_pipeline
    return {
        "lr": (lambda: pipe(StandardScaler(), lr()), 0, 0),
        "coral": (lambda: pipe(S.CORALAdapter(), lr()), 0, 0),
        "sub": (lambda: pipe(S.SubspaceAlignmentAdapter(n_components=1), lr()), 0, 0),
        "rew": (lambda: pipe(S.GaussianReweightAdapter(), lr().set_fit_request(sample_weight=True)), 0, 0),
        "st": (lambda: pipe(S.SelectSourceTarget(StandardScaler())), 1, 0),
        "ot": (lambda: pipe(StandardScaler(), S.OTMappingAdapter(), lr()), 0, 0),
        "ridge": (lambda: pipe(StandardScaler(), S.CORALAdapter(), Ridge()), 0, 1),
        "dasvm": (lambda: S.DASVMClassifier(max_iter=2), 1, 0),
        "otprop": (lambda: S.OTLabelPropAdapter(), 1, 0),
        "jcpot": (lambda: S.JCPOTLabelPropAdapter(reg=1.0), 1, 0),
    }


def ev_equiv(name, masked, seed):
    rng = np.random.RandomState(seed)
    n = len(masked)
    m = np.asarray(masked)
    X = rng.randn(n, 2) + np.where(m, 1.0, 0.0)[:, None]
    mk, derives, reg = _pipes()[name]
    if reg:
        y = np.where(m, np.nan, rng.randn(n))
    else:
        y = np.arange(n) // 2 % 2
        X[:, 0] += 2 * y
        y = np.where(m, -1, y)
    D = np.where(m, -2, 1)

    def run(fitdom, preddom):
        est = mk()
        fd = {} if fitdom is None else dict(sample_domain=fitdom.copy())
        pd = {} if preddom is None else dict(sample_domain=preddom.copy())
        if name in ("otprop", "jcpot"):
            return est.fit_transform(X.copy(), y.copy(), **fd)[1]
        est = est.fit(X.copy(), y.copy(), **fd)
        f = est.predict if hasattr(est, "predict") else est.transform
        return f(X.copy(), **pd)
    full = None if name == "dasvm" else np.full(n, -1)  # DASVM.predict takes no domain
    a, ea = guarded(lambda: run(None if derives else D, None))
    b, eb = guarded(lambda: run(D, full))
    same = ea == eb and (ea != "" or (np.shape(a) == np.shape(b) and np.allclose(a, b, atol=1e-8, equal_nan=True)))
    return dict(ev="equiv", what=name, same=bool(same), err="" if same else ea or eb)


# ------------------------------------------------------------------ scenarios
def execute(s):
    k = s["kind"]
    if k == "rows":
        D = s["D"]
        n = len(D)
        evs = []
        for kinds in s["kinds"]:
            evs.append(ev_split(D, kinds, False))
            evs.append(ev_perdomain(D, kinds, False))
        evs.append(ev_split(D, ["f2", "none", "i1"], True))
        evs.append(ev_perdomain(D, ["f2", "none", "i1"], True))
        ns = sum(d >= 0 for d in D)
        for kind in ("class", "class32", "reg", "reg2", "intfloat", "floatint", "int2float2"):
            if 0 < ns < n:
                evs.append(ev_merge(D, [(kind, 1, 1, 0, 0)]))
        if 0 < ns < n:
            evs.append(ev_merge(D, [("reg2", 1, 1, 0, 0), ("class", 1, 1, 0, 0), ("reg", 1, 1, 0, 0)]))
            evs.append(ev_merge(sorted((1 if d >= 0 else -2 for d in D), reverse=True),
                                [("reg2", 1, 1, 0, 0)], dgiven=False))
            evs.append(ev_merge(D, [("reg", 1, 1, 0, 1)]))
        for empty in (0, 1):
            for kind in ("class", "class32", "reg", "reg2"):
                if ns:
                    evs.append(ev_merge(D, [(kind, 1, 0, empty, 0)]))
                if ns < n:
                    evs.append(ev_merge(D, [(kind, 0, 1, empty, 0)]))
        if 0 < ns < n:
            evs.append(ev_merge(D, [("reg2", 1, 1, 0, 0), ("class", 1, 0, 0, 0)]))
            evs.append(ev_merge(D, [("reg", 0, 1, 0, 0), ("class", 1, 0, 1, 0)]))
        return evs
    if k == "validate":
        return [ev_validate(*a) for a in s["calls"]]
    if k == "equiv":
        return [ev_equiv(s["name"], s["masked"], s["seed"])]
    raise ValueError(k)


def _flags(bits, auto=True):
    return dict(zip(FLAGS, [bool(b) for b in bits] + [auto]))


def corrupt(s, evs):
    import copy
    evs = copy.deepcopy(evs)
    for e in evs:
        if e["ev"] == "split" and not e["err"] and len(e["D"]) > 1:
            a, b = e["outs"][0], e["outs"][1]
            if a and b:
                a[0], b[0] = b[0], a[0]
                return evs
        if e["ev"] == "validate" and not e["err"]:
            e["outD"][0] = 77
            return evs
        if e["ev"] == "equiv":
            e["same"] = False
            return evs
    return None


def check(chk):
    rnd = random.Random(chk.seed)
    prop = chk.prop
    gen = chk.gen("MC_Domains.tla", "MC_Domains_T.cfg" if chk.thorough else "MC_Domains.cfg",
                  must_cover=("Split", "PerDomain", "Remerge", "FillSrc", "FillTgt"))
    vecs = [g["D"] for g in gen]
    if prop == "C01":
        K = [["f2", "i1", "none"], ["f1", "i2", "b1", "f3"]]
        scns = [dict(kind="rows", D=D, kinds=K) for D in vecs]
        for _ in range(chk.pick(150, 1500)):
            n = rnd.randint(2, 30)
            pool = rnd.sample([-9, -5, -3, -2, -1, 0, 1, 2, 3, 7, 12], rnd.randint(1, 6))
            scns.append(dict(kind="rows", D=[rnd.choice(pool) for _ in range(n)], kinds=K))
        scns = _cap(scns, chk.pick(700, 6000), rnd)
    elif prop == "C02":
        scns = []
        allf = list(itertools.product([0, 1], repeat=5))
        for D in vecs:
            if len(D) > chk.pick(3, 4):
                continue
            m = [i % 2 == 0 for i in range(len(D))]
            calls = []
            for b in allf:
                for fn in ("Xy", "X"):
                    calls.append((fn, D, "array", m, "class", _flags(b)))
                    if len(D) <= 2:
                        calls.append((fn, D[:1], "scalar", m, "class", _flags(b)))
            for fn in ("Xy", "X"):
                calls.append((fn, D, "list", m, "reg", _flags((1, 1, 1, 1, 1))))
                calls.append((fn, D + [1], "array", m, "class", _flags((1, 1, 1, 1, 1))))
                calls.append((fn, D + [-1], "list", m, "class", _flags((1, 1, 1, 1, 1))))
                calls.append((fn, D, "array", m, "class", _flags((1, 1, 1, 1, 1)), None, "int"))
                calls.append((fn, D, "array", m, "class", _flags((1, 1, 1, 1, 1), auto=False), None, "nd"))
                if len(D) > 1:
                    calls.append((fn, D[:-1], "array", m, "class", _flags((1, 1, 1, 1, 1))))
            for dom in ([], [-1], [1], [0, -2], [1, -1], [0, 1, -1, -2]):
                for a, t in ((0, 0), (1, 0), (0, 1), (1, 1)):
                    calls.append(("X", D, "array", m, "class", _flags((1, 1, 1, 1, 1)),
                                  dict(domains=dom, anysource=bool(a), anytarget=bool(t))))
            scns.append(dict(kind="validate", calls=calls))
        for _ in range(chk.pick(200, 3000)):
            n = rnd.randint(2, 14)
            pool = rnd.sample([-9, -5, -3, -2, -1, 0, 1, 2, 3, 5, 9], rnd.randint(1, 5))
            D = [rnd.choice(pool) for _ in range(n)]
            m = [rnd.random() < .5 for _ in D]
            calls = [(rnd.choice(["Xy", "X"]), D, rnd.choice(["array", "array", "list"]), m,
                      rnd.choice(["class", "class32", "classf", "reg"]),
                      _flags([rnd.random() < .7 for _ in range(5)], auto=rnd.random() < .5)) for _ in range(8)]
            scns.append(dict(kind="validate", calls=calls))
    else:
        scns = []
        for n in range(1, chk.pick(5, 7)):
            for m in itertools.product([0, 1], repeat=n):
                calls = []
                for auto in (True, False):
                    for yk in ("class", "class32", "classf", "reg"):
                        if yk == "reg" or True:
                            calls.append(("Xy", [], "none", m, yk, _flags((1, 1, 1, 1, 1), auto)))
                    calls.append(("X", [], "none", m, "class", _flags((1, 1, 1, 1, 1), auto)))
                for v in (-3, -1, 0, 2):
                    for fn in ("Xy", "X"):
                        calls.append((fn, [v], "scalar", m, "class" if v % 2 else "reg", _flags((1, 1, 1, 1, 1))))
                for b in ((0, 1, 1, 1, 1), (1, 0, 1, 1, 1), (1, 1, 0, 0, 0)):
                    for fn in ("Xy", "X"):
                        calls.append((fn, [], "none", m, "class", _flags(b)))
                        calls.append((fn, [-2 if b[0] else 1], "scalar", m, "class", _flags(b)))
                scns.append(dict(kind="validate", calls=[(c[0], c[1], c[2], [bool(x) for x in m], *c[4:]) for c in calls]))
        names = list(_pipes())
        for name in names:
            for t in range(chk.pick(3, 12)):
                n = rnd.randint(12, 24)
                m = [rnd.random() < .5 for _ in range(n)]
                m[:4] = [False, True, False, True]
                m[4:8] = [False, False, True, True]
                m[8:12] = [False] * 4
                scns.append(dict(kind="equiv", name=name, masked=m, seed=rnd.randrange(10**6)))
    chk.notes["scenarios_generated"] = len(scns)
    runs = chk.execute(execute, scns)
    chk.judge("TraceDomains.tla", runs, corrupt=corrupt, chunks=8)


def _cap(scns, n, rnd):
    if len(scns) <= n:
        return scns
    return [scns[i] for i in sorted(rnd.sample(range(len(scns)), n))]

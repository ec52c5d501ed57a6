"""C15 C16: histories of DomainAwareDataset operations."""
import copy
import itertools
import random
import warnings

import numpy as np

from .core import NAN, digest, fx, guarded

ASSUMPTIONS = [
    "numeric labels; all domains of one history are labelled with one kind (classes or real values)",
    "unlabelled domains only next to class labels (their mark is -1)",
]


def trace_module(scn):
    return "TraceRegistry.tla"


def lab(v):
    """labels doubled, so that halves stay integers"""
    return NAN if v != v else int(round(float(v) * 2))


def labs_of(y):
    y = np.asarray(y.detach().cpu().numpy() if hasattr(y, "detach") else y)
    if y.ndim == 1:
        y = y[:, None]
    return [[lab(v) for v in r] for r in y.astype(float)]


def feats(rows, shape):
    r = np.array(rows, dtype=float)
    if shape == "1d":
        return r
    if shape == "3d":
        return np.stack([r, -r, r + 0.5, 2 * r], 1).reshape(-1, 2, 2)
    return np.stack([r, -r, r + 0.5], 1)


def ids_of(X, shape):
    X = np.asarray(X.detach().cpu().numpy() if hasattr(X, "detach") else X, dtype=float)
    first = X.reshape(len(X), -1)[:, 0] if len(X) else np.zeros(0)
    rows = [int(v) for v in first]
    return rows, bool(X.shape == feats(rows, shape).shape and np.array_equal(X, feats(rows, shape)))


def build(d, scn):
    """arrays of one domain"""
    X = feats(d["rows"], scn["shape"])
    if not d["has"]:
        y = None
    else:
        y = np.array(d["y"], dtype=d["dtype"])
        if scn["ydim"] == 2:
            y = np.stack([y, y], 1)
    if scn["tensor"]:
        import torch
        X = torch.tensor(X)
        y = None if y is None else torch.tensor(y)
    return X, y


def read(ds, scn):
    out = []
    for nm in ds.domain_names_:
        d = ds.get_domain(nm)
        rows, ok = ids_of(d[0], scn["shape"])
        y = d[1] if len(d) > 1 else None
        out.append(dict(name=nm, id=int(ds.domain_names_[nm]), rows=rows if ok else [-1],
                        labs=labs_of(y) if y is not None else [], has=y is not None))
    return out


def store_digest(ds):
    return digest(*[a for d in ds.domains_ for a in d])


def execute(scn):
    from skada.datasets import DomainAwareDataset
    from skada.datasets._base import select_domain
    kw, ops = scn["create"], []
    ds = None
    if kw == "empty":
        ds = DomainAwareDataset()
    todo = list(scn["ops"])
    if ds is None:
        # construction from the leading additions
        n = 0
        while n < len(todo) and todo[n]["op"] == "add" and not todo[n]["name"].startswith("_") and not (
                kw == "dict" and todo[n]["name"] == ""):
            n += 1
        lead = todo[:n]
        todo = todo[n:]
        items = []
        for o in lead:
            X, y = build(o, scn)
            items.append((X,) if y is None and o["name"] == "" else (X, y) if o["name"] == "" else (X, y, o["name"]))
        if kw == "dict":
            arg = {}
            for o in lead:
                X, y = build(o, scn)
                arg[o["name"]] = (X,) if y is None else (X, y)
        else:
            arg = items
        ds, err = guarded(lambda: DomainAwareDataset(arg))
        if err:
            return [dict(ev="history", ops=[dict(op="add", name="", rows=[], labs=[], has=False, err="create_" + err, after=[])])]
        full = read(ds, scn)
        for i, o in enumerate(lead):
            X, y = build(o, scn)
            ops.append(dict(op="add", name=o["name"], rows=o["rows"], labs=labs_of(y) if y is not None else [], has=o["has"],
                            err="", after=full[:i + 1] if i + 1 < n else full))
    for o in todo:
        err = ""
        if o["op"] == "add":
            X, y = build(o, scn)
            _, err = guarded(lambda: ds.add_domain(X, y, o["name"] or None) if y is not None else ds.add_domain(X, domain_name=o["name"] or None))
            r = dict(op="add", name=o["name"], rows=o["rows"], labs=labs_of(y) if y is not None else [], has=o["has"])
        elif o["op"] == "merge":
            other = DomainAwareDataset()
            for d in o["doms"]:
                X, y = build(d, scn)
                other.add_domain(X, y, d["name"] or None)
            before = read(other, scn)
            mp = dict(o["map"])
            _, err = guarded(lambda: ds.merge(other, mp) if o["usemap"] else ds.merge(other))
            r = dict(op="merge", other=before, map=[list(x) for x in o["map"]] if o["usemap"] else [], otherok=read(other, scn) == before)
        elif o["op"] == "pack":
            r, err = pack(ds, o, scn)
        elif o["op"] == "select":
            names = [nm for nm in o["names"] if nm in ds.domain_names_]
            if not names:
                continue
            dom = np.array(o["doms"])
            arg = names[0] if len(names) == 1 and o["str"] else names
            sel, err = guarded(lambda: ds.select_domain(dom, arg))
            r = dict(op="select", names=names, doms=o["doms"], sel=[bool(v) for v in sel] if sel is not None else [])
        r["err"] = err
        r["after"] = read(ds, scn)
        ops.append(r)
    return [dict(ev="history", ops=ops)]


def pack(ds, o, scn):
    import torch
    from skada.deep.base import DeepDADataset
    known = [n for n in ds.domain_names_]
    pick = lambda xs: [known[i % len(known)] if isinstance(i, int) else i for i in xs] if known else []
    src, tgt, rt, how = pick(o["src"]), pick(o["tgt"]), o["rt"], o["how"]
    masked, mask = o["masked"], o["mask"]
    if how == "lodo":
        src, tgt, masked, mask = known[:], known[:], True, None
    elif how == "old_train":
        masked = True
    elif how == "old_test":
        src, masked, mask = [], False, None
    if not (src or tgt):
        src = known[:1]
        if how == "old_test":
            tgt, src = known[:1], []
    if scn["ydim"] == 2 and rt == "DeepDADataset":
        rt = "tensor"        # the deep dataset holds one label per sample
    before = store_digest(ds)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = {} if mask is None else dict(mask=mask)
        if how == "lodo":
            call = lambda: ds.pack_lodo(return_type=rt)
        elif how == "old_train":
            rt = "array" if rt != "Bunch" else "Bunch"
            call = lambda: ds.pack_train(src, tgt, return_X_y=rt == "array", **kw)
        elif how == "old_test":
            rt = "array" if rt != "Bunch" else "Bunch"
            call = lambda: ds.pack_test(tgt, return_X_y=rt == "array")
        elif how == "flags":
            rt = "array" if rt != "Bunch" else "Bunch"
            call = lambda: ds.pack(src, tgt, mask_target_labels=not masked, train=masked, return_X_y=rt == "array", **kw)
        else:
            call = lambda: ds.pack(src, tgt, mask_target_labels=masked, return_type=rt, **kw)
        res, err = guarded(call)
    m = (NAN if scn["kind"] == "float" else -2) if mask is None else lab(mask)
    r = dict(op="pack", src=src, tgt=tgt, masked=masked, mask=m, rt=rt, kind=scn["kind"], rows=[], labs=[], doms=[],
             names=[], xok=True, typeok=True, modified=store_digest(ds) != before)
    if err:
        return r, err
    if rt == "Bunch":
        X, y, d = res.X, res.y, res.sample_domain
        both = set(src) & set(tgt)
        r["names"] = [[k, int(v)] for k, v in res.domain_names.items()]
        r["typeok"] = isinstance(X, np.ndarray) and set(res.domain_names) == set(src) | set(tgt) and (bool(both) or all(
            (v > 0) == (k in src) for k, v in res.domain_names.items()))
    elif rt == "DeepDADataset":
        r["typeok"] = isinstance(res, DeepDADataset)
        X, y, d = res.X, res.y, res.sample_domain
    else:
        X, y, d = res
        want = torch.Tensor if rt == "tensor" or (rt == "auto" and scn["tensor"]) else np.ndarray
        r["typeok"] = all(isinstance(a, want) for a in (X, y, d))
    r["rows"], r["xok"] = ids_of(X, scn["shape"])
    r["labs"] = labs_of(y)
    r["doms"] = [int(v) for v in np.asarray(d).ravel()]
    if np.asarray(d).ndim != 1:
        r["typeok"] = False
    return r, err


INTS = ["int64", "int64", "int32", "int8", "int16", "uint8", "bool"]
FLOATS = ["float64", "float64", "float32", "float16"]


def scenarios(chk):
    rng = random.Random(chk.seed * 7013 + int(chk.prop[1:]))
    out = []
    ctr = itertools.count(1)

    def dom(kind, dtypes, ydim, name, p_unl):
        k = next(ctr) % 150
        n = rng.choice([1, 2, 2, 3, 4])
        rows = [10 * k + i for i in range(n)]
        dt = rng.choice(dtypes)
        has = not (kind == "int" and ydim == 1 and rng.random() < p_unl)
        if kind == "int":
            hi = 2 if dt == "bool" else 5
            y = [rng.randrange(hi) for _ in rows]
            if not dt.startswith("u") and dt != "bool" and rng.random() < 0.15:
                y = [v - 2 if v - 2 != -1 else -3 for v in y]
        else:
            y = [rng.choice([-3, -0.5, 0, 0.5, 1, 2.5, 100]) for _ in rows]
        return dict(name=name, rows=rows, y=y, dtype=dt, has=has)

    def history(n_ops, names, p_pack, create=None):
        kind = rng.choice(["int", "int", "float"])
        dts = INTS if kind == "int" else FLOATS
        if rng.random() < 0.6:
            dts = [rng.choice(dts)]
        ydim = 2 if rng.random() < 0.08 else 1
        tensor = rng.random() < 0.25
        scn = dict(kind=kind, ydim=ydim, tensor=tensor, shape=rng.choice(["2d", "2d", "1d", "3d"]),
                   create=create or rng.choice(["empty", "empty", "list", "dict"]), ops=[])
        p_unl = rng.choice([0, 0, 0.3])
        rts = ["auto", "array", "tensor", "Bunch", "DeepDADataset"]

        def name():
            return "" if rng.random() < 0.45 else rng.choice(names)

        def packop():
            r = lambda: [rng.choice([0, 1, 2, 3, 4]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            p = dict(op="pack", src=r(), tgt=r(), rt=rng.choice(rts), how=rng.choice(["pack"] * 6 + ["lodo", "old_train", "old_test", "flags"]),
                     masked=rng.random() < 0.65, mask=rng.choice([None, None, None, -7, 9]))
            if kind == "float" and p["mask"] is None and rng.random() < 0.1:
                p["mask"] = -0.5
            if rng.random() < 0.03:
                p["src"] = ["nowhere"] + p["src"]
            return p
        used = set()
        for i in range(n_ops):
            x = rng.random()
            if i and x < p_pack:
                scn["ops"].append(packop())
            elif i and x < p_pack + 0.05:
                nm = rng.sample(sorted(set(names) | {"_1", "_2"}), 2)
                scn["ops"].append(dict(op="select", names=nm, str=rng.random() < 0.5,
                                       doms=[rng.choice([1, 2, 3, -1, -2]) for _ in range(6)]))
            elif x > 0.85:
                ds, seen = [], set()
                for _ in range(rng.choice([1, 2, 2, 3])):
                    nm = name()
                    if nm in seen or nm.startswith("_"):
                        nm = ""
                    seen.add(nm)
                    ds.append(dom(kind, dts, ydim, nm, p_unl))
                mp = [[a, rng.choice(names + ["z", "_1"])] for a in rng.sample(sorted(set(names) | {"_1", "_2"}), 2)]
                scn["ops"].append(dict(op="merge", doms=ds, map=mp, usemap=rng.random() < 0.6))
            else:
                nm = name()
                if scn["create"] != "empty" and nm in used:
                    nm = ""          # clashes inside the constructor leave nothing to observe
                used.add(nm)
                scn["ops"].append(dict(op="add", **dom(kind, dts, ydim, nm, p_unl)))
        return scn

    names = ["a", "b", "_1", "_2", "_3", "_4"]
    if chk.prop == "C15":
        # every history of 4 (5) additions over a small name space, some through merge
        for h in itertools.product(["", "a", "_1", "_2", "_3"], repeat=chk.pick(4, 5)):
            k = next(ctr)
            ops = [dict(op="add", name=nm, rows=[10 * i, 10 * i + 1], y=[i, 0], dtype="int64", has=(k + i) % 4 > 0) for i, nm in enumerate(h)]
            ops.append(dict(op="pack", src=[0, 2], tgt=[1], rt=["array", "tensor", "Bunch", "DeepDADataset", "auto"][k % 5], how="pack", masked=False, mask=None))
            out.append(dict(kind="int", ydim=1, tensor=False, shape="2d", create="empty", ops=ops))
        for _ in range(chk.pick(1500, 15000)):
            out.append(history(rng.randint(2, 8), names, 0.3))
    else:
        # every (dtype, container, return type, mask) once, then random histories
        for dt, tensor, rt, mask, how, ydim in itertools.product(
                sorted(set(INTS + FLOATS)), [False, True], ["auto", "array", "tensor", "Bunch", "DeepDADataset"], [None, -7],
                ["pack", "lodo", "old_train", "flags"], [1, 2]):
            kind = "float" if dt.startswith("float") else "int"
            v = (lambda k: [k % 2, 1, 0]) if dt == "bool" else (lambda k: [k, k + 1, 0])
            ops = [dict(op="add", name=nm, rows=[10 * i + 1, 10 * i + 2, 10 * i + 3], y=v(i), dtype=dt, has=True) for i, nm in enumerate("abc")]
            for m in (True, False):
                ops.append(dict(op="pack", src=[0], tgt=[1, 2], rt=rt, how=how, masked=m, mask=mask))
            out.append(dict(kind=kind, ydim=ydim, tensor=tensor, shape="2d", create="empty", ops=ops))
        for _ in range(chk.pick(1500, 15000)):
            out.append(history(rng.randint(3, 8), ["a", "b", "c", "d", "e"], 0.55))
    return out


def corrupt(s, evs):
    e = copy.deepcopy(evs[0])
    for o in reversed(e["ops"]):
        if o["op"] == "pack" and len(o["doms"]) > 1 and not o["err"]:
            if o["labs"] and o["masked"] and o["tgt"]:
                o["labs"][-1] = [12345] * len(o["labs"][-1])
            else:
                o["doms"][0] = -o["doms"][0]
            return [e]
    return None


def check(chk):
    chk.mc("MC_Registry.tla", chk.pick("MC_Registry.cfg", "MC_Registry_T.cfg"), must_cover=("Add", "Merge", "PackStep"))
    chk.judge("TraceRegistry.tla", chk.execute(execute, scenarios(chk)), corrupt=corrupt)

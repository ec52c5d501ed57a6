"""C34: downloaded data sets: content, cache, interruptions.

Archives are small stand-ins built here; the transfer is a stand-in that copies
them.  Every call runs in a forked child, inside a scratch folder, which a fault
may end (crash) or disturb (I/O error) at its k-th file operation."""
import hashlib
import io
import json
import os
import pickle
import random
import shutil
import sys
import tarfile
import tempfile
import zipfile

import numpy as np

from .core import MachineryError, guarded

ASSUMPTIONS = ["transfers are replaced by copies of small archives with the layout of the published ones",
               "a crash loses unflushed writes of the process; completed system calls persist", "one process at a time"]
# in each set the first three and the fifth belong to the Caltech-256 selection
CATSETS = [["back_pack", "bike", "calculator", "desk", "mug", "zebra"], ["headphones", "keyboard", "laptop_computer", "letter_tray", "monitor", "zebra"],
           ["monitor", "mouse", "mug", "paper_notebook", "projector", "scissors"]]


def cats_of(seed):
    return CATSETS[seed % 3]


DOMS = dict(surf=["amazon", "webcam", "dslr"], decaf=["amazon", "webcam", "dslr"], home=["art", "clipart", "product", "realworld"],
            amazon=["books", "dvd", "kitchen", "elec"])
HOMECSV = dict(art="Art", clipart="Clipart", product="Product", realworld="RealWorld")


def trace_module(scn):
    return "TraceFetch.tla"


# ------------------------------------------------------------------ stand-in archives
def mat(**kw):
    from scipy.io import savemat
    b = io.BytesIO()
    savemat(b, kw)
    return b.getvalue()


def table(ds, seed):
    """rows in reading order; labels (cat) are numbers"""
    rng = random.Random(seed * 7 + sum(map(ord, ds)))
    rows, i = [], 0
    for dom in DOMS[ds]:
        if ds in ("surf", "decaf"):
            for c in range(6):
                if rng.random() < 0.25 and c:
                    continue
                for _ in range(rng.randint(1, 2)):
                    i += 1
                    rows.append(dict(dom=dom, cat=c, id=i, skip=False))
                    if ds == "surf" and rng.random() < 0.5:
                        i += 1
                        rows.append(dict(dom=dom, cat=c, id=i, skip=True))
        elif ds == "home":
            pass
        else:
            for _ in range(rng.randint(2, 5)):
                i += 1
                rows.append(dict(dom=dom, cat=rng.randint(-1, 1), id=i, skip=False))
    if ds == "home":
        for i in range(1, 15):
            rows.append(dict(dom=DOMS[ds][(i - 1) % 4] if i < 9 else rng.choice(DOMS[ds]), cat=rng.randint(0, 3), id=i, skip=False))
    return rows


def row(i, dim):
    v = np.zeros(dim)
    v[0], v[1], v[-1] = i % 200, i // 200, i % 7
    return v


def build(ds, seed):
    rows = table(ds, seed)
    b = io.BytesIO()
    if ds in ("surf", "decaf"):
        with tarfile.open(fileobj=b, mode="w:gz") as t:
            for r in rows:
                if ds == "surf":
                    name = f"domain_adaptation_features/{r['dom']}/interest_points/{cats_of(seed)[r['cat']]}/histogram_{r['id']:04d}.SURF_SURF." + \
                        ("amazon_600" if r["skip"] else "amazon_800") + ".SURF_SURF.mat"
                    c = mat(histogram=row(r["id"], 600 if r["skip"] else 800)[None, :].astype(np.uint8))
                else:
                    name = f"{r['dom']}/decaf-fts/{cats_of(seed)[r['cat']]}/frame_{r['id']:04d}.mat"
                    c = mat(fc8=row(r["id"], 1000)[None, :] / 4)
                ti = tarfile.TarInfo(name)
                ti.size = len(c)
                t.addfile(ti, io.BytesIO(c))
    else:
        with zipfile.ZipFile(b, "w") as z:
            if ds == "home":
                t = ",".join(f"f{k}" for k in range(5)) + ",label,domain\n"
                for r in rows:
                    t += ",".join(str(v) for v in row(r["id"], 5)) + f',"{r["cat"]}",{HOMECSV[r["dom"]]}\n'
                z.writestr("OfficeHomeResnet50.csv", t)
            else:
                for dom in DOMS[ds]:
                    rs = [r for r in rows if r["dom"] == dom]
                    z.writestr(f"amazon_review/{dom}_400.mat", mat(fts=np.array([row(r["id"], 400) for r in rs]), labels=np.array([[r["cat"]] for r in rs])))
    return b.getvalue()


_ARCH = {}


def archive(ds, seed):
    if (ds, seed) not in _ARCH:
        _ARCH[ds, seed] = build(ds, seed)
    return _ARCH[ds, seed]


# ------------------------------------------------------------------ one call, in a child
WRITES = {"os.mkdir", "os.rename", "os.remove", "os.rmdir", "shutil.move", "shutil.rmtree", "os.link", "os.symlink", "os.truncate"}


def fetchers(ds):
    import skada.datasets as S
    return dict(surf=(S.fetch_office31_surf, S.fetch_office31_surf_all), decaf=(S.fetch_office31_decaf, S.fetch_office31_decaf_all),
                home=(S.fetch_office_home, S.fetch_office_home_all), amazon=(S.fetch_amazon_review, S.fetch_amazon_review_all))[ds]


def remotes():
    """what each module downloads, by data set"""
    import skada.datasets._amazon_review as a
    import skada.datasets._office as o
    import skada.datasets._office_home as h
    out = {}
    for mod in (o, h, a):
        for v in list(vars(mod).values()):
            r = getattr(v, "remote", None)
            if r is not None and hasattr(r, "checksum"):
                ds = "home" if mod is h else "amazon" if mod is a else "decaf" if "decaf" in r.filename else "surf"
                out[ds] = r
    if set(out) != set(DOMS):
        raise MachineryError(f"remote descriptions found for {sorted(out)} only")
    return out


def child(op, scn, root, conn):
    import time
    import sklearn.datasets._base as sb
    rem = remotes()
    url = {r.url: ds for ds, r in rem.items()}
    state = dict(downloads=0, n=0, hit=False)
    home = os.path.join(root, "home")
    real_sha = sb._sha256

    def retrieve(u, path, *a, **k):
        state["downloads"] += 1
        data = archive(url[u], scn["seed"])
        if not op["net"]:
            from urllib.error import URLError
            raise URLError("no network")
        with open(path, "wb") as f:
            half = len(data) // 2
            f.write(data[:half])
            f.flush()
            open(os.path.join(root, "home", ".tick"), "a").close()    # a place to be cut in the middle of the transfer
            f.write(data[half:])
        os.remove(os.path.join(root, "home", ".tick"))

    def sha(path):
        with open(path, "rb") as f:
            d = f.read()
        for ds, r in rem.items():
            if d == archive(ds, scn["seed"]):
                return r.checksum
        return real_sha(path)
    archive(op["ds"], scn["seed"])
    sb.urlretrieve, sb._sha256 = retrieve, sha
    sb.time = type("T", (), dict(sleep=staticmethod(lambda *_: None), time=time.time))
    # load everything lazy before counting
    import scipy.io  # noqa: F401
    import encodings.idna  # noqa: F401

    def hook(event, args):
        if state["hit"] or op["fault"] == "none":
            return
        if event == "open" or event in WRITES:
            p = args[0]
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            if not isinstance(p, (str, os.PathLike)) or not os.path.realpath(os.fspath(p)).startswith(root):
                return
            state["n"] += 1
            if state["n"] == op["k"]:
                state["hit"] = True
                if op["fault"] == "crash":
                    conn.send_bytes(pickle.dumps(dict(err="crash", got=[], downloads=state["downloads"], hit=True, whole=True, names=[])))
                    os._exit(77)
                raise OSError(28, "No space left on device")
    np.random.seed(None)   # a fork inherits the parent's global stream: two processes have different ones
    kw = dict(download_if_missing=op["allowed"])
    if op["shuffle"]:
        kw.update(shuffle=True, random_state=op["rs"])
    if op["via"] == "arg":
        kw["data_home"] = home
    elif op["via"] == "path":
        from pathlib import Path
        kw["data_home"] = Path(home)
    elif op["via"] == "env":
        os.environ["SKADA_DATA_FOLDER"] = home
    else:
        os.environ["HOME"] = root
        os.environ.pop("SKADA_DATA_FOLDER", None)
        kw["data_home"] = "~/home"
    if op["cats"] == "caltech":
        from skada.datasets import Office31CategoriesPreset
        kw["categories"] = Office31CategoriesPreset.CALTECH256
    elif op["cats"] == "all":
        from skada.datasets import Office31CategoriesPreset
        kw["categories"] = Office31CategoriesPreset.ALL
    elif op["cats"]:
        kw["categories"] = [cats_of(scn["seed"])[c] for c in op["cats"]]
    one, every = fetchers(op["ds"])
    res = dict(err="", got=[], names=[], whole=True)

    def rows_of(X, y):
        X, y = np.asarray(X), np.asarray(y)
        scale = 4 if op["ds"] == "decaf" else 1
        dim = dict(surf=800, decaf=1000, home=5, amazon=400)[op["ds"]]
        out = []
        for v, lab in zip(X.astype(float) * scale, y):
            i = int(v[0] + 200 * v[1])
            if len(v) != dim or not np.array_equal(v, row(i, dim)):
                res["whole"] = False
            out.append([i, int(float(lab))])
        if len(X) != len(y):
            res["whole"] = False
        return out

    def go():
        if op["all"]:
            d = every(**kw)
            for name, num in sorted(d.domain_names_.items(), key=lambda z: z[1]):
                X, y = d.get_domain(name)
                res["got"].append(dict(dom=name, rows=rows_of(X, y)))
            return
        dom = op["dom"]
        if op["form"] == "upper":
            dom = dom.upper()
        elif op["form"] == "enum":
            import skada.datasets._amazon_review as a
            import skada.datasets._office as o
            import skada.datasets._office_home as h
            dom = dict(surf=o.Office31Domain, decaf=o.Office31Domain, home=h.OfficeHomeDomain, amazon=a.AmazonReviewDomain)[op["ds"]](dom)
        if op["xy"]:
            X, y = one(dom, return_X_y=True, **kw)
        else:
            b = one(dom, **kw)
            if op["ds"] in ("surf", "decaf"):
                X, y = b.X, b.y
                res["names"] = [cats_of(scn["seed"]).index(c) for c in b.target_names]
            else:
                (name, _), = b.domain_names_.items()
                res["got_name"] = name
                X, y = b.get_domain(name)
        res["got"].append(dict(dom=res.get("got_name", op["dom"]), rows=rows_of(X, y)))
    sys.addaudithook(hook)
    _, res["err"] = guarded(go, 40)
    state["hit"], res["hit"] = True, state["hit"]
    if res["err"]:
        res["got"] = []
    res["downloads"] = min(state["downloads"], 1) if not op["net"] else state["downloads"]   # retries while the network is down count once
    conn.send_bytes(pickle.dumps(res))
    os._exit(0)


def call(op, scn, root):
    import multiprocessing as mp
    r, w = mp.Pipe(False)
    before = set(os.listdir(root))
    pid = os.fork()
    if pid == 0:
        try:
            r.close()
            sys.stderr = open(os.devnull, "w")
            child(op, scn, root, w)
        except BaseException:  # noqa: BLE001
            import traceback
            w.send_bytes(pickle.dumps(dict(broken=traceback.format_exc())))
        finally:
            os._exit(78)
    w.close()
    try:
        res = pickle.loads(r.recv_bytes())
    except EOFError:
        res = dict(broken="child died")
    os.waitpid(pid, 0)
    r.close()
    if "broken" in res:
        raise RuntimeError(res["broken"])
    res["stray"] = bool(set(os.listdir(root)) - before - {"home"})
    res.pop("got_name", None)
    return res


def execute(scn):
    root = os.path.realpath(tempfile.mkdtemp(prefix="fetch_"))
    try:
        os.mkdir(os.path.join(root, "home"))
        out = [dict(ev="begin")]
        for op in scn["ops"]:
            res = call(op, scn, root)
            cats = {"": [], "all": [], "caltech": [0, 1, 2, 4]}.get(op["cats"]) if isinstance(op["cats"], str) else op["cats"]
            key = 0
            if op["shuffle"]:
                key = int(hashlib.sha256(json.dumps([op["ds"], op["all"], op["dom"], cats, op["rs"], scn["seed"]]).encode()).hexdigest()[:6], 16) + 1
            out.append(dict(ev="fetch", ds=op["ds"], net=op["net"], allowed=op["allowed"], fault=op["fault"], shuffle=op["shuffle"], cats=cats,
                            doms=DOMS[op["ds"]] if op["all"] else [op["dom"]], alldoms=op["all"], badarg=op["form"] == "wrong", via=op["via"], key=key,
                            indexed=op["ds"] in ("surf", "decaf"), table=table(op["ds"], scn["seed"]), **res))
        return out
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ------------------------------------------------------------------ scenarios
def op(rng, ds, **kw):
    o = dict(ds=ds, all=rng.random() < 0.35, dom=rng.choice(DOMS[ds]), form=rng.choice(["lower", "upper", "enum"]), xy=rng.random() < 0.5,
             shuffle=rng.random() < 0.3, rs=rng.randint(0, 3), net=True, allowed=True, fault="none", k=0, via=rng.choice(["arg", "arg", "path", "env", "tilde"]), cats="")
    if ds in ("surf", "decaf") and rng.random() < 0.5:
        o["cats"] = rng.choice(["caltech", "all", sorted(rng.sample(range(1, 6), 2)) + [0], [0, 4], [4, 0]])
    o.update(kw)
    if o["form"] == "wrong":
        o.update(dom="nowhere", all=False)
    return o


def corrupt(s, ev):
    ev = [dict(e) for e in ev]
    for e in ev:
        if e["ev"] == "fetch" and e["got"] and e["got"][0]["rows"]:
            e["got"] = [dict(e["got"][0], rows=e["got"][0]["rows"][:-1])] + e["got"][1:]
            return ev
    return None


def check(chk):
    rng = random.Random(chk.seed * 1000 + 34)
    chk.mc("MC_Fetch.tla", "MC_Fetch_T.cfg" if chk.thorough else "MC_Fetch.cfg", workers=4,
           must_cover=["Call", "Look", "Download", "Rest", "Unpack", "Unpack2", "Remove", "Publish", "Load", "Cut"])
    chk.mc_refuted("MC_Fetch.tla", "MC_Fetch_BadDirect.cfg")
    chk.mc_refuted("MC_Fetch.tla", "MC_Fetch_BadTrust.cfg")
    import skada.datasets  # noqa: F401 - before forking
    import scipy.io  # noqa: F401
    scns = []
    # every place to be cut, once with a crash and once with an I/O error, then an offline look and a clean call
    step = chk.pick(2, 1)
    for ds in DOMS:
        for fault in ("crash", "error"):
            for k in range(1 + rng.randint(0, step - 1), chk.pick(61, 140), step):
                scns.append(dict(seed=chk.seed, ops=[op(rng, ds, fault=fault, k=k, shuffle=False, cats=""),
                                                     op(rng, ds, net=rng.random() < 0.3, allowed=rng.random() < 0.5), op(rng, ds), op(rng, ds, net=False)]))
    for _ in range(chk.pick(120, 2500)):
        n, ops = rng.randint(2, 6), []
        few = rng.sample(sorted(DOMS), rng.choice([1, 1, 2]))
        for _ in range(n):
            kw = {}
            r = rng.random()
            if r < 0.2:
                kw = dict(net=False)
            elif r < 0.35:
                kw = dict(allowed=False)
            elif r < 0.55:
                kw = dict(fault=rng.choice(["crash", "error"]), k=rng.randint(1, 60))
            elif r < 0.62:
                kw = dict(form="wrong")
            ops.append(op(rng, rng.choice(few), **kw))
        if rng.random() < 0.5:
            a = op(rng, few[0], shuffle=True, rs=rng.choice([0, 1]))
            ops += [a, dict(a, via="arg", net=False)]
        scns.append(dict(seed=chk.seed + rng.randint(0, 3), ops=ops))
    runs = chk.execute(execute, scns)
    hits = sum(1 for _, ev in runs for e in ev if e["ev"] == "fetch" and e["fault"] != "none" and e["hit"])
    chk.notes["faults_injected"] = hits
    if hits < 30:
        raise MachineryError("hardly any fault was injected")
    chk.judge("TraceFetch.tla", runs, corrupt=corrupt)

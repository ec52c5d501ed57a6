"""C32: quadratic problems, the gradient minimiser, kernel mean matching weights."""
import itertools
import random
import warnings

import numpy as np

from .core import digest, fx, fxl, guarded

S, V = 200, 1000
ASSUMPTIONS = ["small integer problems with convex objective", "answers compared on grids of halves", "no inequality parallel to an equality (SLSQP)"]


def trace_module(scn):
    return "TraceQP.tla"


def arr(v, as_):
    if v is None:
        return None
    a = np.array(v, float)
    if as_ == "readonly":
        a.flags.writeable = False
    return np.asfortranarray(a) if as_ == "fortran" and a.ndim == 2 else a


def qp(scn):
    from skada.utils import qp_solve
    p, d = scn["p"], len(scn["Q"])
    fw = scn["solver"] == "frank-wolfe"
    w = scn.get("w") or []
    full = dict(A=p["A"] or [], b=p["b"] or [], E=p["E"] or [], e=p["e"] or [], lb=p["lb"] or ([0] * d if fw else []), ub=p["ub"] or [])
    e = dict(ev="qp", Q=scn["Q"], c=scn["c"] or [0] * d, p=dict(full, lb=p["lb"] or []), full=full, d=d, R=scn["R"], fw=fw, onerow=fw and not full["E"] and len(full["A"]) == 1,
             w=w if fw else [], hi=scn.get("hi", 0), low=full["lb"] or [0] * d, k=scn["k"] if fw else 0, x=[], v=0, solved=False, warned=False, changed=False, log=True, x0=scn["x0"] or [1] * d)

    def go():
        a = dict(Q=scn["Q"], c=scn["c"], A=p["A"], b=p["b"], Aeq=p["E"], beq=p["e"], lb=p["lb"], ub=p["ub"], x0=scn["x0"])
        a = {k: arr(v, scn["as"]) for k, v in a.items()}
        before = digest(*[a[k] for k in sorted(a) if a[k] is not None])
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            kw = dict(a, max_iter=scn["k"], log=scn["log"])
            if scn["tol"]:
                kw["tol"] = scn["tol"]
            out = qp_solve(kw.pop("Q"), solver=scn["solver"], **kw)
        e["changed"] = before != digest(*[a[k] for k in sorted(a) if a[k] is not None])
        e["warned"] = any(not issubclass(z.category, DeprecationWarning) for z in ws)
        e["log"] = len(out) == 3 and hasattr(out[2], "keys") if scn["log"] and not fw else len(out) >= 2
        e["x"] = fxl(np.asarray(out[0], float), S)
        e["solved"] = out[1] is not None
        e["v"] = fx(out[1], V) if e["solved"] else 0
    _, e["err"] = guarded(go, 60)
    return [e]


def steps(scn):
    from skada.utils import frank_wolfe
    d = len(scn["Q"])
    e = dict(ev="steps", Q=scn["Q"], c=scn["c"], w=[1] * d, lo=scn["lo"], hi=scn["hi"], low=scn["lb"] or [0] * d, ub=scn["ub"] or [], x0=scn["x0"] or [], s=[], exact=True, changed=False)
    Q, c = np.array(scn["Q"], float), np.array(scn["c"], float)

    def go():
        for k in range(1, scn["K"] + 1):
            a = [arr(v, scn["as"]) for v in (scn["x0"], scn["lb"], scn["ub"], [1] * d)]
            before = digest(*[z for z in a if z is not None])
            x = frank_wolfe(lambda z: Q @ z + c, a[3], clb=float(scn["lo"]), cub=float(scn["hi"]), x0=a[0], max_iter=k, lb=a[1], ub=a[2])
            e["changed"] |= before != digest(*[z for z in a if z is not None])
            s = np.asarray(x, float) * (k * (k + 1) / 2)
            e["exact"] &= bool(np.abs(s - np.round(s)).max() < 1e-6)
            e["s"].append(fxl(s))
    _, e["err"] = guarded(go, 60)
    return [e]


def refuse(scn):
    from skada.utils import qp_solve
    kw = {k: np.array(v, float) for k, v in scn["kw"].items()}
    _, err = guarded(lambda: qp_solve(np.eye(3), np.ones(3), solver=scn["solver"], **kw))
    return [dict(ev="refuse", err=err)]


def minimise(scn):
    import torch
    from skada.utils import torch_minimize
    torch.set_num_threads(1)
    shapes = [tuple(s) for s in scn["shapes"]]
    n = [int(np.prod(s)) for s in shapes]
    Q, c = (torch.tensor(scn[k], dtype=torch.float64) for k in ("Q", "c"))
    e = dict(ev="torch", Q=scn["Q"] if scn["loss"] == "quad" else [], c=scn["c"], want=[list(s) for s in shapes], budget=scn["k"] if scn["loss"] == "quad" and scn["tol"] >= 1e-2 else 0,
             shapes=[], v=0, v0=0, own=False, warned=False, above=False, gap=False, changed=False)

    def loss(*xs):
        z = torch.cat([x.flatten() for x in xs])
        q = .5 * z @ Q @ z + c @ z
        return q if scn["loss"] == "quad" else q + torch.cos(3 * z).sum() if scn["loss"] == "cos" else (z @ Q @ z) / (z @ z)

    def go():
        it = iter(scn["x0"])
        x0 = [np.array([next(it) for _ in range(k)], scn["dtype"]).reshape(s) for k, s in zip(n, shapes)]
        if scn["torch"]:
            x0 = [torch.tensor(x) for x in x0]
        keep = digest(*[np.array(x) for x in x0])
        start = tuple(x0) if scn["tuple"] else x0 if scn["list"] or len(x0) > 1 else x0[0]
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            sol, v = torch_minimize(loss, start, tol=scn["tol"], max_iter=scn["k"])
        e["changed"] = keep != digest(*[np.array(x) for x in x0])
        e["warned"] = any("converge" in str(z.message) for z in ws)
        sol = [sol] if not isinstance(sol, list) else sol
        e["shapes"] = [list(np.shape(x)) for x in sol]
        t = [torch.tensor(np.asarray(x), dtype=torch.float64, requires_grad=True) for x in sol]
        at = loss(*t)
        at.backward()
        g = max(x.grad.abs().max().item() for x in t)
        e["above"], e["gap"] = g > scn["tol"], abs(g - scn["tol"]) < .01 * scn["tol"]
        e["own"] = bool(abs(at.item() - v) <= 1e-9 * (1 + abs(v)))
        e["v"], e["v0"] = fx(v, V), fx(loss(*[torch.tensor(np.array(x), dtype=torch.float64) for x in x0]).item(), V)
    _, e["err"] = guarded(go, 60)
    return [e]


def weights(scn):
    """fit a reweighting adapter on integer points and read the weights of the fitted rows"""
    import skada
    fw = scn.get("solver") == "frank-wolfe"
    ns, nt = len(scn["xs"]), len(scn["xt"])
    e = dict(ev=scn["ev"], xs=scn["xs"], xt=scn["xt"], y=scn.get("y", []), x=[], zero=False, warned=False, changed=False, fw=fw, k=scn["k"], B=scn.get("B", 0),
             num=scn.get("num", 0), den=scn.get("den", 1), exact=scn.get("exact", False))

    def go():
        rng = random.Random(scn["rs"])
        order = list(range(ns + nt))
        rng.shuffle(order)
        X = np.array(scn["xs"] + scn["xt"], float)[order]
        d = np.array([1] * ns + [-2] * nt)[order]
        keep = digest(X, d)
        if scn["ev"] == "kmm":
            a = skada.KMMReweightAdapter(kernel=scn["kernel"], gamma=.5, B=scn["B"], eps=scn["num"] / scn["den"], solver=scn["solver"], max_iter=scn["k"], tol=1e-9)
            y = None
        else:
            a = skada.MMDTarSReweightAdapter(gamma=scn["gamma"], max_iter=scn["k"])
            y = np.array(scn["y"] + [-1] * nt)[order]
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            a.fit(X, y, sample_domain=d) if y is not None else a.fit(X, sample_domain=d)
        e["warned"] = any(issubclass(z.category, (UserWarning, RuntimeWarning)) for z in ws)
        w = np.asarray(a.compute_weights(X, y, sample_domain=d), float)
        e["changed"] = keep != digest(X, d)
        back = np.empty(len(w))
        back[order] = w
        e["x"] = fxl(back[:ns], S)
        e["zero"] = bool((np.abs(back[ns:]) < 1e-9).all())
    _, e["err"] = guarded(go, 60)
    return [e]


def execute(scn):
    return dict(qp=qp, steps=steps, refuse=refuse, torch=minimise, kmm=weights, tars=weights)[scn["ev"]](scn)


# ------------------------------------------------------------------ scenarios
def psd(rng, d, strict):
    M = np.array([[rng.randint(-1, 1) for _ in range(d)] for _ in range(d)])
    return (M.T @ M + (np.eye(d, dtype=int) * rng.randint(1, 2) if strict else 0)).astype(int).tolist()


def vec(rng, d, lo, hi):
    return [rng.randint(lo, hi) for _ in range(d)]


def scipy_problem(rng):
    d = rng.choice([1, 2, 2, 2, 3])
    p = dict(A=None, b=None, E=None, e=None, lb=None, ub=None)
    if rng.random() < .55:
        p["lb"] = vec(rng, d, -3, 1)
    if rng.random() < .5:
        p["ub"] = [max(v, 0) + rng.randint(0, 2) for v in p["lb"]] if p["lb"] else vec(rng, d, -1, 3)
    if rng.random() < .5:
        m = rng.randint(1, 2)
        p["A"], p["b"] = [vec(rng, d, -2, 2) for _ in range(m)], vec(rng, m, 0, 4)
    if rng.random() < .35:
        p["E"], p["e"] = [[rng.choice([-1, 1, 2]) for _ in range(d)]], vec(rng, 1, -2, 3)
    if p["A"] and p["E"] and np.linalg.matrix_rank(np.array(p["E"] + p["A"][:1])) < 2 or p["A"] and p["E"] and np.linalg.matrix_rank(np.array(p["E"] + p["A"][-1:])) < 2:
        p["A"] = p["b"] = None  # SLSQP is not trusted with dependent constraints
    if rng.random() < .08:  # hopeless
        p.update(lb=[0] * d, ub=[1] * d, E=[[1] * d], e=[d + rng.randint(1, 3)])
    return dict(ev="qp", solver="scipy", Q=psd(rng, d, True), c=vec(rng, d, -4, 4) if rng.random() < .85 else None, p=p, R=3 if d < 3 else 2,
                k=rng.choice([1000, 1000, 1000, 1, 2, 4]), tol=rng.choice([None, None, 1e-9]), x0=vec(rng, d, -3, 3) if rng.random() < .5 else None,
                log=rng.random() < .3)


def fw_problem(rng):
    d = rng.choice([1, 2, 2, 3, 3])
    w = [1] * d if rng.random() < .5 else vec(rng, d, 1, 3)
    kind = rng.choice(["eq", "eq", "two", "two", "two", "one"])
    p = dict(A=None, b=None, E=None, e=None, lb=None, ub=None)
    hi = rng.randint(1, 4)
    lo = hi if kind != "two" else rng.randint(0, hi)
    if kind == "eq":
        p["E"], p["e"] = [w], [hi]
    elif kind == "two":
        p["A"], p["b"] = [w, [-v for v in w]], [hi, -lo]
    else:
        p["A"], p["b"] = [w], [hi]
    if rng.random() < .5:
        p["lb"] = vec(rng, d, -2, 1)
    if rng.random() < .5:
        p["ub"] = [v + rng.randint(0, 3) for v in (p["lb"] or [0] * d)]
    return dict(ev="qp", solver="frank-wolfe", Q=psd(rng, d, False), c=vec(rng, d, -4, 4) if rng.random() < .85 else None, p=p, R=3 if d < 3 else 2, w=w, hi=hi,
                k=rng.choice([30, 300, 1500]), tol=None, x0=vec(rng, d, -3, 3) if rng.random() < .4 else None, log=False)


def step_problem(rng):
    d = rng.choice([2, 2, 3])
    lb = vec(rng, d, -1, 1) if rng.random() < .4 else None
    ub = [v + rng.randint(0, 3) for v in (lb or [0] * d)] if rng.random() < .6 else None
    low = lb or [0] * d
    top = sum(ub) if ub else sum(low) + 3
    hi = rng.randint(sum(low), max(sum(low), min(top, sum(low) + 4)))
    lo = rng.randint(min(0, hi), hi) if rng.random() < .6 else hi
    return dict(ev="steps", Q=psd(rng, d, False), c=vec(rng, d, -3, 3), lb=lb, ub=ub, lo=lo, hi=hi, x0=vec(rng, d, -2, 2) if rng.random() < .7 else None, K=rng.randint(2, 8))


REFUSED = [dict(solver="other", kw={}), dict(solver="frank-wolfe", kw={}), dict(solver="Scipy", kw={}),
           dict(solver="frank-wolfe", kw=dict(Aeq=[[1, 0, 0], [0, 1, 0]], beq=[1, 1])),
           dict(solver="frank-wolfe", kw=dict(A=[[1, 0, 0], [0, 1, 0], [0, 0, 1]], b=[1, 1, 1])),
           dict(solver="frank-wolfe", kw=dict(A=[[1, 1, 1], [-1, -1, -2]], b=[1, 1])),
           dict(solver="frank-wolfe", kw=dict(A=[[1, 1, 1], [1, 1, 1]], b=[1, 1])),
           dict(solver="frank-wolfe", kw=dict(A=[[1, 1, 1], [-1, -1, -1]], b=[1, -2])),
           dict(solver="frank-wolfe", kw=dict(lb=[0, 0, 0], ub=[1, 1, 1])),
           dict(solver="frank-wolfe", kw=dict(Aeq=[[1, 1, 1]], beq=[4], ub=[1, 1, 1])),
           dict(solver="frank-wolfe", kw=dict(Aeq=[[1, 1, 1]], beq=[1], lb=[1, 1, 1])),
           dict(solver="frank-wolfe", kw=dict(Aeq=[[1, 1, 1]], beq=[1], lb=[1, 0, 0], ub=[0, 1, 1]))]


def torch_problem(rng):
    shapes = rng.choice([[[2]], [[2, 1]], [[3]], [[1, 2]], [[1], [2]], [[2, 1], [1, 1]], [[1], [1], [1]]])
    d = sum(int(np.prod(s)) for s in shapes)
    loss = rng.choice(["quad", "quad", "cos", "ratio"])
    x0 = vec(rng, d, -3, 3)
    if not any(x0):
        x0[0] = 1
    integer = rng.random() < .2
    return dict(ev="torch", shapes=shapes, Q=psd(rng, d, True), c=vec(rng, d, -3, 3), loss=loss, x0=x0, k=rng.choice([1, 2, 5, 300, 1000]), tol=rng.choice([1e-2, 1e-5, 1e-7]),
                dtype="int64" if integer else rng.choice(["float64", "float32"]), torch=rng.random() < .3, tuple=rng.random() < .2, list=rng.random() < .3)


def kmm_problem(rng):
    n, m, f = rng.choice([2, 3, 4, 4]), rng.randint(1, 3), rng.randint(1, 2)
    num, den = rng.choice([(0, 1), (1, 2), (1, 4), (7, 8), (1, 1)])
    return dict(ev="kmm", rs=rng.randint(0, 999), xs=[vec(rng, f, -2, 2) for _ in range(n)], xt=[vec(rng, f, -2, 2) for _ in range(m)], B=rng.randint(1, 3), num=num, den=den,
                solver=rng.choice(["frank-wolfe", "scipy"]), k=rng.choice([200, 1000]), exact=True, kernel="linear")


def kmm_rbf(rng):
    s = kmm_problem(rng)
    n = rng.randint(3, 9)
    return dict(s, xs=[vec(rng, len(s["xt"][0]), -3, 3) for _ in range(n)], exact=False, kernel="rbf")


def tars_problem(rng):
    n = rng.randint(4, 12)
    k = rng.randint(1, 3)
    cls = rng.sample(range(0, 9), k)
    y = (cls * n)[:n]
    rng.shuffle(y)
    return dict(ev="tars", rs=rng.randint(0, 999), xs=[[5 * v + rng.randint(0, 2), rng.randint(0, 3)] for v in y], xt=[[5 * rng.choice(cls) + rng.randint(0, 2), rng.randint(0, 3)] for _ in range(rng.randint(2, 9))],
                y=y, gamma=rng.choice([.1, .5, 1.0]), k=1000)


def corrupt(s, ev):
    e = dict(ev[0])
    if e["ev"] == "qp" and e.get("solved"):
        e["v"] += 2000
        return [e]
    if e["ev"] == "steps" and e["s"]:
        e["s"] = [[v + 1 for v in e["s"][0]]] + e["s"][1:]
        return [e]
    if e["ev"] == "torch":
        e["warned"] = not e["warned"]
        return None if e["gap"] else [e]
    return None


def check(chk):
    rng = random.Random(chk.seed * 1000 + 32)
    chk.mc("MC_QP.tla", "MC_QP_T.cfg" if chk.thorough else "MC_QP.cfg", workers=8, must_cover=["Step"])
    chk.mc_refuted("MC_QP.tla", "MC_QP_Bad.cfg")
    k = chk.pick(1, 12)
    scns = [f(rng) for f, n in ((scipy_problem, 320), (fw_problem, 260), (step_problem, 260), (torch_problem, 150), (kmm_problem, 90), (kmm_rbf, 40), (tars_problem, 60)) for _ in range(n * k)]
    for s in scns:
        s["as"] = rng.choice(["plain", "plain", "readonly", "fortran"])
    scns += [dict(r, ev="refuse") for r in REFUSED]
    rng.shuffle(scns)
    runs = chk.execute(execute, scns, chunk=16)
    chk.judge("TraceQP.tla", runs, corrupt=corrupt, chunks=8)

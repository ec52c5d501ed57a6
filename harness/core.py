"""Machinery shared by every check: run TLC, run scenarios on the real code,
judge recorded traces with a Trace*.tla module, report."""
import concurrent.futures as cf
import hashlib
import json
import math
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"

NAN = -9999999
INF = 9999998


class MachineryError(Exception):
    pass


def fx(v, scale=1):
    """A float as a TLC-friendly scaled integer (NaN and infinities as sentinels)."""
    v = float(v)
    if math.isnan(v):
        return NAN
    if math.isinf(v):
        return INF if v > 0 else -INF
    r = int(round(v * scale))
    if abs(r) > 2_000_000_000:
        return INF if r > 0 else -INF
    return r


def fxl(a, scale=1):
    import numpy as np
    a = np.asarray(a)
    if a.ndim == 0:
        return fx(a, scale)
    return [fxl(x, scale) for x in a] if a.ndim > 1 else [fx(x, scale) for x in a]


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def guarded(fn, seconds=60):
    """Run fn; returns (result, err) where err is the exception class name or ''."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        return fn(), ""
    except Timeout:
        return None, "Timeout"
    except MachineryError:
        raise
    except BaseException as e:  # noqa: BLE001 - the spec judges the class
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        return None, type(e).__name__
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def digest(*objs):
    """Content digest of arrays/objects, to see whether a call modified them."""
    import numpy as np
    h = hashlib.sha256()
    for o in objs:
        if o is None:
            h.update(b"None")
        elif isinstance(o, np.ndarray):
            h.update(str((o.dtype, o.shape)).encode())
            h.update(np.ascontiguousarray(o).tobytes() if o.dtype != object else repr(o.tolist()).encode())
        elif hasattr(o, "detach"):
            h.update(str(o.dtype).encode())
            h.update(np.ascontiguousarray(o.detach().cpu().numpy()).tobytes())
        else:
            h.update(repr(o).encode())
    return int(h.hexdigest()[:7], 16)


# --------------------------------------------------------------------------
# TLC

def _java(args, env=None, timeout=800, mem="3g", cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC", f"-Xmx{mem}", "-Xss16m", "-cp", CP, "tlc2.TLC"] + args
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True)
    except subprocess.TimeoutExpired as ex:
        raise MachineryError(f"TLC timed out after {timeout}s: {' '.join(args)}") from ex
    return p.returncode, p.stdout


_ST = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def run_tlc(scratch, module, cfg, env=None, workers=1, extra=(), timeout=800, mem="3g"):
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    args = ["-config", os.path.join(SPEC, cfg), "-workers", str(workers), "-metadir", meta,
            "-noGenerateSpecTE", *extra, os.path.join(SPEC, module)]
    rc, out = _java(args, env=env, timeout=timeout, mem=mem, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    gen = dist = 0
    for m in _ST.finditer(out):
        gen, dist = int(m.group(1)), int(m.group(2))
    return rc, out, gen, dist


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
        self.states = 0
        self.transitions = 0
        self.mc_runs = []
        self.traces = 0
        self.events = 0
        self.samples = []
        self.seen = set()
        self.fails = []      # (scenario, event, clauses)
        self.corrupt = [0, 0]
        self.notes = {}
        self.exhaustive_scenarios = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    @staticmethod
    def _coverage(out, must_cover, module, cfg):
        """An action that is never taken makes a model vacuous."""
        cov = {}
        for a in must_cover:
            ms = re.findall(r"<%s line[^>]*>: (\d+):(\d+)" % re.escape(a), out)
            if not ms or max(int(b) for _, b in ms) == 0:
                raise MachineryError(f"{module}/{cfg}: action {a} never taken (vacuous model)")
            cov[a] = max(int(b) for _, b in ms)
        return cov

    # -- design-level model checking
    def mc(self, module, cfg=None, env=None, workers=4, must_cover=(), timeout=800, mem="6g", extra=()):
        cfg = cfg or module.replace(".tla", ".cfg")
        t = time.time()
        extra = tuple(extra)
        if must_cover:
            extra += ("-coverage", "1")
        rc, out, gen, dist = run_tlc(self.scratch, module, cfg, env, workers, extra, timeout, mem)
        if rc != 0:
            raise MachineryError(f"design model {module}/{cfg} failed (rc={rc}):\n{out[-4000:]}")
        cov = self._coverage(out, must_cover, module, cfg)
        self.states += dist
        self.transitions += gen
        run = dict(module=module, cfg=cfg, states=dist, transitions=gen, wall_s=round(time.time() - t, 1))
        if cov:
            run["action_counts"] = cov
        self.mc_runs.append(run)
        return out

    def mc_refuted(self, module, cfg, timeout=300):
        """A deliberately broken design must violate an invariant (the invariants bite)."""
        rc, out, gen, dist = run_tlc(self.scratch, module, cfg, None, 2, (), timeout, "3g")
        if rc != 12 or "is violated" not in out:
            raise MachineryError(f"{module}/{cfg}: the broken design was not refuted (rc={rc})\n{out[-2000:]}")
        self.mc_runs.append(dict(module=module, cfg=cfg, refuted=re.findall(r"Invariant (\w+) is violated", out)))

    def gen(self, module, cfg=None, env=None, timeout=600, mem="6g", must_cover=(), workers=4):
        """Run a generator spec that serialises scenarios to IOEnv.OUT; return them."""
        outp = os.path.join(self.scratch, f"gen_{len(self.mc_runs)}_{module}.json")
        e = dict(env or {}, OUT=outp)
        cfg = cfg or module.replace(".tla", ".cfg")
        t = time.time()
        rc, out, gen, dist = run_tlc(self.scratch, module, cfg, e, workers,
                                     ("-coverage", "1") if must_cover else (), timeout, mem)
        cov = self._coverage(out, must_cover, module, cfg) if rc == 0 else {}
        if rc != 0 or not os.path.exists(outp):
            raise MachineryError(f"generator {module}/{cfg} failed (rc={rc}):\n{out[-4000:]}")
        with open(outp) as f:
            txt = f.read()
        try:
            res = json.loads(txt)
        except json.JSONDecodeError:
            res = [json.loads(x) for x in txt.splitlines() if x.strip()]
        self.states += dist
        self.transitions += gen
        self.mc_runs.append(dict(module=module, cfg=cfg, states=dist, transitions=gen,
                                 generated=len(res), action_counts=cov, wall_s=round(time.time() - t, 1)))
        return res

    # -- running the implementation
    def execute(self, fn, scenarios, procs=8, chunk=None):
        """fn(scn) -> list of events; returns list of (scn, events)."""
        scenarios = list(scenarios)
        if not scenarios:
            return []
        if procs <= 1 or len(scenarios) < 4:
            procs = 1
        chunk = chunk or max(1, min(64, len(scenarios) // (procs * 4) or 1))
        ctx = mp.get_context("fork")
        with cf.ProcessPoolExecutor(procs, mp_context=ctx) as ex:
            res = list(ex.map(_Safe(fn), scenarios, chunksize=chunk))
        out = []
        for s, (ev, tb) in zip(scenarios, res):
            if tb:
                # the implementation returned something no driver can read
                if os.environ.get("VERIF_DEBUG"):
                    print(tb)
                last = tb.strip().splitlines()[-1][:200]
                self.fails.append((s, dict(ev="driver", traceback=tb[-1500:]), ["unreadable_result: " + last]))
                continue
            out.append((s, ev))
        return out

    # -- judging
    def judge(self, module, runs, cfg=None, chunks=6, env=None, mem="3g", timeout=800, corrupt=None,
              keep_order=True):
        """runs: list of (scn, events).  Adds failures to self.fails."""
        runs = [(s, e) for s, e in runs if e]
        if not runs:
            return
        self.traces += len(runs)
        self.events += sum(len(e) for _, e in runs)
        if len(self.samples) < 3:
            self.samples.append(dict(module=module, scenario=_short(runs[len(runs) // 2][0]),
                                     events=_short(runs[len(runs) // 2][1])))
        cruns = []
        if corrupt:
            n = 0
            for s, e in runs[:: max(1, len(runs) // 12)]:
                c = corrupt(s, e)
                if c:
                    cruns.append((s, c))
                    n += 1
                if n >= 8:
                    break
        nchunk = max(1, min(chunks, len(runs) // 20 or 1))
        parts = [runs[i::nchunk] for i in range(nchunk)]
        jobs = [(p, False) for p in parts] + ([(cruns, True)] if cruns else [])
        with cf.ThreadPoolExecutor(len(jobs)) as ex:
            futs = [ex.submit(self._judge_part, module, cfg or module.replace(".tla", ".cfg"), p, env, mem, timeout)
                    for p, _ in jobs]
            for (p, isc), f in zip(jobs, futs):
                bad, seen, gen, dist = f.result()
                if isc:
                    rejected = {id(s) for s, _, _ in bad}
                    self.corrupt[0] += len(p)
                    self.corrupt[1] += len(rejected)
                else:
                    self.fails += bad
                    self.seen |= set(seen)
                    self.states += dist
                    self.transitions += gen

    def _judge_part(self, module, cfg, runs, env, mem, timeout):
        bad, seen, gen, dist = [], set(), 0, 0
        todo = runs
        for attempt in range(6):
            if not todo:
                break
            index = []
            path = tempfile.mktemp(suffix=".ndjson", dir=self.scratch)
            outp = path + ".out"
            with open(path, "w") as f:
                for k, (s, evs) in enumerate(todo):
                    for j, e in enumerate(evs):
                        f.write(json.dumps(e) + "\n")
                        index.append((k, j))
            e = dict(env or {}, TRACE=path, OUT=outp)
            rc, out, g, d = run_tlc(self.scratch, module, cfg, e, 1, (), timeout, mem)
            gen += g
            dist += d
            if rc == 0 and os.path.exists(outp):
                with open(outp) as f:
                    r = json.load(f)
                if isinstance(r, list):
                    r = r[0]
                if r["n"] != len(index):
                    raise MachineryError(f"{module}: {r['n']} of {len(index)} lines consumed")
                for b in r["bad"]:
                    k, j = index[b["line"] - 1]
                    bad.append((todo[k][0], todo[k][1][j], sorted(b["clauses"])))
                seen |= set(r.get("seen", []))
                os.unlink(path)
                return bad, seen, gen, dist
            # evaluation error: the recorded value does not have the shape the
            # specification speaks about.  Name the line and judge the rest.
            m = re.findall(r"/\\ l = (\d+)", out)
            if os.environ.get("VERIF_DEBUG"):
                print(out[-3000:])
            if not m or "Error" not in out:
                raise MachineryError(f"{module} failed (rc={rc}):\n{out[-4000:]}")
            l = int(m[-1])
            k, j = index[min(l, len(index)) - 1]
            msg = re.findall(r"(?:Error: .*|In [a-z]+.*|Attempted .*)", out)
            bad.append((todo[k][0], todo[k][1][j], ["malformed_event: " + " | ".join(msg)[:300]]))
            todo = todo[:k] + todo[k + 1:]
        return bad, seen, gen, dist


class _Safe:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, s):
        try:
            return self.fn(s), None
        except Exception:  # noqa: BLE001
            return None, traceback.format_exc()


def _short(x, n=1500):
    t = json.dumps(x)
    return x if len(t) <= n else t[:n] + "..."


# --------------------------------------------------------------------------
# findings and reporting

def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def matches(finding, prop, scn, ev, clause):
    if finding["property"] != prop:
        return False
    if finding.get("clause") and not re.fullmatch(finding["clause"], clause):
        return False
    for k, want in finding.get("where", {}).items():
        have = scn.get(k, ev.get(k)) if isinstance(scn, dict) else ev.get(k)
        if have != want:
            return False
    return True


def finish(chk, level="model_checking", assumptions=()):
    if chk.corrupt[0] >= 3 and chk.corrupt[1] == 0 and not chk.fails:
        raise MachineryError(f"none of {chk.corrupt[0]} corrupted traces was rejected")
    findings = [f for f in load_findings() if f["property"] == chk.prop]
    known, new = {}, []
    for scn, ev, clauses in chk.fails:
        left = []
        for c in clauses:
            hit = [i for i, f in enumerate(findings) if matches(f, chk.prop, scn, ev, c)]
            if hit:
                known.setdefault(hit[0], []).append((scn, ev, c))
            else:
                left.append(c)
        if left:
            new.append((scn, ev, left))
    for i, hits in sorted(known.items()):
        print(f"KNOWN-FINDING: property={chk.prop} {findings[i]['what']} ({len(hits)} observations)")
    rdir = os.path.join(VERIF, "replays")
    if new:
        os.makedirs(rdir, exist_ok=True)
        groups = {}
        for scn, ev, left in new:
            groups.setdefault(tuple(left), []).append((scn, ev))
        for n, (cl, lst) in enumerate(sorted(groups.items(), key=lambda x: -len(x[1]))[:5]):
            scn, ev = min(lst, key=lambda z: len(json.dumps(z[0])))
            path = os.path.join(rdir, f"{chk.prop}-{n}.json")
            with open(path, "w") as f:
                json.dump(dict(property=chk.prop, clauses=list(cl), scenario=scn, event=ev,
                               seed=chk.seed, tier=chk.tier, occurrences=len(lst)), f, indent=1)
            print(f"  clause(s) {', '.join(cl)} failed {len(lst)}x, e.g. {json.dumps(ev)[:700]}")
            print(f"VIOLATION property={chk.prop} replay={path}")
    cov = dict(states=chk.states, transitions=chk.transitions,
               traces_validated_against_impl=chk.traces, trace_events=chk.events,
               samples=chk.samples[:3], model_runs=chk.mc_runs,
               spec_cases_exercised=sorted(chk.seen),
               corrupted_traces=dict(submitted=chk.corrupt[0], rejected=chk.corrupt[1]))
    cov.update(chk.notes)
    ev = dict(property=chk.prop, tier=chk.tier, seed=chk.seed, level=level, coverage=cov,
              assumptions=list(assumptions), wall_s=round(time.time() - chk.t0, 2), violations=len(new))
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, chk.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(chk.scratch, ignore_errors=True)
    if not new:
        print(f"OK property={chk.prop} states={chk.states} traces={chk.traces} events={chk.events} "
              f"wall={ev['wall_s']}s")
    return 1 if new else 0

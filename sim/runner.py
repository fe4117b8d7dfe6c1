"""Runs one property's simulations: seeds -> scenarios -> isolated runs -> verdict."""
import collections
import gc
import hashlib
import importlib
import json
import mmap
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MPSIM_REPO", "/repo")
PKG = os.path.join(REPO, "micropolarray") + os.sep
WORKERS = int(os.environ.get("MPSIM_WORKERS", "8"))
CPU_LIMIT = 100
WALL_LIMIT = 300


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg = cls, msg


class Known(Exception):
    """A listed finding was met: the rest of the run cannot be judged."""


class Env:
    """Everything a run reports."""

    def __init__(self, scn, root):
        self.scn, self.root = scn, root
        self.probes = collections.Counter()
        self.faults = collections.Counter()
        self.ops = collections.Counter()
        self.trace = []
        self.checks = 0
        self.sim_ns = 0
        self.steps = 0
        self.sched = None
        self.known = []

    def fail(self, cls, msg):
        raise Violation(cls, msg)

    def note(self, *a):
        self.trace.append(" ".join(str(x) for x in a))

    def check(self, ok, cls, msg):
        self.checks += 1
        if not ok:
            raise Violation(cls, msg() if callable(msg) else msg)


# ------------------------------------------------------------------ environment
def prepare(mod=None):
    """Install the seams, then import the code under test from REPO."""
    import logging
    import warnings
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
    from . import sched
    sched.install_locks(PKG)
    for name in ("scipy.optimize", "scipy.ndimage", "scipy.interpolate", "astropy.io.fits", "numba", "numba.typed",
                 "matplotlib.pyplot", "pandas", "cv2", "PIL.Image", "tqdm", "pytz", "fcntl", "termios", "struct"):
        try:  # third-party code may come from its bytecode cache
            importlib.import_module(name)
        except ImportError:
            pass
    if "tqdm" in sys.modules:
        sys.modules["tqdm"].tqdm.monitor_interval = 0  # no monitor thread: it is outside the simulated schedule
    sys.pycache_prefix = "/nonexistent/mpsim"  # the code under test is always compiled from source
    from . import faults, pool
    pool.install()
    faults.install()
    # no import looks into the directory of a run: a task would be parked there with an import lock
    sys.path[:] = [REPO, VERIF] + [p for p in sys.path if p and p not in (REPO, VERIF)]
    import micropolarray
    if not os.path.abspath(micropolarray.__file__).startswith(PKG):
        raise SystemExit(f"imported {micropolarray.__file__}, not {REPO}")
    logging.disable(logging.CRITICAL)
    warnings.filterwarnings("ignore")
    import astropy.io.fits.verify  # noqa: F401
    from . import lib
    lib.warm_up(**getattr(mod, "WARM", {}))
    return micropolarray


def scratch_base():
    for d in ("/dev/shm", tempfile.gettempdir()):
        try:
            if os.access(d, os.W_OK) and shutil.disk_usage(d).free > 1 << 30:
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


def seed_for(prop, seed, i):
    return int.from_bytes(hashlib.sha256(f"{prop}/{seed}/{i}".encode()).digest()[:8], "big")


def _child(mod, scn, root, wfd):
    import _thread  # noqa: F401
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
    gc.disable()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("MPSIM_STDERR"):
        os.dup2(devnull, 2)
    from . import faults, native, pool
    os.chdir(root)
    env = Env(scn, root)
    out = {"status": "ok"}
    pool.PLAN.reset()
    faults.reset()
    try:
        mod.run(scn, env)
    except Violation as v:
        out = {"status": "violation", "cls": v.cls, "msg": v.msg[:2000]}
    except Known as k:
        env.known.append(str(k))
    except BaseException as exc:
        tb = traceback.extract_tb(exc.__traceback__)
        text = "".join(traceback.format_exception(exc))[-3000:]
        if any(f.filename.startswith(PKG) for f in tb) and not isinstance(exc, faults.HarnessError):
            out = {"status": "violation", "cls": "unexpected-exception",
                   "msg": f"{type(exc).__name__}: {exc}\n{text}"}
        else:
            out = {"status": "error", "msg": text}
    try:
        native.disarm()
        native.alloc(False)
    except Exception:
        pass
    faults.collect(env)
    out.update(probes=env.probes, faults=env.faults, ops=env.ops, checks=env.checks,
               sim_ns=env.sim_ns, steps=env.steps, sched=env.sched, known=env.known,
               digest=hashlib.sha1("\n".join(env.trace).encode()).hexdigest()[:16],
               trace=env.trace[-200:])
    data = json.dumps(out, default=str).encode()
    while data:
        n = os.write(wfd, data)
        data = data[n:]


def run_isolated(mod, scn, base):
    """One run in a forked child of this process."""
    # fixed-width name: path lengths must not differ between runs
    root = tempfile.mkdtemp(prefix="mpsim-", dir=base)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            os.setsid()
            _child(mod, scn, root, w)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    chunks, end = [], time.monotonic() + WALL_LIMIT
    timed_out = False
    import select
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        if select.select([r], [], [], min(left, 5))[0]:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(root, ignore_errors=True)
    if timed_out:
        return {"status": "violation", "cls": "no-progress", "msg": f"run did not end within {WALL_LIMIT} s"}
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        name = signal.Signals(sig).name
        if sig == signal.SIGXCPU:
            return {"status": "violation", "cls": "no-progress", "msg": f"run used more than {CPU_LIMIT} s of CPU time"}
        if sig == signal.SIGKILL:
            return {"status": "error", "msg": "run was killed (SIGKILL)"}
        return {"status": "violation", "cls": "process-died", "msg": f"the process died of {name}"}
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return {"status": "error", "msg": f"no result from run (exit {os.WEXITSTATUS(status)})"}


# ------------------------------------------------------------------ minimisation
def _same(a, cls):
    return a.get("status") == "violation" and a.get("cls") == cls


def minimise(mod, scn, res, base, budget_s, max_trials):
    """Greedy shrink over the candidates the property proposes; list fields by ddmin."""
    t0, trials = time.monotonic(), 0
    cls = res["cls"]

    def attempt(cand):
        nonlocal trials
        if time.monotonic() - t0 > budget_s or trials >= max_trials:
            return None
        trials += 1
        r = run_isolated(mod, cand, base)
        return r if _same(r, cls) else None

    best, bestres = scn, res
    progress = True
    while progress and time.monotonic() - t0 < budget_s and trials < max_trials:
        progress = False
        for path in getattr(mod, "LISTS", []):
            lst = _get(best, path)
            if not isinstance(lst, list) or not lst:
                continue
            n = max(1, len(lst) // 2)
            while n >= 1:
                i = 0
                while i < len(lst):
                    cand = _set(best, path, lst[:i] + lst[i + n:])
                    r = attempt(cand)
                    if r:
                        best, bestres, lst, progress = cand, r, lst[:i] + lst[i + n:], True
                    else:
                        i += n
                n //= 2
        if hasattr(mod, "shrink"):
            for cand in mod.shrink(best):
                r = attempt(cand)
                if r:
                    best, bestres, progress = cand, r, True
                    break
    return best, bestres, trials


def _get(d, path):
    for k in path.split("."):
        if not isinstance(d, dict) or k not in d:
            return None
        d = d[k]
    return d


def _set(d, path, v):
    d = json.loads(json.dumps(d))
    x = d
    ks = path.split(".")
    for k in ks[:-1]:
        x = x[k]
    x[ks[-1]] = v
    return d


# ------------------------------------------------------------------ main loop
def _worker(mod, prop, seed, tier, indices, base, stop, deadline, wfd):
    agg = {"runs": 0, "nontrivial": 0, "probes": collections.Counter(), "faults": collections.Counter(),
           "ops": collections.Counter(), "checks": 0, "sim_ns": 0, "steps": 0, "digests": [],
           "viol": [], "errors": [], "known": collections.Counter(), "log": [], "samples": []}
    for i in indices:
        if stop[0] or time.monotonic() > deadline:
            break
        scn = mod.gen(random.Random(seed_for(prop, seed, i)), tier, i)
        scn = json.loads(json.dumps(scn))
        res = run_isolated(mod, scn, base)
        agg["runs"] += 1
        for k in ("probes", "faults", "ops"):
            agg[k].update(res.get(k) or {})
        for k in ("checks", "sim_ns", "steps"):
            agg[k] += res.get(k) or 0
        agg["known"].update(res.get("known") or [])
        if res.get("checks"):
            agg["nontrivial"] += 1
            agg["digests"].append(res["digest"])
        agg["log"].append([i, res.get("status"), res.get("cls"), res.get("digest")])
        if len(agg["samples"]) < 1 and res.get("checks"):
            agg["samples"].append({"run": i, "scenario": scn, "trace": (res.get("trace") or [])[:30]})
        if res["status"] == "violation":
            agg["viol"].append([i, scn, res])
            stop[0] = 1
            break
        if res["status"] == "error":
            agg["errors"].append([i, res["msg"]])
            if len(agg["errors"]) > 3:
                stop[0] = 1
                break
    data = json.dumps(agg, default=str).encode()
    with os.fdopen(wfd, "wb") as f:
        f.write(data)


def merge(parts):
    tot = {"runs": 0, "nontrivial": 0, "checks": 0, "sim_ns": 0, "steps": 0,
           "probes": collections.Counter(), "faults": collections.Counter(), "ops": collections.Counter(),
           "known": collections.Counter(), "digests": [], "viol": [], "errors": [], "log": [], "samples": []}
    for p in parts:
        for k in ("runs", "nontrivial", "checks", "sim_ns", "steps"):
            tot[k] += p[k]
        for k in ("probes", "faults", "ops", "known"):
            tot[k].update(p[k])
        for k in ("digests", "viol", "errors", "log", "samples"):
            tot[k] += p[k]
    tot["viol"].sort(key=lambda v: v[0])
    tot["log"].sort()
    return tot


def explore(mod, prop, seed, tier, n_runs, base, deadline, workers=WORKERS):
    shm = mmap.mmap(-1, 8)
    pipes = []
    sys.stdout.flush()
    for w in range(workers):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                os.close(r)
                for rr, _ in pipes:
                    os.close(rr)
                _worker(mod, prop, seed, tier, range(w, n_runs, workers), base, shm, deadline, wfd)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wfd)
        pipes.append((r, pid))
    parts = []
    dead = []
    for r, pid in pipes:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if st or not data:
            dead.append(st)
        else:
            parts.append(json.loads(data))
    return merge(parts), dead


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=str, sort_keys=False)
    os.replace(tmp, path)


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == prop]


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay, runs, only, dump = None, None, None, None
    args = argv[1:]
    while args:
        a = args.pop(0)
        if a == "--replay":
            replay = args.pop(0)
        elif a == "--runs":
            runs = int(args.pop(0))
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--tier":
            tier = args.pop(0)
        elif a == "--only":
            only = int(args.pop(0))
        elif a == "--dump-log":
            dump = args.pop(0)
        else:
            raise SystemExit(f"unknown argument {a}")
    tier = "thorough" if tier == "thorough" else "quick"
    t0 = time.monotonic()
    mod = importlib.import_module(f"sim.props.{prop.lower()}")
    prepare(mod)
    if hasattr(mod, "prepare"):
        mod.prepare()
    gc.collect()
    gc.freeze()
    base = tempfile.mkdtemp(prefix="mpsim-", dir=scratch_base())
    try:
        return _main(mod, prop, tier, seed, replay, runs, only, dump, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _main(mod, prop, tier, seed, replay, runs, only, dump, base, t0):
    if replay:
        with open(replay) as f:
            data = json.load(f)
        res = run_isolated(mod, data["scenario"], base)
        if res["status"] == "violation":
            same = res["cls"] == data["cls"] and res.get("digest") == data.get("digest")
            print(f"{res['cls']}: {res['msg']}")
            for line in res.get("trace") or []:
                print("  |", line)
            print(f"replay {'is identical to' if same else 'differs from'} the recorded run")
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        print(f"replay: {res['status']} {res.get('msg', '')}")
        return 0 if res["status"] == "ok" else 2
    if only is not None:
        scn = json.loads(json.dumps(mod.gen(random.Random(seed_for(prop, seed, only)), tier, only)))
        print(json.dumps(scn, indent=1)[:6000])
        res = run_isolated(mod, scn, base)
        print(json.dumps(res, indent=1, default=str)[:8000])
        return 0 if res["status"] == "ok" else 1 if res["status"] == "violation" else 2

    n_runs = runs or mod.RUNS[tier]
    cap = getattr(mod, "CAP", {"quick": 300, "thorough": 3600})[tier]
    tot, dead = explore(mod, prop, seed, tier, n_runs, base, t0 + cap)
    code = 0
    viol_n = 0
    if tot["viol"]:
        i, scn, res = tot["viol"][0]
        scn0, res0 = scn, res
        if res.get("sched") and "sched" in scn:
            cand = dict(scn, sched=res["sched"])
            r = run_isolated(mod, cand, base)
            if _same(r, res["cls"]):
                scn, res = cand, r
        confirm = run_isolated(mod, scn, base)
        if not _same(confirm, res["cls"]):
            print(f"run {i}: {res['cls']} did not reproduce ({confirm.get('status')} {confirm.get('cls')})", file=sys.stderr)
            print(res["msg"], file=sys.stderr)
            code = 2
        else:
            viol_n = 1
            scn, res, trials = minimise(mod, scn, confirm, base, 60 if tier == "quick" else 300, 250)
            path = os.path.join(VERIF, "replays", f"{prop}-{seed}-{i}.json")
            write_json(path, {"property": prop, "seed": seed, "run": i, "cls": res["cls"], "msg": res["msg"],
                              "digest": res.get("digest"), "shrink_trials": trials, "scenario": scn,
                              "trace": res.get("trace"), "original_scenario": scn0})
            print(f"run {i} (seed {seed}): {res['cls']}: {res['msg']}")
            for line in (res.get("trace") or [])[-25:]:
                print("  |", line)
            print(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}")
            code = 1
    if tot["errors"] or dead:
        for i, msg in tot["errors"][:3]:
            print(f"harness error in run {i}: {msg}", file=sys.stderr)
        if dead:
            print(f"worker processes ended with {dead}", file=sys.stderr)
        if code == 0:
            code = 2
    for kf in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {kf['what']}")
    wall = time.monotonic() - t0
    if tot["runs"] == 0 and code == 0:
        code = 2
    distinct = len(set(tot["digests"]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": distinct,
            "rule": mod.RULE,
            "samples": tot["samples"][:3],
            "planned_runs": n_runs,
            "runs_per_hour": round(tot["runs"] / wall * 3600),
            "oracle_checks": tot["checks"],
            "simulated_time_s": round(tot["sim_ns"] / 1e9, 3),
            "simulated_steps": tot["steps"],
            "faults_injected": dict(sorted(tot["faults"].items())),
            "operations": dict(sorted(tot["ops"].items())),
            "probes": dict(sorted(tot["probes"].items())),
            "distinct_measure": "distinct SHA-1 of the run's event log (operations, switches, faults, outcomes) among runs that reached at least one oracle check",
            "real_components": getattr(mod, "REAL", "all of micropolarray, numpy, scipy, numba, astropy.io.fits, CPython I/O, kernel tmpfs"),
            "stubbed_components": getattr(mod, "STUB", "libc file calls go through simio.so (faults, order, crash), wall clock, numpy data allocator, process pool"),
            "known_findings_met": dict(tot["known"]),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": viol_n,
    }
    write_json(os.path.join(VERIF, "evidence", f"{prop}.json"), ev)
    if dump:
        with open(dump, "w") as f:
            json.dump(tot["log"], f)
    print(f"{prop} {tier} seed={seed}: {tot['runs']}/{n_runs} runs, {distinct} distinct, {tot['checks']} checks, "
          f"faults {dict(tot['faults'])}, {wall:.1f} s, exit {code}")
    return code

"""C20: a session leaves nothing behind: files, memory, workers, process-wide settings."""
import collections
import gc
import json
import os
import random
import shutil
import warnings

import numpy as np

from .. import attempt, calib, lib, native, pool, program

RUNS = {"quick": 420, "thorough": 14000}
WARM = {"demosaic": ["<f8", "<u2", "<i2"], "ifov": ["<f8", "<u2", "<i2"], "shift": ["<f8"]}
LISTS = ["items"]
RULE = ("seeded session of 1-4 parts (operation histories, saves, file lists, matrix folders, calibrations, conversions, image functions, plots, packed files, refused operations), each of "
        "which may meet file errors, lost memory or an interruption at a drawn point, executed three times in one process; after every part the open descriptors, mapped "
        "files, temporary files, pools, processes, threads and process-wide settings are compared with those before, after every round the memory and images still alive "
        "and the results with the round before; non-trivial = at least one part was judged")
ASSUMPTIONS = ["figures returned by plots belong to the caller", "what an interruption leaves inside third-party code is not judged"]
STUB = "numpy data allocator (counts blocks), libc file calls (simio.so), process pool"

KINDS = ["ops", "ops", "ops", "save", "save", "list", "list", "demod", "demod", "convert", "convert", "pure", "bad", "bad", "show", "packed", "chen"]
SHOW = ["show", "histogram", "params", "single", "param", "demo", "with", "demodulator"]
ROUNDS = 4
OURS = {"builtins.list", "builtins.tuple", "collections.Counter"}


def gen(rng, tier, i):
    items = []
    for _ in range(rng.randrange(1, 5)):
        it = program.gen_item(rng, KINDS + (["calib"] if rng.random() < 0.12 else []))
        it.pop("rel", None)
        if it["k"] == "show":
            it["how"] = [rng.choice(SHOW) for _ in range(rng.randrange(1, 3))]
        if it["k"] == "packed":
            it.update(length=rng.choice([0, 95, 96, 9600, 9601]), set=rng.random() < 0.5)
        it["fault"] = attempt.gen_fault(rng, ["io", "io", "io", "space", "alloc", "interrupt"], crash=False) if rng.random() < 0.65 and it["k"] != "show" else None
        if it["k"] in ("calib", "packed"):
            it["fault"] = it["fault"] if it["k"] == "packed" else None
            r = rng.random()
            it["pool"] = [dict(kind=rng.choice(["raise", "encode", "spawn"]), item=rng.randrange(4), exc=rng.choice(["MemoryError", "OSError", "ValueError"]))] if r < 0.6 else []
        items.append(it)
    return {"items": items, "memmap": rng.random() < 0.6}


def shrink(scn):
    for k, it in enumerate(scn["items"]):
        if it["fault"]:
            yield dict(scn, items=[dict(x, fault=None) if j == k else x for j, x in enumerate(scn["items"])])
        if it["k"] in ("ops", "save"):
            for j in range(len(it["ops"])):
                if len(it["ops"]) > 1:
                    yield dict(scn, items=[dict(x, ops=x["ops"][:j] + x["ops"][j + 1:]) if q == k else x for q, x in enumerate(scn["items"])])


def descriptors(root):
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if not t.startswith("/proc/"):
            out.append(f"{fd} {t}")
    with open("/proc/self/maps") as f:
        out += sorted({"mapped " + line.split(None, 5)[5].strip() for line in f if root in line})
    return out


def settings():
    """What the process holds that every caller in it shares."""
    import decimal
    import locale
    import logging
    import random as r
    import signal
    import sys
    import threading
    import matplotlib
    import matplotlib.pyplot as plt
    from astropy.io import fits
    mask = os.umask(0)
    os.umask(mask)
    with open(f"/proc/self/task/{os.getpid()}/children") as f:
        children = f.read().split()
    m = lib.ml()
    return {
        "working directory": os.getcwd(), "umask": mask, "environment": dict(os.environ), "child processes": children,
        "threads": sorted(t.name for t in threading.enumerate() if not t.daemon), "signal handlers": [repr(signal.getsignal(s)) for s in (2, 13, 14, 15, 17)],
        "alarm": signal.getitimer(signal.ITIMER_REAL), "numeric error handling": np.geterr(), "print options": repr(np.get_printoptions()),
        "random state": [lib.sha(repr(r.getstate()).encode()), lib.sha(repr([x.tobytes() if isinstance(x, np.ndarray) else x for x in np.random.get_state()]).encode())],
        "warning filters": [repr(x) for x in warnings.filters], "recursion limit": sys.getrecursionlimit(), "locale": locale.setlocale(locale.LC_ALL),
        "FITS configuration": {k: getattr(fits.conf, k) for k in ("use_memmap", "enable_record_valued_keyword_cards", "strip_header_whitespace", "lazy_load_hdus", "extension_name_case_sensitive", "enable_uint")},
        "plot settings": lib.sha(repr(sorted((k, repr(v)) for k, v in matplotlib.rcParams.items())).encode()), "figures": plt.get_fignums(),
        "logging": [logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable], "decimal": decimal.getcontext().prec,
        "search path": list(sys.path), "standard streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin)],
        "default orientations": sorted(m.MicropolImage(np.ones((4, 4))).angle_dic.items()), "open pools": pool.PLAN.open,
    }


def show(how, root):
    """Plots; the figures are closed by their owner."""
    import matplotlib.pyplot as plt
    m = lib.ml()
    img = m.MicropolImage(np.arange(1.0, 65.0).reshape(8, 8), angle_dic=lib.CAMERA)
    if how == "demo":
        img.demosaic("mean")
    if how == "demodulator":
        lib.write_tensor(root, np.ones((3, 4, 4, 4)))
        m.Demodulator(root).show(dpi=50)
    else:
        {"show": img.show, "histogram": img.show_histogram, "params": img.show_pol_params, "single": img.show_single_pol_images,
         "param": lambda: img.show_pol_param("DoLP"), "demo": img.show_demo_images, "with": img.show_with_pol_params}[how]()
    plt.close("all")


def packed(it, root):
    """A packed file of a wrong length, or whose workers fail; the kind of failure."""
    m, f = lib.ml(), os.path.join(root, "p.bin")
    with open(f, "wb") as fh:
        fh.write(bytes(range(256)) * (it["length"] // 256) + bytes(it["length"] % 256))
    pool.PLAN.faults, pool.PLAN.inproc = list(it["pool"]), True
    if it["set"]:
        m.convert_set([f, f], os.path.join(root, "p.fits"), 1952, 1952)
    else:
        from micropolarray.processing.convert import nparr_from_binary
        nparr_from_binary(f)


def run(scn, env):
    from astropy.io import fits
    fits.conf.use_memmap = scn["memmap"]
    m = lib.ml()
    m.set_default_angles(dict(lib.CAMERA))
    temp = os.path.join(env.root, "tmp")
    os.makedirs(temp)
    import tempfile
    os.environ["TMPDIR"] = temp
    tempfile.tempdir = None
    native.use_sim_allocator()
    work = os.path.join(env.root, "w")

    def part(it):
        """One part, executed in a fresh folder; what it gave, or the kind of failure."""
        os.makedirs(work)
        out = []
        try:
            if it["k"] == "calib":
                cal = calib.Calib(it["c"], work)
                pool.PLAN.reset(order="fifo", faults=it["pool"], inproc=True)
                try:
                    cal.run(os.path.join(work, "out"), it["grid"])
                except Exception as exc:
                    out.append(type(exc).__name__)
                    env.faults["pool_" + it["pool"][0]["kind"] if it["pool"] else "none"] += 1
                    env.check(bool(it["pool"]), "unexpected-exception", lambda: f"a calibration failed: {exc!r}")
                return json.dumps(out + program.tree_digest(work)), []
            fn = lambda: program.run_item(it, work, out)
            if it["k"] == "show":
                fn = lambda: [show(h, os.path.join(work, h)) for h in it["how"]]
            if it["k"] == "packed":
                fn = lambda: packed(it, work)
            if it["fault"] or it["k"] == "packed":
                o = attempt.under(env, fn, work, it["fault"], budget=20000, minsize=64, must_work=it["k"] != "packed")
                failed = None if o.raised is None else type(o.raised).__name__
                hit, o.raised = o.hit, None
                del o
            else:
                fn()
                failed, hit = None, False
            if it["fault"] and it["fault"]["mode"] == "interrupt":
                gc.collect()                 # it may come between opening a file and entering its block
            left = descriptors(env.root)     # the frames of a failure are gone, nothing collected yet
            return json.dumps([failed, out], default=str), left
        finally:
            lib.L.sim_pause(1) if lib.L.sim_armed() else None
            shutil.rmtree(work)

    types = lambda: collections.Counter(f"{type(o).__module__}.{type(o).__qualname__}" for o in gc.get_objects())
    # what a fresh interpreter has
    np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
    warnings.resetwarnings()
    warnings.simplefilter("default")
    gc.collect()
    alive, results = [], []
    for rnd in range(ROUNDS):
        got = []
        for n, it in enumerate(scn["items"]):
            what = f"part {n} ({it['k']}{', with ' + it['fault']['mode'] + ' fault' if it['fault'] else ''})"
            files, before = descriptors(env.root), settings()
            res, left = part(it)
            got.append(res)
            env.ops[it["k"]] += 1
            more = [x for x in left if x not in files]
            env.check(not more, "open-files", lambda: f"{what}: files are still open or mapped: {more}")
            after = settings()
            bad = [k for k in before if before[k] != after[k]]
            env.check(not bad, "changed-settings", lambda: f"{what} left the {bad[0]} changed: {str(before[bad[0]])[:300]} is now {str(after[bad[0]])[:300]}")
            files2 = descriptors(env.root)
            env.check(files2 == files, "open-files", lambda: f"{what}: descriptors were {files}, now {files2}")
            t = sorted(os.listdir(temp))
            env.check(not t, "temporary-files", lambda: f"{what}: temporary files are left behind: {t}")
            if rnd == 0:
                env.note(what, lib.sha(res.encode()))
        gc.collect()
        alive.append((native.L.sim_alloc_live(), sum(isinstance(o, m.Image) for o in gc.get_objects()), types()))
        results.append(got)
        if rnd:
            for n, (a, b) in enumerate(zip(results[0], got)):
                # where a fault falls may depend on what is already there
                env.check(a == b or bool(scn["items"][n]["fault"]), "not-repeatable", lambda: f"part {n} ({scn['items'][n]['k']}) gives another result when the session is repeated (round {rnd}): {a[:600]} is not {b[:600]}")
    # steady state: what a round keeps, the next one keeps too
    grow = [b[0] - a[0] for a, b in zip(alive[1:], alive[2:])]
    env.check(min(grow) <= 0, "retained-memory", lambda: f"every repetition of the session keeps more arrays alive: {[a[0] for a in alive]}")
    grow = [b[1] - a[1] for a, b in zip(alive[1:], alive[2:])]
    env.check(min(grow) <= 0, "retained-images", lambda: f"every repetition of the session keeps more images alive: {[a[1] for a in alive]}")
    for name in sorted(alive[-1][2]):
        n = [a[2][name] for a in alive]
        if n[1] < n[2] < n[3] and name not in OURS:
            env.fail("retained-objects", f"every repetition of the session keeps more objects of the type {name} alive: {n}")
    env.note("done", len(results))

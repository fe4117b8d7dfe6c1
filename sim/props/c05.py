"""C05: packed camera files decode exactly under every worker schedule; failures are reported."""
import os

import numpy as np

from .. import lib, pool
from ..lib import Seam

N = 1952
RUNS = {"quick": 64, "thorough": 1500}
CAP = {"quick": 420, "thorough": 3600}
WARM = {"demosaic": [], "ifov": [], "shift": []}
LISTS = ["faults", "files"]
RULE = ("seeded scenario: 1-2 packed 12-bit files (random, structured, with runs of zero or 0xff bytes at every chunk boundary, with special bytes first or last) converted on a simulated "
        "process pool (seeded chunk assignment and completion order) with benign transfers, or with a failing worker, a result that cannot be "
        "sent back, no worker processes, a read error, or a wrong length; non-trivial = the decoded values or the refusal were compared")
ASSUMPTIONS = ["a worker killed by the system hangs the standard library pool and is not modelled"]
STUB = "process pool (simulated scheduling, real worker code and pickling), libc file calls (simio.so), wall clock"


def gen(rng, tier, i):
    scn = {"files": [{"seed": rng.getrandbits(30), "kind": rng.choice(["rand", "rand", "zeros", "ones", "runs", "grad", "tail0", "tailff"]),
                       "edges": [rng.choice(["", "", "0a", "20", "00", "0d0a", "0909", "1a", "efbbbf", "5349", "2e"]) for _ in range(2)]}
                     for _ in range(1 if rng.random() < 0.75 else 2)],
           "pool": rng.getrandbits(30), "order": rng.choice(["seeded", "seeded", "reversed", "fifo"]), "inproc": rng.random() < 0.8,
           "faults": [], "old": rng.random() < 0.6, "memmap": rng.random() < 0.5}
    r = rng.random()
    if r < 0.45:
        scn["mode"] = "plain"
        scn["benign"] = [{"kinds": ["read"], "frac": round(rng.random(), 3), "action": rng.choice(["short", "eintr"]), "arg": rng.choice([1, 500, 999])}
                         for _ in range(rng.randrange(0, 3))]
    elif r < 0.7:
        scn["mode"] = "worker"
        k = rng.choice(["raise", "raise", "raise", "encode", "spawn"])
        scn["faults"] = [{"kind": k, "item": rng.randrange(32), "late": rng.random() < 0.5, "exc": rng.choice(["MemoryError", "OSError", "RuntimeError", "ValueError"])}]
        scn["files"] = scn["files"][:1]
    elif r < 0.9:
        scn["mode"] = "length"
        scn["delta"] = rng.choice([-1, 1, -3, 3, -96, 96, -2, 2, "zero", "half", "third", "one", "tiny", -32, 32, "double"])
        scn["files"] = scn["files"][:1]
    else:
        scn["mode"] = "read"
        scn["plan"] = {"kinds": [rng.choice(["openr", "read"])], "frac": round(rng.random(), 3), "action": "err", "err": rng.choice(["EIO", "EACCES"])}
        scn["files"] = scn["files"][:1]
    return scn


def content(f):
    n = N * N * 3 // 2
    g = np.random.Generator(np.random.PCG64(f["seed"]))
    a = g.integers(0, 256, n, dtype=np.uint8)
    chunk = n // 32
    k = f["kind"]
    if k == "zeros":
        a[:] = 0
        a[int(g.integers(n))] = 7
    elif k == "ones":
        a[:] = 255
        a[int(g.integers(n))] = 7
    elif k == "runs":
        for _ in range(40):
            p = int(g.integers(n))
            a[p:p + int(g.integers(1, 5000))] = g.choice([0, 255, 15, 240])
    elif k == "grad":
        a = (np.arange(n) // 7 % 256).astype(np.uint8)
    elif k in ("tail0", "tailff"):
        for c in g.choice(32, 8, replace=False):
            e = (int(c) + 1) * chunk
            a[e - int(g.integers(1, 40)):e] = 0 if k == "tail0" else 255
            a[e - chunk:e - chunk + int(g.integers(1, 20))] = 0 if k == "tail0" else 255
    first, last = (np.frombuffer(bytes.fromhex(e), np.uint8) for e in f.get("edges", ["", ""]))
    a[:len(first)] = first
    a[n - len(last):] = last
    return a


def decode(a):
    b = a.astype(np.int64).reshape(-1, 3)
    out = np.empty((len(b), 2), np.int64)
    out[:, 0] = (b[:, 0] << 4) | (b[:, 1] >> 4)
    out[:, 1] = (b[:, 2] << 4) | (b[:, 1] & 15)
    return out.reshape(N, N)


def run(scn, env):
    from astropy.io import fits
    fits.conf.use_memmap = scn["memmap"]
    m, root = lib.ml(), env.root
    pool.PLAN.reset(scn["pool"], scn["order"], scn["faults"], scn["inproc"])
    names, arrs = [], []
    for k, f in enumerate(scn["files"]):
        a = content(f)
        d = scn.get("delta")
        if scn["mode"] == "length":
            if isinstance(d, int):
                a = a[:d] if d < 0 else np.concatenate([a, a[:d]])
            else:
                a = a[:{"zero": 0, "half": len(a) // 2, "third": len(a) // 3, "one": 1, "tiny": 96, "double": len(a)}[d]]
                if d == "double":
                    a = np.concatenate([a, a])
        p = os.path.join(root, f"p{k}.bin")
        a.tofile(p)
        names.append(p), arrs.append(a)
    target = os.path.join(root, "packed.fits")
    if scn["old"]:
        lib.write_fits(target, np.arange(12.0).reshape(3, 4))
    before = lib.tree(root)

    def convert():
        m.convert_set(names, target, N, N)

    plans = []
    if scn["mode"] == "read":
        plans = [dict(scn["plan"], nth=1)]
    elif scn.get("benign"):
        plans = [dict(b, nth=1 + int(b["frac"] * 3)) for b in scn["benign"]]
    with Seam(env, root, plans, budget=20000) as seam:
        try:
            convert()
            exc = None
        except Exception as e:
            exc = e
        except SystemExit as e:
            env.fail("exit", f"the conversion ended the program: {e!r}")
    for e in pool.PLAN.events:
        env.note("pool", e[0], e[1], lib.sha(str(e[2:]).encode()))
    env.note(scn["mode"], type(exc).__name__)
    env.check(not seam.budget_hit, "no-progress", "the conversion did not end")
    now = lib.tree(root)
    d = lib.tree_diff(before, {k: v for k, v in now.items() if k in before}, ["packed.fits"])
    env.check(not d, "changed-files", lambda: f"input files changed: {d}")
    must_fail = scn["mode"] == "length" or scn["mode"] == "worker" and pool.PLAN.fired or scn["mode"] == "read" and seam.fired
    env.ops[scn["mode"]] += 1
    if must_fail:
        why = {"length": f"the file has {len(arrs[0])} bytes", "worker": f"a worker failed ({dict(pool.PLAN.fired)})", "read": "the file could not be read"}[scn["mode"]]
        env.check(exc is not None, "failure-hidden", lambda: f"{why}, but the conversion returned normally")
        env.check(now.get("packed.fits") == before.get("packed.fits"), "output-touched", lambda: f"{why}, and the output file was changed")
        if scn["mode"] != "worker":
            return
        env.faults.update(pool.PLAN.fired)
        pool.PLAN.reset(scn["pool"] + 1, scn["order"], (), True)
        convert()
    elif exc is not None:
        raise exc
    got, _ = lib.read_fits(target)
    want = sum(decode(a) / len(arrs) for a in arrs)
    env.check(lib.close(got, want, 1e-12, 1e-9), "wrong-values", lambda: lib.diff(got, want))

"""C07: a calibration folder is read back as one complete calibration or refused."""
import os

import numpy as np

from .. import attempt, calib, lib
from ..lib import Seam

RUNS = {"quick": 560, "thorough": 14000}
WARM = {"demosaic": [], "ifov": [], "shift": []}
LISTS = ["faults", "drop", "dup"]
RULE = ("seeded scenario: a folder with no, a complete or an older calibration (same or other size, with or without flags) is recalibrated 1-3 times, each "
        "under a fault placed by a dry run (kill at any file operation or inside a write, error, full disk, allocation, interrupt), then read under a "
        "seeded directory order; or a folder with missing, duplicated, torn or misshapen matrices is read; non-trivial = the folder was read and judged")
ASSUMPTIONS = ["crash = process kill: completed file operations survive (the code never syncs)", "the folder is not read while a calibration writes it"]


def gen(rng, tier, i):
    scn = {"memmap": rng.random() < 0.5, "dirseed": rng.getrandbits(30), "pool": calib.gen_pool(rng)}
    if rng.random() < 0.3:
        scn["mode"] = "folder"
        scn.update(h=rng.randrange(2, 7), w=rng.randrange(1, 7), seed=rng.getrandbits(30), flags=rng.random() < 0.7, cov=rng.random() < 0.8)
        r = rng.random()
        scn["drop"] = scn["dup"] = scn["cdrop"] = []
        scn["tear"] = None
        if r < 0.3:
            scn["drop"] = [[k // 4, k % 4] for k in sorted(rng.sample(range(12), rng.choice([1, 1, 1, 2, 5])))]
        elif r < 0.5:
            scn["dup"] = [[rng.randrange(3), rng.randrange(4)] for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < 0.6:
                scn["drop"] = [[rng.randrange(3), rng.randrange(4)] for _ in scn["dup"]]
        elif r < 0.65:
            scn["cdrop"] = [[k // 3, k % 3] for k in sorted(rng.sample(range(9), rng.choice([1, 1, 2])))]
        elif r < 0.85:
            scn["tear"] = [rng.randrange(3), rng.randrange(4), rng.choice(["cut", "cut", "shape", "empty", "garbage"]), round(rng.random(), 3)]
        scn["extra"] = rng.random() < 0.5
        return scn
    scn["mode"] = "publish"
    scn["old"] = rng.choice(["none", "full", "full", "noflags", "size"])
    scn["c"] = [calib.gen(rng, small=True) for _ in range(2)]
    scn["grid"] = rng.random()
    scn["faults"] = [attempt.gen_fault(rng, ["io", "io", "io", "io", "space", "alloc", "interrupt"]) for _ in range(rng.choice([1, 1, 2, 3]))]
    for f in scn["faults"]:
        if f["mode"] == "io" and rng.random() < 0.6:  # most kills and errors inside the writing
            for p in f["plans"]:
                if p["kinds"] in (["openr"], ["read"], ["mkdir"]):
                    p.update(kinds=["openw", "write", "unlink", "close"], action="crash")
                    p.pop("err", None)
    return scn


def shrink(scn):
    if scn["mode"] == "publish":
        for k in range(2):
            c = scn["c"][k]
            for key, v in (("dark", None), ("flat", False), ("occ", None), ("S", "num")):
                if c[key] != v:
                    cs = list(scn["c"])
                    cs[k] = dict(c, **{key: v})
                    yield dict(scn, c=cs)
        if scn["old"] != "none":
            yield dict(scn, old="none")


def full_set(folder, h, w, seed, flags=True, cov=True):
    """A complete calibration written by the simulator; what must be read back."""
    g = np.random.Generator(np.random.PCG64(seed))
    mij = g.normal(0, 1, (3, 4, h, w))
    fl = (g.random((h, w)) < 0.8).astype(float) if flags else None
    lib.write_tensor(folder, mij, fl)
    out = {"mij": mij, "flags": fl, "Cij": None}
    for k, n in (("tk", "transmittancies"), ("eff", "efficiences"), ("phi", "phases")):
        out[k] = g.random((2 * h, 2 * w))
        lib.write_fits(os.path.join(folder, n + ".fits"), out[k])
    if cov:
        c = g.random((3, 3, 2 * h, 2 * w))
        os.makedirs(os.path.join(folder, "covariance_tensor"))
        for i in range(3):
            for j in range(3):
                lib.write_fits(os.path.join(folder, "covariance_tensor", f"C{i}{j}.fits"), c[i, j])
        lib.write_fits(os.path.join(folder, "covariance_tensor", "reduced_chisquare.fits"), g.random((2 * h, 2 * w)))
        out["Cij"] = c
    return out


def run(scn, env):
    from astropy.io import fits
    fits.conf.use_memmap = scn["memmap"]
    root = env.root
    if scn["mode"] == "folder":
        return folder(scn, env)
    cals = [calib.Calib(c, root, f"in{k}") for k, c in enumerate(scn["c"])]
    out = os.path.join(root, "out", "demo")
    good = {}
    if scn["old"] != "none":
        t = scn["c"][0]["truth"]
        h, w = t["h"] // scn["c"][0]["binning"] // 2, t["w"] // scn["c"][0]["binning"] // 2
        if scn["old"] == "size":
            h, w = h + 1, w + 1
        good["old"] = full_set(out, h, w, 7, scn["old"] != "noflags")
    grids = [calib.grids(c) for c in scn["c"]]
    calib.set_pool(scn["pool"], inproc=True)
    os.makedirs(out, exist_ok=True)
    others = [os.path.join(out, n) for n in ("notes.txt", "backup/M00.fits", "covariance_tensor_old/C00.fits", "M.fits.old", "transmittancies_old.fits")] + [out + "_old.fits"]
    for p in others:
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write("kept")
    names = {}
    for k, cal in enumerate(cals):
        ref = os.path.join(root, f"ref{k}")
        grid = names[k] = grids[k][int(scn["grid"] * len(grids[k]))]
        cal.run(ref, grid)
        st, v = calib.load(ref)
        env.check(st == "ok", "refused", lambda: f"a finished calibration is refused: {v}")
        good[f"calibration {k}"] = v
    current = "old" if scn["old"] != "none" else "none"
    for n, fault in enumerate(scn["faults"]):
        k = n % 2
        new = f"calibration {k}"
        res = attempt.under(env, lambda: cals[k].run(out, names[k]), root, fault, budget=20000, minsize=256)
        env.ops["recalibrate"] += 1
        with Seam(env, root, dirseed=scn["dirseed"] + n):
            st, got = calib.load(out)
        which = "refused"
        if st == "ok":
            which = next((nm for nm in (current, new) if nm in good and not calib.equal(good[nm], got)), "neither")
            if which == "neither":
                diff = {nm: calib.equal(good[nm], got) for nm in (current, new) if nm in good}
                env.fail("mixed", f"after a calibration that {res.text()}, the folder loads, but differs from each complete calibration in {diff}")
        env.note("state", which)
        env.probes["state_" + ("old" if which == current else "new" if which == new else which)] += 1
        env.checks += 1
        if res.done:
            env.check(which == new, "acknowledged-but-lost", lambda: f"the calibration returned normally, but the folder is {which} ({got if st == 'refused' else ''})")
        for p in others:
            env.check(os.path.exists(p) and open(p).read() == "kept", "bystander", lambda: f"another file ({os.path.relpath(p, root)}) changed")
        current = which if which != "refused" else "none"
    cals[0].run(out, names[0])
    with Seam(env, root, dirseed=scn["dirseed"] + 99):
        st, got = calib.load(out)
    env.check(st == "ok" and not calib.equal(good["calibration 0"], got), "retry",
              lambda: f"after a calibration without faults the folder is {'refused: ' + got if st != 'ok' else 'different in ' + str(calib.equal(good['calibration 0'], got))}")


def folder(scn, env):
    root = env.root
    d = os.path.join(root, "demo")
    want = full_set(d, scn["h"], scn["w"], scn["seed"], scn["flags"], scn["cov"])
    missing, extra, count = set(), 0, {(i, j): 1 for i in range(3) for j in range(4)}
    for i, j in scn["drop"]:
        p = os.path.join(d, f"M{i}{j}.fits")
        if os.path.exists(p):
            os.unlink(p)
            count[i, j] -= 1
        missing.add((i, j))
    for n, (i, j) in enumerate(scn["dup"]):
        lib.write_fits(os.path.join(d, f"M{i}{j}_copy_{'abcd'[n]}.fits"), np.zeros((scn["h"], scn["w"])))
        want["mij"][i, j] = 0
        count[i, j] += 1
        extra += 1
    for i, j in scn["cdrop"]:
        p = os.path.join(d, "covariance_tensor", f"C{i}{j}.fits")
        if os.path.exists(p):
            os.unlink(p)
    if scn["extra"]:
        for n in ("notes.txt", "transmittancies_old.fits", "readme.md"):
            lib.write_fits(os.path.join(d, n), np.ones((3, 3)))
    torn = False
    if scn["tear"]:
        i, j, how, cut = scn["tear"]
        count[i, j] = 0
        p = os.path.join(d, f"M{i}{j}.fits")
        data = 8 * scn["h"] * scn["w"]
        if how == "cut":
            os.truncate(p, int(cut * (2880 + data - 1)))
        elif how == "empty":
            os.truncate(p, 0)
        elif how == "garbage":
            with open(p, "wb") as f:
                f.write(b"?" * 5760)
        else:
            lib.write_fits(p, np.ones((scn["h"] + 2, scn["w"] + 2)))
        torn = True
    invalid = any(v != 1 for v in count.values())
    res = []
    for n in range(3):
        with Seam(env, root, dirseed=scn["dirseed"] + n):
            res.append(calib.load(d))
        env.note("load", res[-1][0])
    env.ops["load_" + ("invalid" if invalid else "covariance_incomplete" if scn["cdrop"] else "complete")] += 1
    for st, got in res:
        env.check((st == "refused") == invalid, "incomplete-accepted" if invalid else "refused",
                  lambda: f"a folder {'without ' + str(sorted(missing)) if missing else ''} {'with ' + str(scn['dup']) + ' twice' if extra else ''} {'with a matrix that is ' + str(scn['tear']) if torn else ''} was {st}: {got if st == 'refused' else ''}")
        if st == "ok":
            w = dict(want)
            if scn["cdrop"] and scn["cov"]:
                env.check(isinstance(got["Cij"], tuple), "incomplete-accepted", lambda: f"an incomplete covariance tensor (without {scn['cdrop']}) was accepted")
                w["Cij"] = got["Cij"]
            bad = calib.equal(w, got, 0, 0)
            env.check(not bad, "wrong-values", lambda: f"a complete folder read under directory order {scn['dirseed']} gives other {bad}")

"""C06: a calibration does not depend on how its work is divided, matches the
instrument it was made with, and publishes nothing when it fails."""
import os
import random

import numpy as np

from .. import calib, lib, pool
from ..lib import Seam

RUNS = {"quick": 560, "thorough": 12000}
WARM = {"demosaic": [], "ifov": [], "shift": []}
LISTS = []
RULE = ("seeded scenario: a synthetic instrument (throughput, efficiency, phase per pixel), optionally dark, flat, occulter, binning and an image-valued "
        "normalization, calibrated on two process grids with seeded worker schedules, file orders and directory orders, and compared with each other and "
        "with the instrument; or a worker failure, no worker processes, an unreadable or unfit input, an incomplete or undividable request over an "
        "existing calibration; non-trivial = the published folder was compared")
ASSUMPTIONS = ["signals without noise, or with a noise of 1e-4 of the signal; fitted values are compared with the instrument to 2e-3, covariances (Poisson signal, given gain) to 1e-2 standard deviations", "a worker killed by the system is not modelled"]
STUB = "process pool (simulated scheduling, real worker code and pickling), libc file calls (simio.so), wall clock"


def gen(rng, tier, i):
    c = calib.gen_auto(rng) if rng.random() < 0.04 else calib.gen(rng)
    gs = calib.grids(c)
    scn = {"c": c, "grid": rng.choice(gs), "grid2": rng.choice(gs), "pool": calib.gen_pool(rng), "pool2": calib.gen_pool(rng),
           "perm": rng.getrandbits(30), "memmap": rng.random() < 0.5, "dirseed": rng.getrandbits(30), "old": rng.random() < 0.6}
    r = rng.random()
    if r < 0.55 or c["S"] == "auto":
        scn["mode"] = "agree"
    elif r < 0.75:
        scn["mode"] = "worker"
        big = [g for g in gs if g != [1, 1]]
        if not big:
            scn["c"] = c = calib.gen(random.Random(1), binning=False)
            big = [g for g in calib.grids(c) if g != [1, 1]]
        scn["grid"] = rng.choice(big)
        scn["fault"] = {"kind": rng.choice(["raise", "raise", "raise", "encode", "spawn"]), "item": rng.randrange(64), "late": rng.random() < 0.5,
                        "exc": rng.choice(["MemoryError", "OSError", "RuntimeError", "ValueError"])}
    else:
        scn["mode"] = "input"
        scn["bad"] = rng.choice(["missing", "truncated", "shape", "dark-missing", "flat-missing", "pols", "grid-odd", "grid-rest", "eio", "count"])
        scn["which"] = rng.randrange(20)
        scn["cut"] = round(rng.random(), 3)
    return scn


def shrink(scn):
    c = scn["c"]
    for k, v in (("dark", None), ("flat", False), ("occ", None), ("S", "num")):
        if c[k] != v and c["S"] != "auto":
            yield dict(scn, c=dict(c, **{k: v}))
    if scn["grid"] != [1, 1] and scn["mode"] == "agree":
        yield dict(scn, grid=[1, 1])


def scale(env, cal, got, what):
    """Throughput is relative to the signal of unpolarized light, which may have been estimated (documented: the upper end of its distribution)."""
    if cal.c["S"] != "auto":
        return 1.0
    t = cal.expected()[0]
    free = np.kron(cal.occulted()[1], np.ones((2, 2), bool))
    env.check(isinstance(got["tk"], np.ndarray) and got["tk"].shape == t.shape and bool(free.any()), "wrong-values", f"{what}: no usable throughput")
    k = float(np.median((got["tk"] / t)[free]))
    env.check(1.30 < k < 1.34, "wrong-values", lambda: f"{what}: the estimated normalization is off, throughputs are {k:.4f} times those of the instrument")
    return k


def judge_truth(env, cal, got, what, folder):
    t, e, p, mij = cal.expected()
    occ, free = cal.occulted()
    theo = cal.t.theo()
    flags = got["flags"]
    k = scale(env, cal, got, what)
    t, mij = t * k, mij / k
    env.check(flags is not None and flags.shape == mij.shape[2:], "flags", f"{what}: no usable fit flags")
    if got["mij"].shape != mij.shape:
        env.fail("wrong-values", f"{what}: tensor shape {got['mij'].shape}, not {mij.shape}")
    for y in range(mij.shape[2]):
        for x in range(mij.shape[3]):
            good = lib.close(got["mij"][:, :, y, x], mij[:, :, y, x], 5e-3, 5e-3)
            isth = lib.close(got["mij"][:, :, y, x], theo, 1e-9, 1e-9)
            f = flags[y, x]
            env.checks += 1
            if free[y, x] and not (f == 1 and good):
                env.fail("wrong-values", f"{what}: superpixel {y},{x} (not occulted): flag {f}, largest error of the matrix {np.abs(got['mij'][:, :, y, x] - mij[:, :, y, x]).max():.3g}")
            if occ[y, x] and not (f == 0 and isth):
                env.fail("wrong-values", f"{what}: superpixel {y},{x} (occulted): flag {f}, theoretical matrix: {isth}")
            if not (f == 1 and good or f == 0 and isth):
                env.fail("wrong-values", f"{what}: superpixel {y},{x}: flag {f} but the matrix is neither the instrument's nor the theoretical one")
    full = np.kron(free, np.ones((2, 2), bool))
    for k, ref, tol in (("tk", t, 2e-3), ("eff", e, 2e-3), ("phi", p, 0.1)):
        v = got[k]
        if cal.c["S"] == "auto":
            tol *= 4  # the estimate may be just below the throughput of a few pixels, which is bounded by 1
        env.check(isinstance(v, np.ndarray) and v.shape == ref.shape and bool((np.abs(v - ref)[full] < tol).all()), "wrong-values",
                  lambda: f"{what}: {k} does not match the instrument (by {np.abs(v - ref)[full].max():.3g})")
    C = got["Cij"]
    env.check(isinstance(C, np.ndarray) and C.shape == (3, 3) + t.shape and bool(np.isfinite(C).all()), "wrong-values", f"{what}: no usable covariance tensor")
    chi = lib.read_fits(os.path.join(folder, "covariance_tensor", "reduced_chisquare.fits"))[0]
    env.check(chi is not None and chi.shape == t.shape, "wrong-values", f"{what}: no usable chi square")
    if cal.c["S"] != "auto":
        cov, ref = cal.uncertainty(got["tk"], got["eff"], got["phi"])
        sd = np.sqrt(np.einsum("iiyx->iyx", cov))
        off = (np.abs(C - cov) / (sd[:, None] * sd[None]))[:, :, full].max(initial=0)
        env.check(bool(off < 1e-2), "wrong-uncertainty", lambda: f"{what}: the covariance of the fit is off by {off:.3g} standard deviations")
        off = np.abs(chi - ref)[full] / (ref[full] + 1e-9)
        env.check(bool((off < 1e-3).all()), "wrong-uncertainty", lambda: f"{what}: the reduced chi square is off by {off.max(initial=0):.3g} times its value")


def run(scn, env):
    from astropy.io import fits
    fits.conf.use_memmap = scn["memmap"]
    root, c = env.root, scn["c"]
    cal = calib.Calib(c, root)
    inputs = lib.tree(cal.folder)
    out = os.path.join(root, "out", "demo")
    n = len(cal.pols)
    if scn["mode"] == "agree":
        res = []
        order = list(range(n))
        random.Random(scn["perm"]).shuffle(order)
        for k, (grid, pl, o) in enumerate(((scn["grid"], scn["pool"], None), (scn["grid2"], scn["pool2"], order))):
            calib.set_pool(pl)
            dest = out + str(k)
            with Seam(env, root, dirseed=scn["dirseed"] + k, budget=60000) as seam:
                cal.run(dest, grid, o)
                st, got = calib.load(dest)
            env.note("calibration", grid, [lib.sha(str(e[2:]).encode()) for e in pool.PLAN.events], o)
            env.check(not seam.budget_hit, "no-progress", "the calibration did not end")
            env.check(st == "ok", "refused", lambda: f"the finished calibration (grid {grid}) is refused: {got}")
            now = {q: str(v) for q, v in cal.kw.items()}
            env.check(now == cal.kw_before, "arguments-changed", lambda: f"the calibration changed its arguments: {[q for q in now if now[q] != cal.kw_before[q]]}")
            judge_truth(env, cal, got, f"grid {grid}, file order {o or 'given'}", dest)
            res.append(got)
            env.ops[f"grid_{grid[0]}x{grid[1]}"] += 1
        bad = calib.equal(res[0], res[1])
        env.check(not bad, "depends-on-division", lambda: f"grid {scn['grid']} and {scn['grid2']} (file order {order}) give different {bad}")
        env.check(lib.tree(cal.folder) == inputs, "inputs-changed", "the calibration changed its input files")
        # use it: demodulating a synthetic observation gives back its Stokes parameters
        m = lib.ml()
        t, e, p, _ = cal.expected()
        g = np.random.Generator(np.random.PCG64(c["seed"] + 1))
        hs, ws = t.shape[0] // 2, t.shape[1] // 2
        I = g.uniform(100, 1000, (hs, ws))
        pd, a = g.uniform(0, 1, (hs, ws)), g.uniform(-1.5, 1.5, (hs, ws))
        Q, U = I * pd * np.cos(2 * a), I * pd * np.sin(2 * a)
        up = lambda z: np.kron(z, np.ones((2, 2)))
        data = 0.5 * t * (up(I) + e * (up(Q) * np.cos(2 * np.deg2rad(p)) + up(U) * np.sin(2 * np.deg2rad(p))))
        dic = {a: k for k, a in enumerate(cal.t.phases)}
        data *= scale(env, cal, res[0], "first grid")
        demod = m.MicropolImage(data, angle_dic=dic).demodulate(m.Demodulator(out + "0"))
        _, free = cal.occulted()
        for nm, got, ref in zip("IQU", demod.Stokes_vec, (I, Q, U)):
            env.check(np.shape(got) == ref.shape and bool((np.abs(np.asarray(got) - ref)[free] < 0.02 * 1000).all()), "demodulation",
                      lambda: f"{nm} of a demodulated synthetic observation is off by {np.abs(np.asarray(got) - ref)[free].max():.3g}")
        return

    # ------------------------------------------------- failures publish nothing
    if scn["old"]:
        g = np.random.Generator(np.random.PCG64(scn["perm"]))
        lib.write_tensor(out, g.normal(0, 1, (3, 4, 4, 4)), np.ones((4, 4)))
    kw, seam_kw, grid, order = {}, {"budget": 60000}, scn["grid"], None
    calib.set_pool(scn["pool"], [scn["fault"]] if scn["mode"] == "worker" else [])
    why = scn["mode"]
    if scn["mode"] == "worker":
        why = f"worker fault {scn['fault']}"
    else:
        bad, k = scn["bad"], scn["which"] % n
        why = f"{bad} input"
        if bad == "missing":
            os.unlink(cal.files[k])
        elif bad == "truncated":
            size = 2880 + cal.t.h * cal.t.w * 8
            os.truncate(cal.files[k], int(scn["cut"] * (size - 1)))
        elif bad == "shape":
            # dimensions that differ whatever the binning
            lib.write_fits(cal.files[k], np.ones((cal.t.h + 4 * c["binning"], cal.t.w)))
        elif bad == "dark-missing":
            kw["dark_filename"] = os.path.join(root, "no dark.fits")
        elif bad == "flat-missing":
            kw["flat_filename"] = os.path.join(root, "no flat.fits")
        elif bad == "pols":
            kw["normalizing_S"] = None
            sel = [p for p in cal.pols if p not in (0, 45)]
            order = [cal.pols.index(p) for p in sel]
        elif bad == "grid-odd":
            grid = [cal.t.h // c["binning"], 1]
        elif bad == "grid-rest":
            hs = cal.t.h // c["binning"] // 2
            grid = [next(g for g in range(2, 50) if (2 * hs) % g), 1]
        elif bad == "eio":
            seam_kw["plans"] = [{"kinds": [random.Random(scn["perm"]).choice(["openr", "read"])], "nth": 1 + scn["which"], "action": "err", "err": "EIO"}]
        elif bad == "count":
            kw["micropol_phases_previsions"] = [0, 45]
    before = lib.tree(root)
    with Seam(env, root, **seam_kw) as seam:
        try:
            cal.run(out, grid, order, **kw)
            exc = None
        except (Exception, SystemExit) as e:
            exc = e
    env.ops["bad_" + (scn["fault"]["kind"] if scn["mode"] == "worker" else scn["bad"])] += 1
    env.note(why, type(exc).__name__)
    if scn["mode"] == "input" and scn["bad"] == "eio" and not seam.fired:
        return
    if scn["mode"] == "worker" and not pool.PLAN.fired:
        return
    if exc is None and scn["mode"] == "input" and scn["bad"] == "eio":
        st, got = calib.load(out)  # an error on a read that was not needed
        env.check(st == "ok", "failure-hidden", lambda: f"{why}: the calibration returned normally, and is refused: {got}")
        return judge_truth(env, cal, got, why, out)
    env.check(exc is not None, "failure-hidden", lambda: f"{why}: the calibration returned normally")
    env.check(not (isinstance(exc, SystemExit) and not exc.code), "failure-hidden", lambda: f"{why}: the calibration ended the program with a success status")
    d = lib.tree_diff(before, {k: v for k, v in lib.tree(root).items() if v != "dir" or k in before})
    env.check(not d, "published", lambda: f"{why}: the failed calibration changed files: {d}")

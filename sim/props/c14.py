"""C14: fits that fail are contained: flagged, replaced by the theoretical matrix, used so."""
import os
import random

import numpy as np

from .. import calib, faults, lib, ops, pool
from ..lib import Seam

RUNS = {"quick": 420, "thorough": 12000}
WARM = {"demosaic": ["<f8"], "ifov": [], "shift": []}
LISTS = ["bad"]
RULE = ("seeded calibration (dark, flat, occulter, binning, image-valued normalization, process grid, worker schedule) of a synthetic instrument with 1-5 superpixels "
        "that cannot be fitted: a pixel dead in every image, not-a-number or infinite in one image, four pixels that hardly see polarization (huge matrix), a pixel of constant signal (judged against the bounded least-squares problem), or a solver "
        "that raises for the signal of that pixel; the "
        "published folder is compared superpixel by superpixel with a calibration without faults and with the instrument, then used; or the solver runs out of "
        "memory or is interrupted; non-trivial = at least one faulty superpixel was judged")
ASSUMPTIONS = ["signals without noise, or with a noise of 1e-4 of the signal", "the exceptions of a failed fit are RuntimeError, ValueError and LinAlgError"]
STUB = "scipy.optimize.curve_fit raises for drawn signals (otherwise real), process pool, libc file calls (simio.so)"

KINDS = ["weak", "weak", "dead", "dead", "nan", "inf", "RuntimeError", "RuntimeError", "ValueError", "LinAlgError", "constant"]

INPUT = ("weak", "dead", "nan", "inf", "constant")


def gen(rng, tier, i):
    c = calib.gen(rng)
    hs, ws = c["truth"]["h"] // c["binning"] // 2, c["truth"]["w"] // c["binning"] // 2
    sps = [[y, x] for y in range(hs) for x in range(ws)]
    rng.shuffle(sps)
    bad = [{"at": p, "pixel": rng.randrange(4), "kind": rng.choice(KINDS), "file": rng.randrange(16)} for p in sps[:rng.randrange(1, min(5, len(sps)) + 1)]]
    if any(b["kind"] == "weak" for b in bad):
        c["loose"] = True
    scn = {"c": c, "grid": rng.choice(calib.grids(c)), "pool": dict(calib.gen_pool(rng), inproc=True), "bad": bad, "memmap": rng.random() < 0.5,
           "dirseed": rng.getrandbits(30), "seed": rng.getrandbits(30), "turns": [ops.gen_op(rng, ops.TURN) for _ in range(rng.choice([0, 0, 0, 1, 2]))]}
    if rng.random() < 0.25:
        scn["fatal"] = {"kind": rng.choice(["MemoryError", "MemoryError", "KeyboardInterrupt"]), "at": rng.choice(sps), "pixel": rng.randrange(4), "old": rng.random() < 0.7}
    return scn


def shrink(scn):
    c = scn["c"]
    for k, v in (("dark", None), ("flat", False), ("occ", None), ("S", "num")):
        if c[k] != v:
            yield dict(scn, c=dict(c, **{k: v}))
    if scn["turns"]:
        yield dict(scn, turns=[])
    if scn["grid"] != [1, 1]:
        yield dict(scn, grid=[1, 1])


def select(cal, wanted):
    """SELECT for faults: raise for the signals of the wanted pixels {(y, x): exception name}."""
    t, e, p, _ = cal.expected()
    sigs = {yx: (t[yx], e[yx], p[yx]) for yx in wanted}

    def fn(xdata, ydata):
        x = np.rad2deg(np.asarray(xdata, float))
        y = np.asarray(ydata, float)
        for yx, (a, b, c) in sigs.items():
            ref = lib.malus(x, a, b, c)
            if y.shape == ref.shape and np.allclose(y, ref, rtol=1e-7, atol=1.5e-3 if cal.c.get("noise") else 1e-9):
                return {"RuntimeError": RuntimeError("Optimal parameters not found"), "ValueError": ValueError("Residuals are not finite in the initial point."),
                        "LinAlgError": np.linalg.LinAlgError("SVD did not converge"), "MemoryError": MemoryError("injected"),
                        "KeyboardInterrupt": KeyboardInterrupt("injected")}[wanted[yx]]
        return None
    return fn


def corrupt(cal, b):
    """Write a dead / NaN / infinite pixel, or an unpolarized superpixel, into the input files."""
    c, n = cal.c, cal.c["binning"]
    (sy, sx), k = b["at"], b["pixel"]
    rows = range(2 * n * sy + k // 2, 2 * n * (sy + 1), 2)
    cols = range(2 * n * sx + k % 2, 2 * n * (sx + 1), 2)
    dark = lib.read_fits(cal.dark_file)[0] if cal.dark_file else None
    for j, f in enumerate(cal.files):
        a = np.array(lib.read_fits(f)[0], float)
        if b["kind"] == "weak":  # fits, but every entry of its matrix is large
            s = (slice(2 * n * sy, 2 * n * (sy + 1)), slice(2 * n * sx, 2 * n * (sx + 1)))
            v = cal.S[j][s] * lib.malus(cal.pols[j], cal.t.t[s], 0.003, cal.t.phi[s]) * cal.Fn[s]
            a[s] = v if dark is None else v + dark[s]
        elif b["kind"] == "constant":  # saturated: the same signal at every orientation
            for y in rows:
                for x in cols:
                    a[y, x] = 0.3 * cal.S[j][y, x] * cal.Fn[y, x] + (0.0 if dark is None else dark[y, x])
        elif b["kind"] == "dead":
            for y in rows:
                for x in cols:
                    a[y, x] = 0.0 if dark is None else dark[y, x]
        elif j == b["file"] % len(cal.files):
            a[rows[0], cols[0]] = np.nan if b["kind"] == "nan" else np.inf
        lib.write_fits(f, a)


def constant(env, cal, b, got, ref, y, x, theo):
    """A superpixel with a pixel of constant signal: nothing of it comes from elsewhere."""
    c, (py, px) = cal.c, (2 * y + b["pixel"] // 2, 2 * x + b["pixel"] % 2)
    what = f"superpixel {y},{x} ({b})"
    if got["flags"][y, x] != 1:
        env.check(lib.close(got["mij"][:, :, y, x], theo, 1e-9, 1e-9), "not-contained", lambda: f"{what} is flagged, but does not have the theoretical matrix")
        return
    s = (slice(2 * y, 2 * y + 2), slice(2 * x, 2 * x + 2))
    t, e, p = [got[k][s].ravel() for k in ("tk", "eff", "phi")]
    M = np.array([0.5 * t, 0.5 * t * e * np.cos(2 * np.deg2rad(p)), 0.5 * t * e * np.sin(2 * np.deg2rad(p))]).T
    env.check(lib.close(got["mij"][:, :, y, x], np.linalg.pinv(M), 1e-6, 1e-6), "wrong-values", lambda: f"{what}: the matrix is not that of its parameters")
    for k in ("tk", "eff", "phi"):
        for q in range(4):
            yx = (2 * y + q // 2, 2 * x + q % 2)
            env.check(q == b["pixel"] or ref["flags"][y, x] != 1 or lib.close(got[k][yx], ref[k][yx], 1e-9, 1e-9), "not-contained", lambda: f"{what}: {k} of pixel {q} differs")
    S = np.array([cal.binned(v)[py, px] for v in cal.S])
    sig = np.array([cal.binned(np.array(lib.read_fits(f)[0], float) - cal.dark)[py, px] for f in cal.files]) / cal.binned(cal.Fn)[py, px] * c["binning"] ** 2 / S
    lo, hi = (0.0, 1.0) if c.get("loose") else (0.2, 1.0) if c.get("bounds") else (0.1, 1.0)
    a, w = np.array(cal.pols, float), S / sig

    def cost(t, e, p):
        f = 0.5 * (1 + e * np.cos(2 * np.deg2rad(p - a)))
        if t is None:
            t = np.clip((w * f * sig).sum() / (w * f * f).sum(), 0.1, 1.0)
        return float((w * (t * f - sig) ** 2).sum())
    worst = max(min(cost(None, e, p) for e in np.linspace(lo, hi, 37)) for p in cal.t.phases[b["pixel"]] + np.linspace(-15, 15, 31))
    k = b["pixel"]
    mine = cost(t[k], e[k], p[k])
    env.check(mine <= 1.05 * worst + 1e-4 * float((w * sig ** 2).sum()), "wrong-values",
              lambda: f"{what} is flagged as fitted, but t={t[k]} eff={e[k]} phi={p[k]} does not fit its signal {sig} (residual {mine}, should be at most {worst})")


def run(scn, env):
    from astropy.io import fits
    fits.conf.use_memmap = scn["memmap"]
    m, root, c = lib.ml(), env.root, scn["c"]
    cal = calib.Calib(c, root)
    t, e, p, mij = cal.expected()
    hs, ws = mij.shape[2:]
    bad = [b for b in scn["bad"] if b["at"][0] < hs and b["at"][1] < ws]
    pix = lambda b: (2 * b["at"][0] + b["pixel"] // 2, 2 * b["at"][1] + b["pixel"] % 2)
    occ, free = cal.occulted()
    out = os.path.join(root, "out")

    if "fatal" in scn:
        f = scn["fatal"]
        if f["old"]:
            lib.write_tensor(out, np.random.Generator(np.random.PCG64(scn["seed"])).normal(0, 1, (3, 4, 4, 4)), np.ones((4, 4)))
        if not (f["at"][0] < hs and f["at"][1] < ws):
            return
        faults.SELECT = select(cal, {pix(f): f["kind"]})
        calib.set_pool(scn["pool"])
        before = lib.tree(root)
        exc = None
        try:
            cal.run(out, scn["grid"])
        except BaseException as x:
            exc = x
        faults.SELECT = None
        env.ops["fatal_" + f["kind"]] += 1
        env.note("fatal", f["kind"], type(exc).__name__)
        if not faults.FIRED:
            return
        env.check(exc is not None, "failure-hidden", lambda: f"a fit raised {f['kind']}, but the calibration returned normally")
        d = lib.tree_diff(before, {k: v for k, v in lib.tree(root).items() if v != "dir" or k in before})
        env.check(not d, "published", lambda: f"a fit raised {f['kind']}; the calibration raised {type(exc).__name__} but changed files: {d}")
        calib.set_pool(scn["pool"])
        cal.run(out, scn["grid"])
        st, got = calib.load(out)
        env.check(st == "ok", "refused", lambda: f"the repeated calibration is refused: {got}")
        return
    # reference without faults
    calib.set_pool(scn["pool"])
    cal.run(out + "0", scn["grid"])
    st, ref = calib.load(out + "0")
    env.check(st == "ok", "refused", lambda: f"the calibration without faults is refused: {ref}")
    faults.SELECT = select(cal, {pix(b): b["kind"] for b in bad if b["kind"] not in INPUT})
    for b in bad:
        if b["kind"] in INPUT:
            corrupt(cal, b)
            env.faults["pixel_" + b["kind"]] += 1
    calib.set_pool(scn["pool"])
    with Seam(env, root, dirseed=scn["dirseed"], budget=60000):
        cal.run(out, scn["grid"])
    faults.SELECT = None
    st, got = calib.load(out)
    env.check(st == "ok", "refused", lambda: f"the calibration with faulty superpixels {bad} is refused: {got}")
    theo = cal.t.theo()
    broken = {tuple(b["at"]): b for b in bad}
    env.note(scn["grid"], sorted(broken))
    flags = got["flags"]
    env.check(flags is not None and flags.shape == (hs, ws), "flags", "no usable fit flags")
    for k in ("mij", "flags", "tk", "eff", "phi", "Cij"):
        v = got[k]
        env.check(isinstance(v, np.ndarray) and bool(np.isfinite(v).all()), "not-finite", lambda: f"{k} was published with values that are not finite (faulty superpixels {bad})")
    for y in range(hs):
        for x in range(ws):
            b = broken.get((y, x))
            s = (slice(2 * y, 2 * y + 2), slice(2 * x, 2 * x + 2))
            if b and b["kind"] == "constant":
                env.ops["superpixel_constant"] += 1
                constant(env, cal, b, got, ref, y, x, theo)
            elif b:
                env.ops["superpixel_" + b["kind"]] += 1
                env.check(flags[y, x] == 0, "not-flagged", lambda: f"superpixel {y},{x} ({b}) is flagged as fitted")
                env.check(lib.close(got["mij"][:, :, y, x], theo, 1e-9, 1e-9), "not-contained", lambda: f"superpixel {y},{x} ({b}) does not have the theoretical matrix")
                env.check(bool((np.abs(got["phi"][s].ravel() - np.array(cal.t.phases)) < 15.1).all()), "not-contained", lambda: f"superpixel {y},{x} ({b}): phases {got['phi'][s]}")
            else:
                env.check(flags[y, x] == ref["flags"][y, x] and lib.close(got["mij"][:, :, y, x], ref["mij"][:, :, y, x], 1e-9, 1e-9), "not-contained",
                          lambda: f"superpixel {y},{x} is not faulty, but differs from a calibration without faults (faulty: {bad})")
                for k in ("tk", "eff", "phi"):
                    env.check(lib.close(got[k][s], ref[k][s], 1e-9, 1e-9), "not-contained", lambda: f"{k} of superpixel {y},{x} differs from a calibration without faults (faulty: {bad})")
                env.check(lib.close(got["Cij"][:, :, s[0], s[1]], ref["Cij"][:, :, s[0], s[1]], 1e-7, 1e-12), "not-contained", lambda: f"covariance of superpixel {y},{x} differs")
                if free[y, x]:
                    env.check(flags[y, x] == 1 and lib.close(got["mij"][:, :, y, x], mij[:, :, y, x], 5e-3, 5e-3), "wrong-values", lambda: f"superpixel {y},{x} does not match the instrument")
    # use it; and a copy whose flagged matrices are no theoretical ones
    g = np.random.Generator(np.random.PCG64(scn["seed"]))
    turns = scn["turns"]
    dic = {a: k for k, a in enumerate(cal.t.phases)}
    other = np.where(flags == 1, got["mij"], g.normal(0, 1, got["mij"].shape))
    lib.write_tensor(out + "1", other, flags)
    for folder, mats in ((out, got["mij"]), (out + "1", other)):
        demod = m.Demodulator(folder)
        flags = got["flags"]
        for op in turns:  # the camera may be mounted turned
            demod.rot90(op["by"]) if op["rot"] else demod.flip(op["by"] % 2)
            mats, flags = ops.turned(op, mats), ops.turned(op, flags)
        hs, ws = flags.shape
        data = g.uniform(10, 1000, (2 * hs, 2 * ws))
        pols = np.array([data[k // 2::2, k % 2::2] for k in range(4)])
        img = m.MicropolImage(data, angle_dic=dic)
        at = {a: pols[k] for a, k in dic.items()}
        th = [0.5 * (at[0] + at[45] + at[-45] + at[90]), at[0] - at[90], at[45] - at[-45]]
        fitted = np.einsum("ijyx,jyx->iyx", mats, pols)
        for rep in range(2):
            S = img.demodulate(demod).Stokes_vec
            for n, nm in enumerate("IQU"):
                want = np.where(flags == 1, fitted[n], th[n])
                env.check(lib.close(S[n], want, 1e-9, 1e-7), "demodulation", lambda: f"{nm} of a demodulated image is wrong at flagged or fitted superpixels: {lib.diff(S[n], want)}")
            env.check(lib.close(img.Stokes_vec[1], th[1], 1e-9, 1e-7), "demodulation", "demodulating changed the image it was called on")
        if hs >= 2 and ws >= 2:
            D = m.MicropolImage(data, angle_dic=dic).demosaic("adjacent").demosaiced_images
            at = {a: np.asarray(D[k]) for a, k in dic.items()}
            th = [0.5 * (at[0] + at[45] + at[-45] + at[90]), at[0] - at[90], at[45] - at[-45]]
            fitted = np.einsum("ijyx,jyx->iyx", np.kron(mats, np.ones((2, 2))), np.asarray(D))
            S = img.demodulate(demod, demosaicing=True).Stokes_vec
            for n, nm in enumerate("IQU"):
                want = np.where(np.kron(flags, np.ones((2, 2))) == 1, fitted[n], th[n])
                env.check(lib.close(S[n], want, 1e-9, 1e-7), "demodulation", lambda: f"{nm} of a demosaiced demodulated image is wrong at flagged or fitted superpixels: {lib.diff(S[n], want)}")

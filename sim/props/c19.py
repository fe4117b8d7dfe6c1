"""C19: a Chen-Wan-Liang calibration is right, published whole, and applied right."""
import os
import random

import numpy as np

from .. import attempt, lib
from ..lib import Seam

RUNS = {"quick": 560, "thorough": 16000}
WARM = {"demosaic": [], "ifov": ["<f8"], "shift": [], "chen": True}
LISTS = ["faults", "drop", "names"]
RULE = ("seeded scenario: 4-7 polarized images of a few superpixels (any numeric type), with or without dark, flat and occulter, are calibrated in two file orders "
        "under seeded directory orders and compared with a reference model, then applied to images of any numeric type; or an existing calibration is redone 1-3 "
        "times, each under a fault placed by a dry run, and applied after each; or an input is unfit, or a published file missing or torn; non-trivial = a "
        "calibration was compared, or a folder applied or refused")
ASSUMPTIONS = ["crash = process kill: completed file operations survive", "the folder is not read while a calibration writes it"]
STUB = "the position of the occulter in the camera description (moved into the small images), libc file calls (simio.so), wall clock"

PREV = [[0, 45, -45, 90], [90, 45, -45, 0], [-45, 0, 90, 45], [45, 90, 0, -45]]


def gen_c(rng, small=False):
    h, w = [2 * rng.randrange(1, 4 if small else 9) for _ in range(2)]
    pols = [0, 45, 90, -45] + rng.sample([-75, -60, 15, 30, 0, 90], rng.choice([0, 0, 1, 2, 3]))
    rng.shuffle(pols)
    c = {"h": h, "w": w, "pols": pols, "prev": rng.choice(PREV), "seed": rng.getrandbits(30), "kind": rng.choice(["model", "model", "rand", "sparse"]),
         "dtype": rng.choice(["<u2", "<u2", "<i2", "<i4", "<f8", "<f8", "<f4", "|u1"]), "dark": rng.choice([None, None, "<u2", "<f8", "<i4", "<i2"]),
         "flat": rng.choice([None, None, "<u2", "<f8", "<i4"]), "occ": None}
    if rng.random() < 0.4:
        c["h"], c["w"] = h, w = [2 * rng.randrange(6, 9 if small else 14) for _ in range(2)]
        c["occ"] = [rng.randrange(0, h), rng.randrange(0, w), rng.randrange(-9, 1)]
    return c


def gen(rng, tier, i):
    scn = {"memmap": rng.random() < 0.5, "dirseed": rng.getrandbits(30), "rel": rng.random() < 0.25}
    r = rng.random()
    if r < 0.5:
        scn.update(mode="value", c=[gen_c(rng)], perm=rng.getrandbits(30))
    elif r < 0.8:
        scn.update(mode="publish", c=[gen_c(rng, True), gen_c(rng, True)], old=rng.choice(["none", "full", "full", "size"]))
        scn["faults"] = [attempt.gen_fault(rng, ["io", "io", "io", "io", "space", "alloc", "interrupt"]) for _ in range(rng.choice([1, 1, 2, 3]))]
        for f in scn["faults"]:
            for p in f["plans"]:
                if p["kinds"] in (["openr"], ["read"], ["mkdir"]) and rng.random() < 0.7:
                    p.update(kinds=["openw", "write", "unlink", "close"], action="crash")
                    p.pop("err", None)
    elif r < 0.9:
        scn.update(mode="input", c=[gen_c(rng, True)], bad=rng.choice(["missing", "truncated", "shape", "dark-missing", "flat-missing", "count", "pols", "eio"]),
                   which=rng.randrange(20), cut=round(rng.random(), 3))
    else:
        scn.update(mode="folder", h=2 * rng.randrange(1, 5), w=2 * rng.randrange(1, 5), seed=rng.getrandbits(30),
                   drop=rng.sample(range(17), rng.choice([0, 1, 1, 2])), tear=rng.choice([None, None, rng.randrange(17)]), how=rng.choice(["cut", "empty", "garbage", "shape"]),
                   cut=round(rng.random(), 3))
    scn["data"] = [{"seed": rng.getrandbits(30), "dtype": rng.choice(lib.DTYPES), "kind": rng.choice(["rand", "grad", "sparse"])} for _ in range(2)]
    return scn


def shrink(scn):
    for k, c in enumerate(scn.get("c", [])):
        for key, v in (("dark", None), ("flat", None), ("occ", None)):
            if c[key] != v:
                cs = list(scn["c"])
                cs[k] = dict(c, **{key: v})
                yield dict(scn, c=cs)


def calculate():
    from micropolarray.processing import chen_wan_liang_calibration as cw
    return cw.calculate_chen_wan_lian_calibration


class Cal:
    def __init__(self, c, root, name):
        self.c, self.root = c, root
        self.folder = os.path.join(root, name)
        os.makedirs(self.folder)
        g = np.random.Generator(np.random.PCG64(c["seed"]))
        h, w, n = c["h"], c["w"], len(c["pols"])
        dt = np.dtype(c["dtype"])
        top = 200 if dt.itemsize == 1 else 4000
        phase = np.empty((h, w))
        for k in range(4):
            phase[k // 2::2, k % 2::2] = c["prev"][k]
        phase += g.uniform(-8, 8, (h, w))
        t, e = g.uniform(0.5, 0.95, (h, w)), g.uniform(0.5, 0.95, (h, w))
        self.files, self.raw, self.dark, self.flat = [], [], None, None
        names = g.permutation(n)
        for i, pol in enumerate(c["pols"]):
            if c["kind"] == "model":
                a = top * lib.malus(pol, t, e, phase) + g.uniform(0, 20, (h, w))
            else:
                a = g.uniform(0, top, (h, w))
                if c["kind"] == "sparse":
                    a = np.where(g.random((h, w)) < 0.3, 0, a)
            a = a.astype(dt)
            f = os.path.join(self.folder, f"{names[i]:02d}.fits")
            lib.write_fits(f, a)
            self.files.append(f)
            self.raw.append(a)
        self.dark_file = self.flat_file = None
        if c["dark"]:
            self.dark = g.uniform(0, top / 8, (h, w)).astype(c["dark"])
            self.dark_file = os.path.join(self.folder, "dark.fits")
            lib.write_fits(self.dark_file, self.dark)
        if c["flat"]:
            self.flat = g.uniform(top / 9, top, (h, w))
            if c["kind"] == "sparse":
                self.flat[g.random((h, w)) < 0.1] = 0
                self.flat[h // 2, w // 2] = top
            self.flat = self.flat.astype(c["flat"])
            self.flat_file = os.path.join(self.folder, "flat.fits")
            lib.write_fits(self.flat_file, self.flat)

    def run(self, out, order=None):
        c = self.c
        place_occulter(c["occ"])
        idx = list(order or range(len(self.files)))
        kw = dict(polarizer_orientations=[c["pols"][i] for i in idx], filenames_list=[self.files[i] for i in idx], micropol_phases_previsions=list(c["prev"]),
                  output_dir=out, occulter=bool(c["occ"]), dark_filename=self.dark_file, flat_filename=self.flat_file)
        before = {k: str(v) for k, v in kw.items()}
        try:
            calculate()(**kw)
        finally:
            self.changed = [k for k in kw if str(kw[k]) != before[k]]

    def occulted(self):
        """(surely occulted, surely free) pixels."""
        c = self.c
        yy, xx = np.mgrid[:c["h"], :c["w"]]
        if not c["occ"]:
            return np.zeros((c["h"], c["w"]), bool), np.ones((c["h"], c["w"]), bool)
        y, x, r = c["occ"]
        r += 10
        d = np.hypot(yy - y, xx - x)
        return d < r - 4, d > r + 5

    def reference(self, mask):
        """C (4,4,h/2,w/2) and d (h,w) with the given pixels occulted."""
        c = self.c
        h, w = c["h"], c["w"]
        A = np.array([a.astype(float) for a in self.raw])
        flat = None if self.flat is None else self.flat.astype(float)
        if self.dark is not None:
            dark = self.dark.astype(float)
            A = np.maximum(A - dark, 0)
            if flat is not None:
                flat = flat - dark
                flat[flat <= 0] = 1
                flat[mask] = 1
        if flat is not None:
            k = flat / flat.max()
            k[mask] = 1
            k[k == 0] = 1
            A = A / k
        P = A.reshape(-1, h // 2, 2, w // 2, 2).transpose(0, 1, 3, 2, 4).reshape(len(A), h // 2, w // 2, 4)
        pos = {p: i for i, p in enumerate(c["prev"])}
        i = {p: P[..., pos[p]] for p in pos}
        s = np.stack([i[0] + i[90], i[0] - i[90], i[45] - i[-45]], axis=-1)
        W = np.array([[0.5, 0.5 * np.cos(2 * np.deg2rad(p)), 0.5 * np.sin(2 * np.deg2rad(p))] for p in c["prev"]])
        S2 = (s ** 2).sum(-1) + 1
        d = P / S2[..., None]
        den = (s ** 2).sum(-1) * (P ** 2).sum(-1)
        k = np.divide(S2, den, out=np.zeros_like(S2), where=den > 0)
        C = np.einsum("ab,nyxb,nyxc,nyx->acyx", W, s, P, k) / len(A)
        d = d.mean(0).reshape(h // 2, w // 2, 2, 2).transpose(0, 2, 1, 3).reshape(h, w)
        return C, d


def place_occulter(occ):
    """The camera's occulter is made for 1952 x 1952 pixels; put it into the small images."""
    from micropolarray import cameras
    cls = cameras.PolarCam
    real = getattr(cls, "_sim_real_init", None) or cls.__init__
    cls._sim_real_init = real

    def init(self, *a, **k):
        real(self, *a, **k)
        if occ:
            self.occulter_pos_last = list(occ)
    cls.__init__ = init


def files(folder):
    out = {f"C{i}{j}": lib.read_fits(os.path.join(folder, f"C{i}{j}.fits"))[0] for i in range(4) for j in range(4)}
    out["d"] = lib.read_fits(os.path.join(folder, "d_ij.fits"))[0]
    return np.array([[out[f"C{i}{j}"] for j in range(4)] for i in range(4)]), out["d"]


def corrected(C, d, data):
    h, w = data.shape
    P = (data.astype(float) - d).reshape(h // 2, 2, w // 2, 2).transpose(0, 2, 1, 3).reshape(h // 2, w // 2, 4)
    v = np.einsum("abyx,yxb->yxa", C[:, :, ::2, ::2], P)
    v = v.reshape(h // 2, w // 2, 2, 2)
    out = np.zeros((h // 2, w // 2, 2, 2))
    out[1:, 1:] = 0.25 * (v[1:, 1:] + v[:-1, 1:] + v[1:, :-1] + v[:-1, :-1])
    return out.transpose(0, 2, 1, 3).reshape(h, w)


def near(a, b, rel):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool((np.abs(a - b) <= rel * (np.abs(b).max(initial=0) + 1e-12)).all())


def apply(folder, data):
    """("ok", result) or ("refused", why)."""
    try:
        return "ok", np.array(lib.ml().chen_wan_liang_calibration(data, folder))
    except Exception as exc:
        return "refused", f"{type(exc).__name__}: {exc}"


def observation(spec, h, w):
    return lib.make(dict(spec, h=h, w=w))


def judge_use(env, folder, scn, C, d, what):
    h, w = d.shape
    for spec in scn["data"]:
        data = observation(spec, h, w)
        keep = data.copy()
        with Seam(env, env.root, dirseed=scn["dirseed"]):
            st, got = apply(folder, data)
        env.check(st == "ok", "refused", lambda: f"{what}: the finished calibration is refused for an image of {spec['dtype']}: {got}")
        ref = corrected(C, d, keep)
        env.check(near(got, ref, 1e-9), "wrong-correction", lambda: f"{what}: an image of {spec['dtype']} is not corrected as the published matrices say: {lib.diff(got, ref)}")
        env.check(lib.same(data, keep), "input-changed", f"{what}: the correction changed the image that was given to it")
        env.ops["apply"] += 1


def run(scn, env):
    from astropy.io import fits
    fits.conf.use_memmap = scn["memmap"]
    root = env.root
    os.chdir(root)
    out = "cal" if scn["rel"] else os.path.join(root, "cal")
    full = os.path.join(root, "cal")
    if scn["mode"] == "folder":
        return folder(scn, env, full)
    cals = [Cal(c, root, f"in{k}") for k, c in enumerate(scn["c"])]
    if scn["mode"] == "value":
        return value(scn, env, cals[0], out, full)
    if scn["mode"] == "input":
        return unfit(scn, env, cals[0], out, full)
    good = {}
    if scn["old"] != "none":
        c = scn["c"][0]
        h, w = (c["h"], c["w"]) if scn["old"] == "full" else (c["h"] + 2, c["w"] + 2)
        good["old"] = write_set(full, h, w, 5)
    for k, cal in enumerate(cals):
        ref = os.path.join(root, f"ref{k}")
        cal.run(ref)
        good[f"calibration {k}"] = files(ref)
    current = "old" if scn["old"] != "none" else "none"
    for n, fault in enumerate(scn["faults"]):
        k = n % 2
        new = f"calibration {k}"
        res = attempt.under(env, lambda: cals[k].run(out), root, fault, budget=20000, minsize=256)
        env.ops["recalibrate"] += 1
        which, why = "refused", ""
        for h, w in sorted({g[1].shape for g in good.values()}):
            data = observation({"seed": 3, "dtype": "<f8", "kind": "rand"}, h, w)
            with Seam(env, root, dirseed=scn["dirseed"] + n):
                st, got = apply(out, data)
            if st != "ok":
                why = why or got
                continue
            fit = [nm for nm, (C, d) in good.items() if d.shape == (h, w) and near(got, corrected(C, d, data), 1e-9)]
            fit = [nm for nm in (new, current) if nm in fit]
            if not fit:
                env.fail("mixed", f"after a calibration that {res.text()}, images can be corrected, but not as any complete calibration ({current} or {new}) does")
            which = fit[0]
        env.note("state", which)
        env.probes["state_" + ("old" if which == current else "new" if which == new else which)] += 1
        env.checks += 1
        if res.done:
            env.check(which == new or same_cal(good, which, new), "acknowledged-but-lost", lambda: f"the calibration returned normally, but the folder is {which} ({why})")
        env.check(not cals[k].changed, "arguments-changed", lambda: f"the calibration changed its arguments: {cals[k].changed}")
        current = which if which != "refused" else "none"
    cals[0].run(out)
    judge_use(env, out, scn, *good["calibration 0"], "after a calibration without faults")


def same_cal(good, a, b):
    return a in good and b in good and good[a][1].shape == good[b][1].shape and near(good[a][0], good[b][0], 1e-9) and near(good[a][1], good[b][1], 1e-9)


def write_set(folder, h, w, seed):
    g = np.random.Generator(np.random.PCG64(seed))
    os.makedirs(folder, exist_ok=True)
    C = g.normal(0, 1, (4, 4, h // 2, w // 2)).repeat(2, axis=2).repeat(2, axis=3)
    d = g.random((h, w))
    for i in range(4):
        for j in range(4):
            lib.write_fits(os.path.join(folder, f"C{i}{j}.fits"), C[i, j])
    lib.write_fits(os.path.join(folder, "d_ij.fits"), d)
    return C, d


def value(scn, env, cal, out, full):
    c, root = scn["c"][0], env.root
    inputs = lib.tree(cal.folder)
    order = list(range(len(cal.files)))
    random.Random(scn["perm"]).shuffle(order)
    occ, free = cal.occulted()
    tol = 1e-4 if c["dtype"] == "<f4" else 1e-9
    for k, o in enumerate((None, order)):
        with Seam(env, root, dirseed=scn["dirseed"] + k, budget=20000) as seam:
            cal.run(out + str(k), o)
        env.check(not seam.budget_hit, "no-progress", "the calibration did not end")
        env.check(not cal.changed, "arguments-changed", lambda: f"the calibration changed its arguments: {cal.changed}")
        try:
            C, d = files(full + str(k))
        except (lib.BadFits, OSError) as exc:
            env.fail("incomplete", f"the calibration returned normally, but its folder is not complete: {exc}")
        what = f"files in the order {o or 'given'}, {c['dtype']} images, dark {c['dark']}, flat {c['flat']}, occulter {c['occ']}"
        shape = (4, 4, c["h"], c["w"])
        env.check(C.shape == shape and d.shape == shape[2:], "wrong-values", f"{what}: matrices of shape {C.shape}, offsets {d.shape}")
        env.check(all(np.array_equal(C[..., 0::2, 0::2], C[..., i::2, j::2]) for i in range(2) for j in range(2)), "wrong-values", f"{what}: the matrices differ inside a superpixel")
        refs = [cal.reference(occ), cal.reference(~free)]  # superpixels at the edge of the occulter may be either
        low = lambda a: a[..., ::2, ::2]
        sure = occ | free
        sure = np.kron(sure[::2, ::2] & sure[1::2, ::2] & sure[::2, 1::2] & sure[1::2, 1::2], np.ones((2, 2), bool))
        if cal.flat is not None and cal.dark is not None and not np.isclose(np.where(~free, 1.0, np.maximum(cal.flat.astype(float) - cal.dark, 1)).max(), np.where(occ, 1.0, np.maximum(cal.flat.astype(float) - cal.dark, 1)).max()):
            sure = np.zeros_like(sure)  # the largest value of the flat may be in the uncertain part
        for ref in refs[:1]:
            eC = np.abs(low(C) - ref[0]).max(axis=(0, 1)) - tol * (np.abs(ref[0]).max(axis=(0, 1)) + 1e-9)
            bad = low(sure) & ~(eC <= 0)
            env.check(not bad.any(), "wrong-values", lambda: f"{what}: matrix of superpixel {np.argwhere(bad)[0].tolist()} is wrong: {lib.diff(low(C)[:, :, bad][..., 0], ref[0][:, :, bad][..., 0])}")
            bd = sure & ~(np.abs(d - ref[1]) <= tol * (np.abs(ref[1]) + 1e-9))
            env.check(not bd.any(), "wrong-values", lambda: f"{what}: offset of pixel {np.argwhere(bd)[0].tolist()} is wrong: {d[bd][0]!r} is not {ref[1][bd][0]!r}")
        env.probes["superpixels_compared"] += int(low(sure).sum())
        env.probes["superpixels_not_judged"] += int((~low(sure)).sum())
        env.note("calibration", lib.sha(np.round(C, 9).tobytes()))
        env.ops["calibrate"] += 1
        judge_use(env, out + str(k), scn, C, d, what)
    env.check(lib.tree(cal.folder) == inputs, "inputs-changed", "the calibration changed its input files")


def unfit(scn, env, cal, out, full):
    c, root = scn["c"][0], env.root
    old = write_set(full, c["h"], c["w"], 5)
    before = lib.tree(full)
    bad = scn["bad"]
    j = scn["which"] % len(cal.files)
    plans = []
    target = {"dark-missing": cal.dark_file, "flat-missing": cal.flat_file}.get(bad, cal.files[j])
    if target is None:
        bad, target = "missing", cal.files[j]
    if bad.endswith("missing"):
        os.unlink(target)
    elif bad == "truncated":
        os.truncate(target, int(scn["cut"] * (2880 + c["h"] * c["w"] * np.dtype(c["dtype"]).itemsize - 1)))
    elif bad == "shape":
        lib.write_fits(target, np.ones((c["h"] + 2, c["w"] + 2), c["dtype"]))
    elif bad == "count":
        cal.files.pop(j)
        run_ = lambda: calculate()(c["pols"], cal.files, c["prev"], out, occulter=False)
    elif bad == "pols":
        run_ = lambda: calculate()([p if p != 45 else 44 for p in c["pols"]], cal.files, c["prev"], out, occulter=False)
    else:
        plans = [{"kinds": ["openr"], "nth": 1 + scn["which"] % len(cal.files), "action": "err", "err": "EIO"}]
    place_occulter(c["occ"])
    try:
        with Seam(env, root, plans, dirseed=scn["dirseed"]):
            cal.run(out) if bad not in ("count", "pols") else run_()
        st = "ok"
    except Exception as exc:
        st = f"{type(exc).__name__}: {exc}"
    env.note("unfit", bad, st)
    env.ops["unfit_" + bad] += 1
    env.check(st != "ok", "accepted", f"a calibration with an unfit input ({bad}) returned normally")
    changed = lib.tree_diff(before, lib.tree(full))
    env.check(not changed, "changed-by-failure", lambda: f"a calibration that failed ({bad}: {st}) changed the folder: {changed}")
    judge_use(env, out, scn, *old, f"after a calibration that failed ({bad})")


def folder(scn, env, full):
    C, d = write_set(full, scn["h"], scn["w"], scn["seed"])
    names = [f"C{i}{j}.fits" for i in range(4) for j in range(4)] + ["d_ij.fits"]
    for k in scn["drop"]:
        os.unlink(os.path.join(full, names[k]))
    torn = scn["tear"] is not None and scn["tear"] not in scn["drop"]
    if torn:
        p = os.path.join(full, names[scn["tear"]])
        if scn["how"] == "cut":
            os.truncate(p, int(scn["cut"] * (2880 + 8 * scn["h"] * scn["w"] - 1)))
        elif scn["how"] == "empty":
            os.truncate(p, 0)
        elif scn["how"] == "garbage":
            with open(p, "wb") as f:
                f.write(b"?" * 5760)
        else:
            lib.write_fits(p, np.ones((scn["h"] + 2, scn["w"] + 4)))
    if not scn["drop"] and not torn:
        judge_use(env, full, scn, C, d, "a complete folder")
        return
    data = observation(scn["data"][0], scn["h"], scn["w"])
    with Seam(env, env.root, dirseed=scn["dirseed"]):
        st, got = apply(full, data)
    env.ops["folder_incomplete"] += 1
    env.check(st == "refused", "incomplete-accepted", f"a folder without {[names[k] for k in scn['drop']]}{' and with a torn ' + names[scn['tear']] if torn else ''} was used")
    env.note("refused", got.split(":")[0])

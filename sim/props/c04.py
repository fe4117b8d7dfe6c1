"""C04: averaging and summing lists of files is all-or-nothing, exact and order-independent."""
import datetime
import math
import os

import numpy as np

from .. import attempt, lib
from ..lib import Seam

RUNS = {"quick": 1500, "thorough": 40000}
WARM = {"demosaic": [], "ifov": [], "shift": []}
LISTS = ["files", "fault.plans"]
RULE = ("seeded scenario: 1-8 files (6 dtypes, NaN, repeated files, three date formats) combined by the Image or MicropolImage constructor or by the "
        "raw merge/average functions, in two orders, without fault, with benign transfers, with a fault placed by a dry run (read error, failed open, "
        "allocation, interrupt, kill, full disk) or with one invalid input; non-trivial = the result, or the state after a refusal, was compared")
ASSUMPTIONS = ["floating point results are compared with a rounding tolerance of the input precision"]

READ_FAULTS = [{"kinds": ["openr"], "action": "err", "err": "EACCES"}, {"kinds": ["openr"], "action": "err", "err": "EMFILE"},
               {"kinds": ["read"], "action": "err", "err": "EIO"}]


def gen(rng, tier, i):
    raw = rng.random() < 0.4
    n = rng.choice([1, 2, 2, 3, 4, 5, 8])
    h, w = 2 * rng.randrange(2, 13), 2 * rng.randrange(2, 13)
    dt = rng.choice(["<f8", "<f8", "<u2", "<i2", "<f4", "<i4", "|u1"])
    files = []
    fmt = rng.choice(["iso", "isof", "split", "none", "mixed"])
    for k in range(n):
        if k and rng.random() < 0.12:
            files.append({"dup": rng.randrange(k)})
            continue
        files.append({"seed": rng.getrandbits(30), "kind": rng.choice(["rand", "wide", "grad", "sparse"]),
                      "t": rng.randrange(10 ** 8), "fmt": rng.choice(["iso", "isof", "split", "none"]) if fmt == "mixed" else fmt,
                      "nan": not raw and dt[1] == "f" and rng.random() < 0.1})
    scn = {"raw": raw, "h": h, "w": w, "dtype": "<u2" if raw else dt, "files": files, "avg": rng.random() < 0.5,
           "cls": rng.choice(["Image", "MicropolImage"]), "perm": rng.getrandbits(30), "memmap": rng.random() < 0.5,
           "old": rng.random() < 0.6, "api": rng.choice(["merge", "merge", "average"])}
    if scn["api"] == "average" and raw:
        scn["avg"] = True
    r = rng.random()
    if r < 0.3:
        scn["mode"] = "plain"
        scn["benign"] = lib.gen_benign(rng)
    elif r < 0.55:
        scn["mode"] = "invalid"
        scn["bad"] = rng.choice(["missing", "truncated", "shape", "empty", "garbage", "dir"])
        scn["which"] = rng.randrange(n)
        scn["as"] = rng.choice(["larger", "row", "column", "pixel", "turned"])
        scn["cut"] = round(rng.random(), 3)
    elif r < 0.8:
        scn["mode"] = "fault"
        scn["fault"] = {"mode": "io", "at": 0, "plans": [dict(rng.choice(READ_FAULTS), frac=round(rng.random(), 3))]}
    else:
        scn["mode"] = "fault"
        scn["fault"] = attempt.gen_fault(rng)
    return scn


def shrink(scn):
    if scn["h"] > 4 or scn["w"] > 4:
        yield dict(scn, h=4, w=4)
    if scn["old"]:
        yield dict(scn, old=False)


def date_cards(f):
    t = datetime.datetime(2019, 1, 1) + datetime.timedelta(seconds=f["t"])
    if f["fmt"] == "iso":
        return [("DATE-OBS", t.strftime("%Y-%m-%dT%H:%M:%S"))], t
    if f["fmt"] == "isof":
        return [("DATE-OBS", t.strftime("%Y-%m-%dT%H:%M:%S.250"))], t
    if f["fmt"] == "split":
        return [("DATE-OBS", t.strftime("%Y-%m-%d")), ("TIME-OBS", t.strftime("%H:%M:%S.5"))], t
    return [], None


def when(s):
    return datetime.datetime.strptime(str(s).replace("T", " ").split(".")[0], "%Y-%m-%d %H:%M:%S")


def run(scn, env):
    import random
    from astropy.io import fits
    fits.conf.use_memmap = scn["memmap"]
    m, root = lib.ml(), env.root
    raw, h, w = scn["raw"], scn["h"], scn["w"]
    names, arrs, times, nums = [], [], [], []
    for k, f in enumerate(scn["files"]):
        if "dup" in f and f["dup"] < len(names):
            d = f["dup"]
            names.append(names[d]), arrs.append(arrs[d]), times.append(times[d]), nums.append(nums[d])
            continue
        f = dict({"seed": 1, "kind": "rand", "t": 5, "fmt": "none", "nan": False}, **f)
        a = lib.make({"seed": f["seed"], "h": h, "w": w, "dtype": scn["dtype"], "kind": f["kind"]})
        if f["nan"]:
            a[0, 0] = np.nan
        p = os.path.join(root, f"in{k:02d}" + (".raw" if raw else ".fits"))
        cards, t = date_cards(f)
        if raw:
            with open(p, "wb") as fh:
                fh.write(a.astype("<u2").tobytes())
        else:
            lib.write_fits(p, a, cards + [("NUM", k)])
        names.append(p), arrs.append(a.astype(float)), times.append(t), nums.append(k)
    n = len(names)
    if n == 0:
        return
    target = os.path.join(root, "out", "sum.fits")
    os.makedirs(os.path.dirname(target))
    if scn["old"]:
        lib.write_fits(target, np.arange(12.0).reshape(3, 4))
    stack = np.array(arrs)
    want = stack.sum(axis=0) / (n if scn["avg"] else 1)
    eps = 1e-6 if scn["dtype"] == "<f4" else 1e-14
    tol = eps * n * np.abs(np.nan_to_num(stack)).sum(axis=0) / (n if scn["avg"] else 1) + 1e-300

    def combine(order):
        lst = [names[k] for k in order]
        keep = list(lst)
        if raw:
            if scn["api"] == "average":
                m.average_rawfiles_to_fits(lst, target, h, w)
            else:
                m.merge_rawfiles_to_fits(lst, target, h, w, "average" if scn["avg"] else "sum")
            got = None
        elif scn["cls"] == "Image":
            got = m.Image(lst, averageimages=scn["avg"])
        else:
            got = m.MicropolImage(lst, angle_dic=lib.CAMERA, averageimages=scn["avg"])
        env.check(lst == keep, "argument-changed", "the list of file names was changed")
        return got

    def judge(img, what, first=0):
        got = lib.read_fits(target)[0] if raw else np.asarray(img.data)
        if got.shape != want.shape:
            env.fail("wrong-values", f"{what}: shape {got.shape}, not {want.shape}")
        nan = np.isnan(want)
        bad = np.isnan(got) != nan
        with np.errstate(all="ignore"):
            bad |= ~nan & ~(np.abs(got - want) <= tol)
        env.check(not bad.any(), "wrong-values", lambda: f"{what} of {n} files: {lib.diff(np.where(bad, got, 0), np.where(bad, want, 0))}")
        env.ops[("raw_" if raw else scn["cls"] + "_") + ("average" if scn["avg"] else "sum")] += 1
        if raw or n == 1:
            return
        hd = img.header
        env.check(hd.get("SUMOF") == n, "header", lambda: f"{what}: SUMOF is {hd.get('SUMOF')!r} for {n} files")
        env.check(hd.get("NUM") == nums[first], "header", lambda: f"{what}: the header is that of file {hd.get('NUM')!r}, not of the first file {nums[first]}")
        ts = sorted(t for t in times if t)
        if ts:
            env.check(when(hd.get("STRT-OBS")) == ts[0] and when(hd.get("END-OBS")) == ts[-1], "header",
                      lambda: f"{what}: STRT-OBS {hd.get('STRT-OBS')!r}, END-OBS {hd.get('END-OBS')!r} for observations from {ts[0]} to {ts[-1]}")

    def stokes(img, what):
        if raw or scn["cls"] == "Image" or img is None:
            return
        d = np.asarray(img.data, float)
        sub = [d[p // 2::2, p % 2::2] for p in range(4)]
        ref = [0.5 * sum(sub), sub[0] - sub[3], sub[1] - sub[2]]
        scale = np.abs(np.nan_to_num(d)).max() + 1
        for x, y, nm in zip(img.Stokes_vec, ref, "IQU"):
            env.check(lib.close(x, y, 1e-9, 1e-9 * scale), "stokes", lambda: f"{what}: {nm} does not belong to the combined image")

    inputs = {os.path.basename(x): None for x in names}
    before = lib.tree(root)

    def unchanged(what):
        d = lib.tree_diff(before, lib.tree(root))
        env.check(not d, "changed-files", lambda: f"{what}: {d}")

    order = list(range(n))
    if scn["mode"] == "plain":
        faults = []
        if scn["benign"]:
            info = lib.dry(lambda: combine(order), root)
            faults = [f for f in (lib.place(f, info["counts"]) for f in scn["benign"]) if f]
        with Seam(env, root, faults, budget=20000) as seam:
            try:
                img = combine(order)
            except Exception as exc:
                img = exc
        if isinstance(img, Exception):
            # C stdio does not retry an interrupted read: a reported failure is acceptable then
            if not any(p["kinds"] == ["read"] and p["action"] == "eintr" for p in seam.fired):
                raise img
            unchanged("interrupted read")
            img = combine(order)
        judge(img, "combination")
        stokes(img, "combination")
        random.Random(scn["perm"]).shuffle(order)
        env.note("order", order)
        judge(combine(order), f"combination in the order {order}", order[0])
        now = lib.tree(root)
        d = lib.tree_diff(before, now, ["out/sum.fits"] if raw else [])
        env.check(not d, "changed-files", lambda: f"the combination changed {d}")
        return
    if scn["mode"] == "invalid":
        bad, k = scn["bad"], scn["which"] % n
        p = names[k]
        size = os.path.getsize(p)
        if bad == "shape":
            if len(set(names)) == 1 and not raw:
                return
            if raw:
                os.truncate(p, size - 2)
            else:
                # some can be summed by numpy
                lib.write_fits(p, np.ones({"larger": (h + 2, w + 4), "row": (1, w), "column": (h, 1), "pixel": (1, 1), "turned": (w, h + 2)}[scn.get("as", "larger")]))
        elif bad == "truncated":
            os.truncate(p, min(size - 1, int(size * scn["cut"])) if raw else int(scn["cut"] * (2880 + arrs[k].size * np.dtype(scn["dtype"]).itemsize - 1)))
        elif bad == "garbage" and not raw:
            with open(p, "wb") as f:
                f.write(b"\xff" * size)
        elif bad == "missing":
            os.unlink(p)
        elif bad == "dir":
            os.unlink(p)
            os.mkdir(p)
        else:
            os.truncate(p, 0)
        before = lib.tree(root)
        try:
            with Seam(env, root, budget=20000):
                img = combine(order)
            exc = None
        except Exception as e:
            exc = e
        env.note("invalid", bad, type(exc).__name__)
        env.ops["invalid_" + bad] += 1
        env.check(exc is not None, "accepted-invalid", lambda: f"file {k} of {n} is {bad}, but a result was delivered")
        unchanged(f"refused because file {k} of {n} is {bad}")
        return
    out = attempt.under(env, lambda: combine(order), root, scn["fault"], budget=20000)
    env.ops["fault_" + ("raw" if raw else scn["cls"])] += 1
    if out.done:
        judge(out.value, "combination under a tolerated fault")
        stokes(out.value, "combination under a tolerated fault")
    now = lib.tree(root)
    d = lib.tree_diff(before, {k: v for k, v in now.items() if k in before}, ["out/sum.fits"])
    env.check(not d, "changed-files", lambda: f"the combination {out.text()} and changed {d}")
    if not out.done and now.get("out/sum.fits") != before.get("out/sum.fits"):
        reads = all(set(p["kinds"]) <= {"openr", "read"} for p in out.seam.fired) and out.seam.fired
        env.check(not reads, "output-touched", "an input could not be read, but the existing output file was changed")
        if "out/sum.fits" in now:
            try:
                got = np.asarray(m.Image(target).data)
            except Exception:
                got = None
            env.check(got is None or got.shape == want.shape and not (np.abs(got - want) > tol).any(), "passes-for-good",
                      "after a failed combination the output file loads with other values")
    # faults over: the same call delivers
    judge(combine(order), "retry")

"""C03: converting raw files never loses the only copy of an image."""
import os

import numpy as np

from .. import attempt, lib, sched
from ..lib import Seam
from ..runner import PKG

RUNS = {"quick": 1500, "thorough": 40000}
WARM = {"demosaic": [], "ifov": [], "shift": []}
LISTS = ["files", "fault.plans", "storm", "sched.switches"]
RULE = ("seeded scenario: a folder of 1-4 raw images (names with dots, spaces, several suffixes, relative paths), earlier conversions and "
        "bystanders, converted with and without removal of the raw file under 1-2 faults placed by a dry run (error, short or torn write, full disk, "
        "failed close/unlink, failed allocation, interrupt, kill), or by concurrent converters, or with an invalid file; then a recovery loop with "
        "further faults until none is left; non-trivial = the copies of each image were judged after a conversion")
ASSUMPTIONS = ["crash = process kill: completed file operations survive (the code never syncs)",
               "raw files longer than height*width pixels are not judged"]

NAMES = ["img", "a.b", "a.c", "dark frame", "2021-12-04T10.11.12", "x.raw", "x.fits", "é", "IMG", "raw", ".hidden", "n_1", "a..b", "img_2", "img2", "img.1", "n_10", "IMG"]
DIRS = ["", "", "", "d/", "v1.0/", "x.raw.d/", "sp ace/"]


def gen(rng, tier, i):
    h, w = rng.randrange(2, 24), rng.randrange(2, 24)
    if rng.random() < 0.15:
        h, w = rng.randrange(60, 120), rng.randrange(60, 120)
    used, files = set(), []
    for _ in range(rng.randrange(1, 5)):
        p = rng.choice(DIRS) + rng.choice(NAMES)
        if p in used or os.path.dirname(p) and (os.path.dirname(p) in used):
            continue
        used.add(p)
        files.append({"stem": p, "seed": rng.getrandbits(30), "kind": rng.choice(["rand", "wide", "sparse"]),
                      "old": rng.random() < 0.4, "how": rng.choice(["abs", "rel", "dotdot"])})
    scn = {"h": h, "w": w, "files": files, "remove": rng.random() < 0.75, "memmap": rng.random() < 0.5}
    r = rng.random()
    if r < 0.12:
        scn["mode"] = "plain"
    elif r < 0.24:
        scn["mode"] = "invalid"
        scn["bad"] = rng.choice(["suffix", "suffix", "short", "empty", "missing", "upper"])
        scn["ext"] = rng.choice([".bin", ".rawx", ".raw2", ".RAW", ".raw.gz", ".raw~", ".bmp", "raw", ".raw.", ".fraw", ".data"])
        scn["short"] = round(rng.random(), 3)
    elif r < 0.36 and len(files) > 1:
        scn["mode"] = "concurrent"
        scn["sched"] = sched.rand_spec(rng, len(files))
    else:
        scn["mode"] = "fault"
        scn["fault"] = attempt.gen_fault(rng)
        scn["storm"] = [attempt.gen_fault(rng) for _ in range(rng.randrange(0, 3))]
    return scn


def shrink(scn):
    if scn["h"] > 2 or scn["w"] > 2:
        yield dict(scn, h=2, w=2)
    for n, f in enumerate(scn["files"]):
        if f["old"] or f["how"] != "abs":
            fs = [dict(x) for x in scn["files"]]
            fs[n].update(old=False, how="abs")
            yield dict(scn, files=fs)


def run(scn, env):
    from astropy.io import fits
    fits.conf.use_memmap = scn["memmap"]
    m, root = lib.ml(), env.root
    h, w = scn["h"], scn["w"]
    imgs, olds = {}, {}
    for f in scn["files"]:
        a = lib.make({"seed": f["seed"], "h": h, "w": w, "dtype": "<u2", "kind": f["kind"]})
        p = os.path.join(root, f["stem"] + ".raw")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(a.astype("<u2").tobytes())
        imgs[f["stem"]] = a
        if f["old"]:
            olds[f["stem"]] = lib.make({"seed": f["seed"] + 1, "h": h + 1, "w": w, "dtype": "<u2", "kind": "rand"})
            lib.write_fits(os.path.join(root, f["stem"] + ".fits"), olds[f["stem"]])
    for n in ("other.txt", "img.raw.bak", "zzz.fits", "a.fits.old", "zzz.raw_"):
        with open(os.path.join(root, n), "wb") as fh:
            fh.write(n.encode())
    for f in scn["files"]:  # other images, whose names begin like this one's
        for n in ("2.fits", "_2.fits", "2.raw", "_old.raw", ".1.fits"):
            if f["stem"] + os.path.splitext(n)[0] not in imgs:
                with open(os.path.join(root, f["stem"] + n), "wb") as fh:
                    fh.write(n.encode())
    os.makedirs(os.path.join(root, "cwd"), exist_ok=True)
    start = lib.tree(root)

    def path(f):
        if f["how"] == "rel":
            return f["stem"] + ".raw"
        if f["how"] == "dotdot":
            return os.path.join("cwd", "..", f["stem"] + ".raw")
        return os.path.join(root, f["stem"] + ".raw")

    def convert(f, remove):
        m.convert_rawfile_to_fits(path(f), h, w, remove)

    def raw_ok(f, now):
        p = os.path.normpath(f["stem"] + ".raw")
        return now.get(p) == start[p]

    def fits_state(f):
        p = os.path.join(root, f["stem"] + ".fits")
        if not os.path.exists(p):
            return "absent"
        try:
            a, _ = lib.read_fits(p)
        except lib.BadFits:
            return "partial"
        return "new" if lib.same(a, imgs[f["stem"]]) else "old" if f["old"] and lib.same(a, olds[f["stem"]]) else "wrong"

    def judge(f, done, remove, why):
        now = lib.tree(root)
        st, raw = fits_state(f), raw_ok(f, now)
        env.note(f["stem"], st, raw)
        env.probes["fits_" + st] += 1
        p = os.path.normpath(f["stem"])
        env.check(raw or st == "new", "image-lost", lambda: f"{p}: {why}: the raw file is {'gone' if p + '.raw' not in now else 'changed'} and the fits file is {st}")
        env.check(raw or remove, "raw-removed", lambda: f"{p}: {why}: the raw file was touched although its removal was not asked for")
        env.check(st != "wrong", "wrong-values", lambda: f"{p}: {why}: the fits file holds other values than the raw file: "
                  + lib.diff(lib.read_fits(os.path.join(root, f['stem'] + '.fits'))[0], imgs[f['stem']]))
        if st == "partial":
            try:
                got = np.asarray(m.Image(os.path.join(root, f["stem"] + ".fits")).data)
            except Exception:
                got = None
            env.check(got is None or lib.same(got, imgs[f["stem"]]), "passes-for-good", lambda: f"{p}: {why}: the incomplete fits file loads")
        if done:
            env.check(st == "new", "acknowledged-but-lost", lambda: f"{p}: the conversion returned normally, but the fits file is {st}")
            env.check(p + ".raw" not in now or not remove, "raw-kept", lambda: f"{p}: the conversion returned normally, but the raw file is still there")

    def bystanders(touched):
        names = {os.path.normpath(f["stem"] + e) for f in touched for e in (".raw", ".fits")}
        now = lib.tree(root)
        d = lib.tree_diff(start, {k: v for k, v in now.items() if k in start}, names)
        env.check(not d, "bystander", lambda: f"a file that is not part of the conversion changed: {d}")
        return now

    if scn["mode"] == "invalid":
        return invalid(scn, env, m, start, convert)
    done_files = []
    if scn["mode"] == "concurrent":
        fs = scn["files"]
        with Seam(env, root, budget=20000) as seam:
            sc = sched.Sched([lambda f=f: convert(f, scn["remove"]) for f in fs], scn["sched"], PKG)
            res = sc.run()
        env.sched = sc.recorded()
        env.note("switches", sc.switches)
        env.probes["context_switches"] += len(sc.switches)
        for f, (st, exc) in zip(fs, res):
            if st == "exc":
                raise exc
            judge(f, True, scn["remove"], "concurrent conversion")
        bystanders(fs)
        env.ops["concurrent_convert"] += len(fs)
        done_files = list(fs)
    else:
        for k, f in enumerate(scn["files"]):
            fault = scn["fault"] if scn["mode"] == "fault" and k == len(scn["files"]) - 1 else None
            out = attempt.under(env, lambda: convert(f, scn["remove"]), root, fault)
            env.ops["convert"] += 1
            judge(f, out.done, scn["remove"], "conversion " + out.text())
            done_files.append(f)
            for g in scn["files"]:
                if g not in done_files:
                    env.check(raw_ok(g, lib.tree(root)), "bystander", f"the raw file of {g['stem']} changed during the conversion of {f['stem']}")
            bystanders(done_files)
    # recovery: convert whatever is left until nothing is; the last rounds are free of faults
    for fault in list(scn.get("storm", [])) + [None, None]:
        left = [f for f in scn["files"] if os.path.exists(os.path.join(root, f["stem"] + ".raw"))]
        for f in left:
            out = attempt.under(env, lambda: convert(f, True), root, fault)
            env.ops["recover"] += 1
            judge(f, out.done, True, "recovery " + out.text())
    now = bystanders(scn["files"])
    for f in scn["files"]:
        p = os.path.normpath(f["stem"])
        env.check(p + ".raw" not in now and fits_state(f) == "new", "no-convergence",
                  lambda: f"{p}: after repeated conversions the raw file is {'there' if p + '.raw' in now else 'gone'} and the fits file is {fits_state(f)}")
    extra = sorted(k for k, v in now.items() if k not in start and v != "dir" and k not in {os.path.normpath(f["stem"] + ".fits") for f in scn["files"]})
    if scn["mode"] in ("plain", "concurrent"):
        env.check(not extra, "files", f"unexpected files {extra}")


def invalid(scn, env, m, start, convert):
    root, f = env.root, scn["files"][0]
    raw = os.path.join(root, f["stem"] + ".raw")
    bad, name = scn["bad"], raw
    if bad in ("suffix", "upper"):
        name = os.path.join(root, f["stem"] + (scn.get("ext", ".bin") if bad == "suffix" else ".fits"))
        if bad == "suffix":
            os.rename(raw, name)
        elif not os.path.exists(name):
            lib.write_fits(name, lib.make({"seed": 5, "h": 4, "w": 4, "dtype": "<u2", "kind": "rand"}))
    elif bad == "missing":
        os.unlink(raw)
    else:
        n = os.path.getsize(raw)
        os.truncate(raw, 0 if bad == "empty" else min(n - 1, int(scn["short"] * n)))
    before = lib.tree(root)
    with Seam(env, root, budget=3000) as seam:
        try:
            m.convert_rawfile_to_fits(name, scn["h"], scn["w"], scn["remove"])
            ok = None
        except Exception as exc:
            ok = exc
    env.note("invalid", bad, type(ok).__name__)
    env.ops["invalid_" + bad] += 1
    env.check(ok is not None, "accepted-invalid", f"{bad}: a file that is no complete raw image was converted")
    d = lib.tree_diff(before, lib.tree(root))
    env.check(not d, "invalid-changed", f"{bad}: the rejected conversion changed files: {d}")

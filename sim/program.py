"""Small programs over the public API whose observable outcome is a list of
[label, digest]: results of operations, contents of written files, errors."""
import os
import random

import numpy as np

from . import calib, lib, ops, saves


def gen_item(rng, kinds):
    k = rng.choice(kinds)
    it = {"k": k, "seed": rng.getrandbits(30)}
    if k == "ops":
        it["world"] = ops.gen_world(rng, 10, n=rng.randrange(1, 4))
        it["ops"] = [ops.gen_op(rng) for _ in range(rng.randrange(2, 9))]
    elif k == "save":
        it["src"] = [saves.gen_source(rng, 12)]
        it["ops"] = [saves.gen_op(rng, 1, it["src"]) for _ in range(rng.randrange(1, 4))]
    elif k == "list":
        it.update(n=rng.choice([1, 2, 2, 3, 4, 5]), dates=[rng.choice(["iso", "iso", "frac", "split", "none"])] * 5 if rng.random() < 0.7 else [rng.choice(["iso", "frac", "split", "none"]) for _ in range(5)], h=2 * rng.randrange(2, 7), w=2 * rng.randrange(2, 7), dtype=rng.choice(["<f8", "<u2", "<i2", "<f4"]),
                  avg=rng.random() < 0.5, cls=rng.choice(["Image", "MicropolImage"]), raw=rng.random() < 0.4)
    elif k == "demod":
        it.update(h=2 * rng.randrange(2, 6), w=2 * rng.randrange(2, 6), flags=rng.random() < 0.6)
    elif k == "calib":
        it["c"] = calib.gen(rng, small=True)
        it["c"]["occ"] = None if rng.random() < 0.5 else it["c"]["occ"]
        it["grid"] = rng.choice(calib.grids(it["c"]))
    elif k == "convert":
        it.update(h=rng.randrange(2, 16), w=rng.randrange(2, 16), remove=rng.random() < 0.5)
    elif k == "pure":
        fam = PURE if rng.random() < 0.6 else ["nrgf", "roi", "roi", "solve", "camera"]  # functions with kept coordinates, on images of few sizes
        side = (lambda: 2 * rng.randrange(4, 15)) if rng.random() < 0.4 else (lambda: rng.choice([8, 12, 12, 20]))
        it.update(h=side(), w=side(), fn=[rng.choice(fam) for _ in range(rng.randrange(1, 4))], kind=rng.choice(["rand", "grad"]),
                  mid=rng.random() < 0.8)
    elif k == "chen":
        it.update(h=2 * rng.randrange(1, 6), w=2 * rng.randrange(1, 6), dtype=rng.choice(["<f8", "<u2", "<i2"]), dark=rng.random() < 0.5, flat=rng.random() < 0.5)
    elif k == "bad":
        it["what"] = rng.choice(["missing", "truncated", "ext", "shape", "mode", "short", "odd", "binning", "negative", "orientations", "grid", "grid", "count", "folder", "flat", "angles", "empty", "chen"])
    if k in ("save", "list", "demod", "convert", "chen") and rng.random() < 0.4:
        it["rel"] = True
    return it


def siblings(rng, items):
    """The same parts on other values: what a process keeps from one may reach the other."""
    out = []
    for it in items:
        it = dict(it)
        if it["k"] == "ops":
            it["world"] = dict(it["world"], seed=rng.getrandbits(30))
        elif it["k"] == "save":
            it["src"] = [dict(x, seed=rng.getrandbits(30)) for x in it["src"]]
        elif it["k"] != "calib":
            it["seed"] = rng.getrandbits(30)
        out.append(it)
    return out


PURE = ["nrgf", "nrgf", "roi", "roi", "linear", "linear_polar", "split", "congrid", "demosaic", "demosaic_mean", "stats", "normalize", "otsu", "tiny",
        "occulter", "malus_norm", "keywords", "bsun", "camera", "outliers", "rebinning", "shifting", "line", "stokes", "solve"]


def _pure(name, a, rng, mid=False):
    m = lib.ml()
    h, w = a.shape
    y, x = (h // 2, w // 2) if mid else (rng.randrange(2, h - 2), rng.randrange(2, w - 2))
    if name == "nrgf":
        phi = [rng.choice([[0.0, 360], [20.0, 300.0]]) for _ in range(2)]
        if rng.random() < 0.3:
            phi = []
        return [m.nrgf(a, y, x, rng.choice([0, 1, 2]), rng.choice([1, 2]), *phi)]
    if name == "roi":
        th = rng.choice([[[0, 360]], [[0, 90]], [[30, 200]], [[300, 350]], [[-60, 90]], [], []])
        return [m.roi_from_polar(a, [y, x], [rng.choice([0, 1]), rng.randrange(3, 12)], *th, fill=rng.choice([0.0, -1.5]), return_boolean=rng.random() < 0.3)]
    if name == "linear":
        return [np.asarray(v) for v in np.atleast_1d(m.linear_roi(a, [y, x], [rng.randrange(h), rng.randrange(w)]))]
    if name == "linear_polar":
        r = m.linear_roi_from_polar(a, [y, x], rng.choice([0, 30, 90, 200.5]), r=[0, 2])
        return [np.asarray(v, float) for v in (r if isinstance(r, (list, tuple)) else [r])]
    ev = np.array(a[:h // 2 * 2, :w // 2 * 2])
    if name == "split":
        s = m.split_polarizations(ev)
        return [s, m.merge_polarizations(s)]
    if name == "congrid":
        return [m.congrid(a, (rng.randrange(4, 20), rng.randrange(4, 20)))]
    if name == "demosaic":
        return [m.demosaic(ev)]
    if name == "demosaic_mean":
        return [m.demosaic(ev, "mean")]
    if name == "stats":
        return [np.array([m.mean_plus_std(a), m.mean_minus_std(a, 2), m.median_plus_std(a), m.median_minus_std(a, 3), m.sigma_DN(float(a[0, 0]))])]
    if name == "normalize":
        return [np.asarray(m.normalize2piarray(a / 1000.0)), np.asarray(m.normalize2pi([float(v) for v in a[0][:5]]))]
    if name == "otsu":
        return [np.asarray(m.auto_threshold(a))]
    if name == "tiny":  # images of one or two superpixels
        t = np.array(ev[:2 * rng.randrange(1, 3), :2 * rng.randrange(1, 3)])
        img = m.MicropolImage(t, angle_dic=lib.CAMERA)
        s = m.split_polarizations(t)
        return [s, m.merge_polarizations(s), img.Stokes_vec, img.DoLP.data, (img + img).data, img.rebin(1).data]
    if name == "occulter":
        yy, xx = np.mgrid[:h, :w]
        r = min(h, w) // 4
        b = 900.0 / (1 + np.exp(-(np.hypot(yy - h // 2 - rng.randrange(-1, 2), xx - w // 2) - r))) + a / 1000 + 20
        out = []
        for method in ("sigmoid", "algo"):
            try:
                out.append(np.array(m.find_occulter_position(b, method=method), float))
            except Exception as exc:
                out.append(np.array(len(type(exc).__name__)))
        return out
    if name == "malus_norm":
        g = np.random.Generator(np.random.PCG64(rng.getrandbits(30)))
        b = [np.round(g.normal(1000, 20, (60, 60)), 1) for _ in range(4)]
        return [np.asarray(m.get_malus_normalization(np.array(b)))]
    if name == "keywords":
        from astropy.io import fits
        hd = fits.Header([("NAXIS1", w), ("NAXIS2", h), ("DATE-OBS", "2021-01-01"), ("TIME-OBS", "10:11:12")])
        n = min(ev.shape)
        hd, b = m.align_keywords_and_data(hd, np.array(ev[:n, :n]), (rng.randrange(1952), rng.randrange(1952)), 4.3, rng.choice([1, 2]))
        return [b, np.frombuffer(repr(sorted((k, str(hd[k])) for k in hd)).encode(), "u1")]
    if name == "bsun":
        return [np.array([m.get_Bsun_units(float(a[0, 0]) + 1, rng.choice([1.0, 2.5]), rng.choice([1.0, 0.5]))])]
    if name == "camera":
        c = m.PolarCam()
        c.occulter_pos_last = [y, x, 2 + rng.randrange(3)]
        c.h_image, c.w_image = ev.shape
        return [c.occulter_roi(ev, fill=rng.choice([0.0, -1.0]), overoccult=rng.randrange(2)), c.occulter_mask(rng.randrange(2))]
    if name == "outliers":
        from micropolarray.processing import image_cleaning
        return [image_cleaning.reject_outliers(a.ravel())]
    if name == "rebinning":
        from micropolarray.processing import rebin
        b = rng.choice([1, 2, 3])
        return [rebin.micropolarray_rebin(ev, b), rebin.standard_rebin(a, b), np.array(m.trim_to_match_binning(h, w, b, False))]
    if name == "shifting":
        from micropolarray.processing import shift
        dy, dx, v = rng.randrange(-3, 4), rng.randrange(-3, 4), rng.choice([0.0, -2.5])
        return [shift.shift(a, dy, dx, v), shift.shift_micropol(ev, dy, dx, v)]
    if name == "line":
        from micropolarray.processing import linear_roi
        e = [rng.randrange(h), rng.randrange(w)]
        return [np.asarray(v, float) for f in (linear_roi.DDA, linear_roi.bresenham) for v in f([y, x], e)]
    if name == "stokes":
        from micropolarray import polarization_functions as pf
        from micropolarray.processing import demodulation_errors as de
        S = np.array([np.abs(ev) + 1, ev / 3, -ev / 5])
        sg = np.abs(S) / 10
        return [pf.AoLP(S), pf.DoLP(S), pf.pB(S), de.get_error_on_pB(S, sg), de.get_error_on_DoLP(S, sg), de.get_error_on_AoLP(S, sg)]
    if name == "solve":
        from micropolarray.processing import nrgf
        return [nrgf.tile_double(a), nrgf.sigmoid(a / 1e4, 3.0, 1.0, 0.5, 2.0)] + list(nrgf.map_polar_coordinates(h, w, (y, x)))
    return []


def tree_digest(root):
    """Files below root; volatile header cards blanked."""
    out = []
    for p, v in sorted(lib.tree(root).items()):
        if not isinstance(v, bytes):
            out.append([p, str(v)])
            continue
        if p.endswith(".fits"):
            n = 0
            b = bytearray(v)
            while n + 80 <= len(b):
                key = bytes(b[n:n + 8]).rstrip()
                if key in (b"CREATED", b"DATE"):
                    b[n + 8:n + 80] = b" " * 72
                if key == b"END":
                    break
                n += 80
            v = bytes(b)
        out.append([p, lib.sha(v)])
    return out


def _ostate(o):
    m = lib.ml()
    return lib.img_state(o) if isinstance(o, m.Image) else lib.demod_state(o) if isinstance(o, m.Demodulator) else lib.adig(o)


def run_item(it, root, out, vary=None):
    """Run one item below root; appends [label, digest].  vary: an rng for what
    must not matter (worker schedule)."""
    m = lib.ml()
    k = it["k"]
    rng = random.Random(it["seed"])
    os.makedirs(root, exist_ok=True)
    if it.get("rel"):
        root = os.path.relpath(root)

    def put(label, value):
        out.append([f"{k}: {label}", value])

    if k == "ops":
        W = ops.World(it["world"], root)
        for n, op in enumerate(it["ops"]):
            r = ops.execute(op, W)
            if r is None:
                continue
            tgt, new, vals = r
            put(f"{n} {op['op']}", [[_ostate(o) for o in new], [lib.adig(v) for v in vals], None if tgt is None else _ostate(tgt)])
            for o in new:
                if o is not tgt and len(W.imgs) < 8:
                    (W.imgs if isinstance(o, m.MicropolImage) else W.plain).append(o)
        put("world", [_ostate(o) for o in W.imgs + W.plain])
    elif k == "save":
        img = saves.build(it["src"][0], root, 0)
        if any(o["kind"] == "demo" for o in it["ops"]):
            img.demosaic("adjacent" if img.data.dtype.str in ("<f8", "<u2", "<i2") else "mean")
        for n, op in enumerate(it["ops"]):
            saves.perform(dict(op, abs=True), img, root if op["kind"] == "raw" else os.path.join(root, f"o{n}"))
        put("state", _ostate(img))
        put("files", tree_digest(root))
    elif k == "list":
        names = []
        for n in range(it["n"]):
            a = lib.make({"seed": it["seed"] + n, "h": it["h"], "w": it["w"], "dtype": "<u2" if it["raw"] else it["dtype"], "kind": "rand"})
            f = os.path.join(root, f"i{n}" + (".raw" if it["raw"] else ".fits"))
            if it["raw"]:
                with open(f, "wb") as fh:
                    fh.write(a.tobytes())
            else:
                t = f"00:00:{(n * 7) % 60:02d}"
                lib.write_fits(f, a, {"iso": [("DATE-OBS", "2020-01-01T" + t)], "frac": [("DATE-OBS", f"2020-01-01T{t}.25")], "none": [],
                                      "split": [("DATE-OBS", "2020-01-01"), ("TIME-OBS", t + ".5")]}[it["dates"][n]])
            names.append(f)
        if it["raw"]:
            m.merge_rawfiles_to_fits(names, os.path.join(root, "out.fits"), it["h"], it["w"], "average" if it["avg"] else "sum")
            put("files", tree_digest(root))
        elif it["cls"] == "Image":
            put("image", lib.img_state(m.Image(names, averageimages=it["avg"])))
        else:
            put("image", lib.img_state(m.MicropolImage(names, angle_dic=lib.CAMERA, averageimages=it["avg"])))
    elif k == "demod":
        g = np.random.Generator(np.random.PCG64(it["seed"]))
        mij = g.normal(0, 1, (3, 4, it["h"] // 2, it["w"] // 2))
        lib.write_tensor(os.path.join(root, "demo"), mij, (g.random(mij.shape[2:]) < 0.7) * 1.0 if it["flags"] else None)
        d = m.Demodulator(os.path.join(root, "demo"))
        put("loaded", lib.demod_state(d))
        img = m.MicropolImage(g.random((it["h"], it["w"])) * 1000, angle_dic=lib.CAMERA)
        put("used", _ostate(img.demodulate(d)))
        d.rot90(rng.randrange(4))
        d.flip(rng.randrange(2))
        put("turned", lib.demod_state(d))
    elif k == "calib":
        cal = calib.Calib(it["c"], root)
        if vary is not None:
            calib.set_pool(dict(calib.gen_pool(vary), inproc=True))
        else:
            calib.set_pool({"seed": 1, "order": "fifo", "inproc": True})
        cal.run(os.path.join(root, "out"), it["grid"])
        put("files", tree_digest(os.path.join(root, "out")))
        st, got = calib.load(os.path.join(root, "out"))
        put("loaded", [st, {q: lib.adig(v) if isinstance(v, np.ndarray) else str(v) for q, v in got.items()} if st == "ok" else got])
    elif k == "convert":
        a = lib.make({"seed": it["seed"], "h": it["h"], "w": it["w"], "dtype": "<u2", "kind": "rand"})
        f = os.path.join(root, "r.raw")
        with open(f, "wb") as fh:
            fh.write(a.tobytes())
        m.convert_rawfile_to_fits(f, it["h"], it["w"], remove_old=it["remove"])
        put("files", tree_digest(root))
    elif k == "pure":
        a = lib.make({"seed": it["seed"], "h": it["h"], "w": it["w"], "dtype": "<f8", "kind": it["kind"]})
        keep = a.copy()
        for n, fn in enumerate(it["fn"]):
            try:
                put(f"{n} {fn}", [lib.adig(v) for v in _pure(fn, a, rng, it["mid"])])
            except Exception as exc:  # e.g. a line that leaves the image
                put(f"{n} {fn}", type(exc).__name__)
        put("argument", lib.same(a, keep))
    elif k == "chen":
        from micropolarray.processing import chen_wan_liang_calibration as cw
        g = np.random.Generator(np.random.PCG64(it["seed"]))
        names = [os.path.join(root, f"i{n}.fits") for n in range(6)]
        for n, f in enumerate(names):
            lib.write_fits(f, g.integers(50 * (n < 5), 4000 if n < 5 else 60, (it["h"], it["w"])).astype(it["dtype"]))
        cw.calculate_chen_wan_lian_calibration([45, 0, -45, 90], names[:4], [0, 45, -45, 90], os.path.join(root, "out"), occulter=False,
                                               dark_filename=names[5] if it["dark"] else None, flat_filename=names[4] if it["flat"] else None)
        put("files", tree_digest(os.path.join(root, "out")))
        put("corrected", lib.adig(cw.chen_wan_liang_calibration(g.integers(0, 4000, (it["h"], it["w"])).astype(it["dtype"]), os.path.join(root, "out"))))
    elif k == "bad":
        def refuse(fn):
            try:
                fn()
            except Exception as exc:
                return type(exc).__name__
            return "accepted"
        what = it["what"]
        f = os.path.join(root, "x.fits")
        img = m.MicropolImage(np.ones((6, 6)) * 3, angle_dic=lib.CAMERA)
        if what == "missing":
            r = refuse(lambda: m.Image(f))
        elif what == "truncated":
            with open(f, "wb") as fh:
                fh.write(lib.fits_bytes(np.ones((40, 40)))[:4000])
            r = refuse(lambda: m.Image(f))
        elif what == "ext":
            r = refuse(lambda: img.save_as_fits(os.path.join(root, "x.png")))
        elif what == "shape":
            r = refuse(lambda: img.subtract_dark(m.MicropolImage(np.ones((8, 4)), angle_dic=lib.CAMERA)))
        elif what == "mode":
            r = refuse(lambda: img.demosaic("nearest"))
        elif what == "odd":
            r = refuse(lambda: m.MicropolImage(np.ones((5, 6)), angle_dic=lib.CAMERA).demosaic())
        elif what == "binning":
            r = refuse(lambda: img.rebin(9))
        elif what == "negative":
            r = refuse(lambda: img.rebin(-1))
        elif what == "flat":
            r = refuse(lambda: m.MicropolImage(img.data, angle_dic=lib.CAMERA, flat=m.MicropolImage(np.ones((4, 8)), angle_dic=lib.CAMERA)))
        elif what == "angles":
            r = refuse(lambda: m.MicropolImage(np.ones((6, 6)), angle_dic={0: 0, 45: 1, 90: 2}))
        elif what == "empty":
            r = refuse(lambda: m.Image([]))
        elif what == "folder":
            lib.write_tensor(os.path.join(root, "demo"), np.ones((3, 4, 3, 3)))
            os.unlink(os.path.join(root, "demo", f"M{rng.randrange(3)}{rng.randrange(4)}.fits"))
            r = refuse(lambda: m.Demodulator(os.path.join(root, "demo")))
        elif what in ("orientations", "grid", "count"):
            cal = calib.Calib(calib.gen(random.Random(it["seed"]), small=True, binning=False), os.path.join(root, "c"))
            over = {"orientations": dict(polarizer_orientations=[p if p != 45 else 44 for p in cal.pols], normalizing_S=None),
                    "grid": dict(procs_grid=[cal.t.h, 1]), "count": dict(filenames_list=[os.path.join(root, "gone.fits")] + cal.files[1:])}[what]
            r = refuse(lambda: cal.run(os.path.join(root, "out"), **over))
        elif what == "chen":
            from micropolarray.processing import chen_wan_liang_calibration as cw
            lib.write_fits(f, np.ones((4, 4)))
            r = refuse(lambda: cw.calculate_chen_wan_lian_calibration([0, 45, 90, -45], [f, f, f, f + "x"], [0, 45, -45, 90], os.path.join(root, "out"), occulter=False))
        else:
            with open(os.path.join(root, "x.raw"), "wb") as fh:
                fh.write(b"\0" * 9)
            r = refuse(lambda: m.convert_rawfile_to_fits(os.path.join(root, "x.raw"), 4, 4))
        put(what, [r, lib.img_state(img), tree_digest(root)])


def run_program(items, root, vary=None):
    out = []
    for n, it in enumerate(items):
        run_item(it, os.path.join(root, f"p{n}"), out, vary)
    return out

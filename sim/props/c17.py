"""C17: resampling, rotation, shifting and demosaicing are right, in any session."""
import sys

import numpy as np

from .. import lib, model, ops, session

RUNS = {"quick": 2500, "thorough": 30000}
WARM = {"demosaic": ["<f8", "<u2", "<i2"], "ifov": ["<f8", "<u2", "<i2"], "shift": ["<f8"]}
LISTS = ["steps", "tasks", "sched.switches"]
REFUSED = ()
RULE = ("seeded session: images with 0-5 operations behind them, then resampling of arrays and images (congrid in 1 to 3 dimensions, rotation by any angle, binning, shifting, demosaicing, "
        "splitting and merging), some out of memory or interrupted and repeated, with fresh memory filled with garbage, results overwritten and inputs renewed by the caller, other work "
        "in between, or from 2-3 threads; every result compared with an independent interpolation; non-trivial = at least one result judged")
ASSUMPTIONS = ["rotation is nearest-neighbour; pixels whose source lies within 1e-3 pixels of the limit of two pixels are not judged", "congrid is judged for new lengths of two or more"]
STUB = "numpy data allocator, thread scheduler"


def call_spec(rng, world, fn=None):
    h, w = world["h"], world["w"]
    fn = fn or rng.choice(["congrid", "congrid", "image-congrid", "image-congrid", "image-rotate", "image-rotate", "image-rotate", "image-rebin", "image-shift", "demosaic", "demosaic", "split", "merge"])
    c = {"fn": fn}
    if fn in ("congrid", "demosaic", "split", "merge"):
        c["arr"] = rng.randrange(3)
    else:
        c["img"] = rng.randrange(8)
    if fn in ("congrid", "split") and rng.random() < 0.3:
        c["view"] = rng.choice(["T", "T", "flip", "mirror"])
    if fn == "congrid":
        c.update(dims=[rng.choice([2, 3, h // 2, h, h + 1, 2 * h, 31]), rng.choice([2, 3, w // 2, w, w + 1, 2 * w, 31])], ndim=rng.choice([1, 2, 2, 2, 3]))
    elif fn == "image-congrid":
        c.update(dims=[rng.choice([4, 5, h, h + 1, h + 2, 2 * h]), rng.choice([4, 5, w, w + 1, w - 2, 2 * w])])
    elif fn == "image-rotate":
        c.update(angle=rng.choice([0, 90, 180, 270, -90, 360, 450, 45, -45, 10.5, 33.3, -120, 200.25, round(rng.uniform(-400, 400), 3)]))
    elif fn == "image-rebin":
        c.update(n=rng.choice([1, 2, 3, 4]))
    elif fn == "image-shift":
        c.update(yx=[rng.randrange(-3, 4), rng.randrange(-3, 4)], missing=rng.choice([0, 0, -3.5]))
    elif fn == "demosaic":
        c.update(mode=rng.choice(["adjacent", "mean", "spline"]))
    return c


def gen(rng, tier, i):
    return session.gen(rng, call_spec, images=True)


def shrink(scn):
    return session.shrink(scn)


def chosen(c, W):
    imgs = [o for o in W.ops.imgs if ops.usable(o)]
    return imgs[c["img"] % len(imgs)]


def cube(a):
    return np.array([a, a[::-1] * 2.0, a[:, ::-1] + 1.0])


def call(c, W):
    m, fn = W.m, c["fn"]
    if "arr" in c:
        a = session.view(W.arrays[c["arr"]], c)
        if fn == "congrid":
            if c["ndim"] == 2:
                return [m.congrid(a, W.args("dims", c["dims"]))]
            if c["ndim"] == 1:
                return [m.congrid(a[1], W.args("dims", c["dims"][1:]))]
            return [m.congrid(cube(a), W.args("dims", [4] + c["dims"]))]
        if fn == "demosaic":
            return [m.demosaic(a, option=c["mode"])]
        if fn == "split":
            return [m.split_polarizations(a)]
        return [m.merge_polarizations(np.array([a + 0.0, a + 1.0, a + 2.0, a + 3.0]))]
    o = chosen(c, W)
    if fn == "image-congrid":
        r = o.congrid(*c["dims"])
    elif fn == "image-rotate":
        r = o.rotate(c["angle"])
    elif fn == "image-rebin":
        if min(o.data.shape) < 2 * c["n"]:
            return []
        r = o.rebin(c["n"])
    else:
        r = o.shift(*c["yx"], c["missing"])
    return [r.data, *r.Stokes_vec, dict(r.angle_dic), r.single_pol_subimages]


def resize(a, dims):
    """Linear in every dimension, end points kept."""
    a = np.asarray(a, float)
    for axis, n in enumerate(dims):
        old = a.shape[axis]
        pos = np.arange(n) * ((old - 1) / (n - 1))
        lo = np.clip(np.floor(pos).astype(int), 0, old - 2)
        f = (pos - lo).reshape([-1 if k == axis else 1 for k in range(a.ndim)])
        a = np.take(a, lo, axis) * (1 - f) + np.take(a, lo + 1, axis) * f
    return a


def turn(a, angle):
    """Counter-clockwise about the centre, nearest pixel, 0 from outside.  (values, judged)"""
    a = np.asarray(a, float)
    h, w = a.shape
    q = angle % 360
    if q in (0, 180):
        return np.rot90(a, 2 * (q == 180)), np.ones(a.shape, bool)
    if q in (90, 270) and h == w:
        return np.rot90(a, int(q) // 90), np.ones(a.shape, bool)
    yy, xx = np.mgrid[:h, :w] + 0.5
    y, x, t = yy - h / 2, xx - w / 2, np.radians(angle)
    sx, sy = x * np.cos(t) - y * np.sin(t) + w / 2, x * np.sin(t) + y * np.cos(t) + h / 2
    judged = (np.abs(sx - np.round(sx)) > 1e-3) & (np.abs(sy - np.round(sy)) > 1e-3)
    i, j = np.floor(sy).astype(int), np.floor(sx).astype(int)
    inside = (i >= 0) & (i < h) & (j >= 0) & (j < w)
    return np.where(inside, a[np.clip(i, 0, h - 1), np.clip(j, 0, w - 1)], 0.0), judged


def judge(env, c, W, inputs, out):
    fn, same = c["fn"], session.same
    if "arr" in c:
        a = session.view(inputs[c["arr"]], c)
        if fn == "congrid":
            src, dims = (a, c["dims"]) if c["ndim"] == 2 else (a[1], c["dims"][1:]) if c["ndim"] == 1 else (cube(a), [4] + c["dims"])
            scale = np.abs(np.asarray(src, float)).max()
            same(env, c, out[0], resize(src, dims), atol=1e-10 * scale)
        elif fn == "demosaic":
            same(env, c, out[0], model.demosaic(a, c["mode"]), atol=1e-10 * np.abs(np.asarray(a, float)).max())
        elif fn == "split":
            same(env, c, out[0], model.split(a), rtol=0)
        else:
            same(env, c, out[0], model.merge([a + 0.0, a + 1.0, a + 2.0, a + 3.0]), rtol=0)
        return
    o = chosen(c, W)
    if not out:
        return
    M = model.Model(o.data, o.angle_dic)
    M.S = [np.array(s, float) for s in o.Stokes_vec]
    same(env, c, [out[4][k] for k in (0, 45, -45, 90)], [o.angle_dic[k] for k in (0, 45, -45, 90)], what="the orientations")
    scale = np.nanmax(np.abs(np.asarray(o.data, float)), initial=0, where=np.isfinite(o.data))
    if fn == "image-rotate":
        parts = [turn(s, c["angle"]) for s in model.split(o.data)]
        data, ok = model.merge([p[0] for p in parts]), model.merge([p[1] for p in parts]) > 0
        data = data.astype(np.float32).astype(float)
        same(env, c, out[0], data, rtol=1e-6, judged=ok, what="the pixels")
        for k in range(3):
            s, ok = turn(M.S[k], c["angle"])
            with np.errstate(over="ignore"):
                s = s.astype(np.float32).astype(float)
            same(env, c, out[1 + k], s, rtol=1e-6, judged=ok, what=f"Stokes parameter {k}")
    else:
        R = M.congrid(*c["dims"]) if fn == "image-congrid" else M.rebin(c["n"]) if fn == "image-rebin" else M.shift(*c["yx"], c["missing"])
        with np.errstate(all="ignore"):
            same(env, c, out[0], R.data, atol=1e-9 * scale, what="the pixels")
            for k in range(3):
                s = np.abs(np.asarray(o.Stokes_vec[k], float))
                same(env, c, out[1 + k], R.S[k], atol=1e-9 * max(4 * scale, np.nanmax(s, initial=0, where=np.isfinite(s))), what=f"Stokes parameter {k}")
    same(env, c, out[5], model.split(out[0]), rtol=0, what="the single polarization images")


def run(scn, env):
    session.run(scn, env, sys.modules[__name__])

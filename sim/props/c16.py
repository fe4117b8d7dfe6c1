"""C16: regions, occulter masks and the radial filter select the documented pixels, in any session."""
import sys

import numpy as np

from .. import session

RUNS = {"quick": 3000, "thorough": 30000}
LISTS = ["steps", "tasks", "sched.switches"]
REFUSED = ()
NO_ALLOC = ("hough",)  # OpenCV crashes when numpy has no memory
RULE = ("seeded session of calls that select or filter by position (polar, default and linear regions, occulter regions and masks of a camera, radial filter, occulter search), few centres and "
        "sizes so that cached coordinates are reused; some calls out of memory or interrupted and repeated, with fresh memory filled with garbage, results overwritten and inputs renewed "
        "by the caller, other work in between, or from 2-3 threads; every result compared pixel by pixel with the geometry; non-trivial = at least one result judged")
ASSUMPTIONS = ["pixels whose angle is within 1e-7 degrees of an oblique limit are not judged", "polar regions follow superpixels of half-size integer coordinates, as documented",
               "occulter searches are judged on images with a clear occulter, to 2 pixels (5 for the Hough search)"]
STUB = "numpy data allocator, thread scheduler"

THETA = [[0, 360], [0, 90], [90, 180], [180, 270], [30, 200], [300, 350], [10.5, 359.0], [270, 360]]
NEG = [[-45, 45], [-90, 10.5], [-180, 180]]  # not judged themselves


def call_spec(rng, world, fn=None):
    h, w = world["h"], world["w"]
    fn = fn or rng.choice(["roi", "roi", "roi", "nrgf", "nrgf", "line", "ray", "camera", "mask", "occulter", "hough", "nrgf-auto"])
    c = {"fn": fn, "arr": rng.randrange(3)}
    if rng.random() < 0.3:
        c["view"] = rng.choice(["T", "T", "flip", "mirror"])
        if c["view"] == "T":
            h, w = w, h
    centre = rng.choice([[h // 2, w // 2], [h // 2, w // 2], [h // 2 - 1, w // 2 + 1], [rng.randrange(h), rng.randrange(w)]])
    if fn == "roi":
        r = rng.random()
        if r < 0.15:
            centre = [centre[0] + rng.choice([0.5, 0.25]), centre[1] - rng.choice([0, 0.5])]
        elif r < 0.25:  # outside of the image
            centre = [-rng.randrange(1, 9), rng.randrange(w)]
        c.update(centre=rng.choice([None] + [centre] * 4), rho=rng.choice([None] + [[rng.choice([0, 1, 2, 3.5]), rng.choice([4, 6, 9, 50])]] * 5),
                 theta=rng.choice(NEG) if rng.random() < 0.1 else rng.choice([None] + THETA), fill=rng.choice([None, -1.5, 7]), boolean=rng.random() < 0.3, superpixels=rng.choice([True, True, False]))
    elif fn in ("nrgf", "nrgf-auto"):
        c.update(centre=centre, rho_min=rng.choice([0, 1, 3]), step=rng.choice([1, 1, 2, 3]), mean=rng.choice([None] + THETA), out=rng.choice(NEG) if rng.random() < 0.1 else rng.choice([None] + THETA))
    elif fn == "line":
        c.update(start=centre, end=rng.choice([list(centre)] + [[rng.randrange(h), rng.randrange(w)] for _ in range(15)]))
    elif fn == "ray":
        c.update(centre=rng.choice([[h // 2, w // 2], [h // 2, w // 2], [h // 2 - 0.5, w // 2 + 0.25], [h // 4, w // 4]]), theta=rng.choice([0, 90, 180, 270, 45, 30, 200.5]), r=rng.choice([None, [0, 4], [1, 5], [2, 40]]))
    elif fn in ("camera", "mask", "whole-mask"):
        if fn == "mask" and rng.random() < 0.1:
            fn = c["fn"] = "whole-mask"
        c.update(pos=centre + [rng.choice([1, 2, 4])], over=rng.choice([0, 0, 1, 3]), fill=rng.choice([None, -2.0]), rmax=rng.choice([None, 6, 9]))
    if fn in ("occulter", "hough", "nrgf-auto"):
        r = rng.choice([9, 12, 14])
        c.update(size=rng.choice([40, 48, 56]), r=r, off=[rng.randrange(-3, 4), rng.randrange(-3, 4)], method=rng.choice(["sigmoid", "algo"]), seed=rng.getrandbits(20),
                 dtype=rng.choice(["f8", "f8", "f4" if fn != "nrgf-auto" else "f8", "u2", "i4"]), amp=rng.choice([1, 1, 3, 4]))
    return c


def gen(rng, tier, i):
    return session.gen(rng, call_spec)


def shrink(scn):
    return session.shrink(scn)


def scene(c, soft=True):
    """A bright corona around a dark disc."""
    n = c["size"]
    g = np.random.Generator(np.random.PCG64(c["seed"]))
    yy, xx = np.mgrid[:n, :n]
    y, x = n // 2 + c["off"][0], n // 2 + c["off"][1]
    d = np.hypot(yy - y, xx - x)
    a = 1000 / (1 + np.exp(-(d - c["r"]) * 2)) if soft else np.where(d > c["r"], 1000.0, 20.0)
    a = a * c.get("amp", 1) + 10 + g.random((n, n))
    return a.astype(c.get("dtype", "f8")), (y, x, c["r"])


def searched(f, img):
    """The result of a search and whether it left its image as it was."""
    keep = img.copy()
    return f(img) + [np.array_equal(img, keep)]


def call(c, W):
    m, a = W.m, session.view(W.arrays[c["arr"]], c)
    fn = c["fn"]
    if fn == "roi":
        kw = {}
        if c["theta"] is not None:
            kw["theta"] = W.args("theta", c["theta"])
        if c["fill"] is not None:
            kw["fill"] = c["fill"]
        if c["rho"] is not None:
            kw["rho"] = W.args("rho", c["rho"])
        if c["centre"] is not None:
            kw["center"] = W.args("centre", c["centre"])
        return [m.roi_from_polar(a, return_boolean=c["boolean"], include_superpixels=c["superpixels"], **kw)]
    if fn == "nrgf":
        kw = {}
        if c["mean"] is not None:
            kw["phi_to_mean"] = W.args("phi", c["mean"])
        if c["out"] is not None:
            kw["output_phi"] = W.args("phi", c["out"])
        return [m.nrgf(a, *c["centre"], c["rho_min"], c["step"], **kw)]
    if fn == "nrgf-auto":
        return searched(lambda img: [m.nrgf(img, step=c["step"])], scene(c)[0])
    if fn == "line":
        return list(m.linear_roi(a, W.args("start", c["start"]), W.args("end", c["end"])))
    if fn == "ray":
        kw = {} if c["r"] is None else {"r": W.args("r", c["r"])}
        return list(m.linear_roi_from_polar(a, W.args("centre", c["centre"]), c["theta"], **kw))
    if fn in ("camera", "mask"):
        # the same camera again, wherever no other thread can have it
        cam = W.cameras.setdefault((*a.shape, *c["pos"]) if W.threads else "camera", m.PolarCam())
        cam.occulter_pos_last = W.args("pos", c["pos"])
        cam.h_image, cam.w_image = a.shape
        if fn == "camera":
            return [cam.occulter_roi(a, **({} if c["fill"] is None else {"fill": c["fill"]}), overoccult=c["over"])]
        return [cam.occulter_mask(c["over"], c["rmax"])]
    if fn == "whole-mask":
        return [m.PolarCam().occulter_mask(c["over"])]
    if fn == "occulter":
        return searched(lambda img: list(m.find_occulter_position(img, method=c["method"])), scene(c, c["method"] == "sigmoid")[0])
    return searched(lambda img: list(m.find_occulter_hough(img, minr=5, maxr=20)), scene(c, False)[0])


def polar(h, w, y, x):
    yy, xx = np.mgrid[:h, :w]
    return np.hypot(yy - y, xx - x), np.mod(np.degrees(np.arctan2(yy - y, xx - x)), 360)


def sector(phi, lim):
    """(inside, judged)"""
    inside = (phi >= lim[0]) & (phi < lim[1])
    judged = np.ones(phi.shape, bool)
    for b in lim:
        if b % 90:
            judged &= np.abs(phi - b) > 1e-7
        else:  # the four axes are exact
            near = np.abs(phi - b) < 1e-7
            inside = np.where(near, b == lim[0], inside)
    if lim[0] == 0 and lim[1] >= 360:
        inside[:] = True
    return inside, judged


def region(shape, centre, rho, theta, superpixels):
    h, w = shape
    y, x = [h // 2, w // 2] if centre is None else centre
    lo, hi = [0, min(h - y, w - x)] if rho is None else rho
    if superpixels:
        h, w, y, x, lo, hi = h // 2, w // 2, int(y / 2), int(x / 2), int(lo / 2), int(hi / 2)
    d, phi = polar(h, w, y, x)
    s, judged = sector(phi, theta or [0, 360])
    s = s & (d > lo) & (d <= hi)
    if superpixels:
        s, judged = [np.kron(v, np.ones((2, 2), bool)) for v in (s, judged)]
    return s, judged


def rings(a, y, x, rho_min, step, mean, out):
    """Each ring without its mean, in units of its deviation.  (values, judged)"""
    d, phi = polar(*a.shape, y, x)
    use, j1 = sector(phi, mean or [0, 360])
    show, j2 = sector(phi, out or [0, 360])
    val, ok = np.zeros(a.shape), np.ones(a.shape, bool)
    a = a.astype(float)
    for r in range(rho_min, int(d.max()), step):
        ring = (d > r) & (d <= r + step)
        v = a[ring & use]
        if (ring & ~j1).any() or v.size and 0 < v.std() < 1e-9 * np.abs(v).max():
            ok[ring] = False  # a pixel at the limit counts or not
        elif v.size and v.std() > 0:
            val[ring & show] = ((a - v.mean()) / v.std())[ring & show]
    return val, ok & j2


def judge(env, c, W, inputs, out):
    a, fn = session.view(inputs[c["arr"]], c), c["fn"]
    same = session.same
    if fn in ("roi", "nrgf") and any(lim and lim[0] < 0 for lim in (c.get("theta"), c.get("out"))):
        return  # whether negative angles are those below 360 is not documented
    if fn in ("occulter", "hough", "nrgf-auto"):
        env.check(bool(out[-1]), "changed-arguments", lambda: f"{session.describe(c)} changed the image")
    if fn == "roi":
        s, judged = region(a.shape, c["centre"], c["rho"], c["theta"], c["superpixels"])
        want = s if c["boolean"] else np.where(s, a, 0.0 if c["fill"] is None else c["fill"])
        same(env, c, out[0], want, rtol=0, judged=judged, what="the region")
    elif fn == "nrgf":
        want, judged = rings(a, *c["centre"], c["rho_min"], c["step"], c["mean"], c["out"])
        same(env, c, out[0], want, rtol=1e-7, atol=1e-7, judged=judged, what="the filtered image")
    elif fn == "nrgf-auto":
        img, (y, x, r) = scene(c)
        # the filter uses the occulter it found
        fy, fx, fr = W.m.find_occulter_position(img)
        want, judged = rings(img, int(fy), int(fx), fr, c["step"], None, None)
        same(env, c, out[0], want, rtol=1e-7, atol=1e-7, judged=judged, what="the filtered image")
        env.check(max(abs(fy - y), abs(fx - x), abs(fr - r)) <= 2, "wrong-result", lambda: f"{session.describe(c)}: occulter {fy, fx, fr} instead of {y, x, r}")
    elif fn == "line":
        ys, xs, v = [np.asarray(o) for o in out]
        on_line(env, c, ys, xs, c["start"], c["end"])
        same(env, c, v, a[ys, xs], rtol=0, what="the values on the line")
    elif fn == "ray":
        v, ys, xs = [np.asarray(o) for o in out[:3]]
        y, x = c["centre"]
        env.check(bool((ys >= 0).all() and (xs >= 0).all()), "wrong-result", lambda: f"{session.describe(c)}: goes on at the other side of the image: {list(zip(ys, xs))}")
        same(env, c, v, a[ys, xs], rtol=0, what="the values on the line")
        lo, hi = c["r"] or [0, 1e18]
        d = np.hypot(ys - y, xs - x)
        env.check(v.size > 0 and d[0] <= lo + 2, "wrong-result", lambda: f"{session.describe(c)}: begins {d[0]:.2f} pixels from the centre")
        env.check(bool((d <= hi + 1.6).all()), "wrong-result", lambda: f"{session.describe(c)}: reaches {d.max():.2f} pixels")
        t = np.radians(c["theta"])
        along, across = (xs - x) * np.cos(t) - (ys - y) * np.sin(t), (xs - x) * np.sin(t) + (ys - y) * np.cos(t)
        env.check(bool((along >= -1.5).all()) and bool((np.abs(across) <= 2).all()), "wrong-result", lambda: f"{session.describe(c)}: is not in the direction asked for: {list(zip(ys, xs))}")
        edge = min([b for b in ((a.shape[1] - 1 - x) / np.cos(t) if np.cos(t) > 1e-6 else 1e9, -(x - 1) / np.cos(t) if np.cos(t) < -1e-6 else 1e9,
                                (y - 1) / np.sin(t) if np.sin(t) > 1e-6 else 1e9, -(a.shape[0] - 1 - y) / np.sin(t) if np.sin(t) < -1e-6 else 1e9)])
        env.check(along.max() >= min(hi - 1, edge) - 3, "wrong-result", lambda: f"{session.describe(c)}: ends {along.max():.2f} pixels from the centre instead of {min(hi, edge):.2f}")
        env.check((0.3 if len(ys) > 2 else 0) <= out[3] < 1.5, "wrong-result", lambda: f"{session.describe(c)}: {out[3]} pixels per element")
    elif fn in ("camera", "mask"):
        y, x, r = c["pos"]
        if fn == "camera":
            s, judged = region(a.shape, [y, x], [r + c["over"], 5000], None, True)
            same(env, c, out[0], np.where(s, a, 0.0 if c["fill"] is None else c["fill"]), rtol=0, judged=judged, what="the region around the occulter")
        else:
            s, judged = region(a.shape, [y, x], [r + c["over"], min(y, x) if c["rmax"] is None else c["rmax"]], None, True)
            same(env, c, out[0], s, judged=judged, what="the occulter mask")
    elif fn == "whole-mask":
        s, judged = region((1952, 1952), [919, 941], [536 + c["over"], 919], None, True)
        same(env, c, out[0], s, judged=judged, what="the occulter mask of the camera")
    else:
        y, x, r = scene(c)[1]
        tol = 2 if fn == "occulter" else 5
        env.check(max(abs(out[0] - y), abs(out[1] - x), abs(out[2] - r)) <= tol, "wrong-result", lambda: f"{session.describe(c)}: occulter {tuple(out)} instead of {y, x, r}")


def on_line(env, c, ys, xs, start, end):
    (y1, x1), (y2, x2) = start, end
    what = session.describe(c)
    env.check(len(ys) == len(xs) and (ys[0], xs[0]) == (y1, x1), "wrong-result", lambda: f"{what}: the line does not begin at its start")
    n = max(abs(y2 - y1), abs(x2 - x1))
    t = np.arange(len(ys)) / max(n, 1)
    off = np.maximum(np.abs(ys - (y1 + t * (y2 - y1))), np.abs(xs - (x1 + t * (x2 - x1))))
    env.check(bool((off <= 1).all()), "wrong-result", lambda: f"{what}: the line is {off.max():.2f} pixels off")
    env.check(len(ys) == n + 1, "wrong-result", lambda: f"{what}: the line has {len(ys)} points for {n} steps")


def run(scn, env):
    session.run(scn, env, sys.modules[__name__])

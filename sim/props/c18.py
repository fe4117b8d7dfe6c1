"""C18: unit, angle, keyword, normalisation and statistics helpers give the documented values, in any session."""
import sys

import numpy as np

from .. import session
from ..lib import angle_dics
from ..model import contrast, merge, split, theory

RUNS = {"quick": 3000, "thorough": 30000}
LISTS = ["steps", "tasks", "sched.switches"]
REFUSED = ()
RULE = ("seeded session of calls of the helpers (solar units, normalisation of angles, alignment of keywords with turned data, Malus normalisation, robust statistics, thresholds, trimming, "
        "polarization formulas), some out of memory or interrupted and repeated, with fresh memory filled with garbage, results overwritten and inputs renewed by the caller, other work "
        "in between, or from 2-3 threads; every result compared with an independent formula; non-trivial = at least one result judged")
ASSUMPTIONS = ["alignment of keywords is judged for square images", "Malus normalisation is judged where the peak of the histogram is wide enough to be fitted",
               "angles within 1e-9 of the limits of the range, but not exactly there, are judged modulo 180 degrees only"]
STUB = "numpy data allocator, thread scheduler"

FN = ["bsun", "degrees", "degrees", "radians", "align", "align", "malus", "mean", "median", "sigma", "otsu", "outliers", "trim", "clip", "angle", "degree", "brightness", "hot"]


def call_spec(rng, world, fn=None):
    fn = fn or rng.choice(FN)
    c = {"fn": fn, "arr": rng.randrange(3)}
    if rng.random() < 0.3:
        c["view"] = rng.choice(["T", "flip", "mirror"])
    if fn == "bsun":
        c.update(v=[round(rng.uniform(1, 5000), 3), rng.choice([1.0, 0.5, 7.25, 30]), rng.choice([1.0, 0.1, 4.5, 12])], n=rng.randrange(1, 4))
    elif fn == "degrees":
        c.update(v=[rng.choice([0, 90, -90, 180, -180, 270, 450, 89.5, 90.5, -90.5, rng.randrange(-1000, 1000), round(rng.uniform(-700, 700), 4)]) for _ in range(rng.randrange(1, 6))],
                 scalar=rng.random() < 0.3, where=rng.choice(["utils", "pf"]))
    elif fn == "radians":
        c.update(scale=rng.choice([1.0, 3.0, 12.0]), seed=rng.getrandbits(20), limits=rng.random() < 0.4)
    elif fn == "align":
        c.update(sun=[round(rng.uniform(100, 1800), 2), round(rng.uniform(100, 1800), 2)], scale=rng.choice([4.3, 2.15, 1.0]), binning=rng.choice([1, 1, 2, 4]), kind=rng.choice(["dict", "fits"]))
    elif fn == "malus":
        c.update(seed=rng.getrandbits(20), mu=rng.choice([1000.0, 3000.0]), s=rng.choice([3.0, 4.5]))
    elif fn in ("mean", "median"):
        c.update(n=rng.choice([None, 1, 2, 0.5, 3]), sign=rng.choice([-1, 1]))
    elif fn == "otsu":
        c.update(seed=rng.getrandbits(20), lo=rng.choice([10, 50]), hi=rng.choice([120, 400]), y=rng.randrange(11, 15))
    elif fn == "outliers":
        c.update(m=rng.choice([None, 2.0, 1.0, 3.5]), const=rng.random() < 0.1)
    elif fn == "trim":
        c.update(h=rng.randrange(4, 60), w=rng.randrange(4, 60), n=rng.choice([1, 2, 3, 4]), verbose=rng.random() < 0.5)
    elif fn == "hot":
        c.update(t=rng.choice([None, 0.05137, 0.21371, 0.5003]), ang=rng.randrange(4))
    elif fn == "sigma":
        c.update(dn=rng.choice([0, 1, 0.04, 0.5, rng.randrange(5000), round(rng.uniform(0, 4000), 3)]))
    elif fn in ("angle", "degree", "brightness"):
        c.update(bad=rng.random() < 0.3)
    elif fn == "clip":
        c.update(lim=rng.choice([[0, 50], [10.5, 20], [None, 5], [3, None], [-5, 1000]]))
    return c


def gen(rng, tier, i):
    return session.gen(rng, call_spec)


def shrink(scn):
    return session.shrink(scn)


def header(c):
    d = {"NAXIS1": 7, "NAXIS2": 5, "DATE-OBS": "2022-01-03", "TIME-OBS": "05:06:07", "EXPTIME": 3.5}
    if c["kind"] == "dict":
        return d
    from astropy.io import fits
    h = fits.Header()
    for k, v in d.items():
        h[k] = v
    return h


def angles(c):
    g = np.random.Generator(np.random.PCG64(c["seed"]))
    a = g.uniform(-1, 1, (4, 5)) * np.pi * c["scale"]
    if c["limits"]:
        a[0, :4] = [np.pi / 2, -np.pi / 2, 0, np.pi]
        a[1, 0] = np.nan
    return a


def peaks(c):
    """Four exposures whose sum is a narrow peak between far outliers."""
    g = np.random.Generator(np.random.PCG64(c["seed"]))
    S = g.normal(2 * c["mu"], 2 * c["s"], (70, 70))
    S[0, :2] = [2 * c["mu"] - 1000, 2 * c["mu"] + 1000]
    f = g.dirichlet([5, 5, 5, 5], (70, 70))
    return np.moveaxis(f, 2, 0) * S


def population(c):
    g = np.random.Generator(np.random.PCG64(c["seed"]))
    a = g.normal(c["lo"], 3, (26, 24))
    a[c["y"]:] = g.normal(c["hi"], 5, (26 - c["y"], 24))
    return a


def stokes(a, bad=False):
    """Three components: no intensity in some pixels, no polarization in others, an invalid or saturated intensity if bad."""
    a = a.astype(float)
    I, Q, U = a.copy(), np.roll(a, 1, 0) - 3.0, np.roll(a, 1, 1) * -0.5
    I[0, :3] = 0
    Q[1, :3] = U[1, :3] = 0
    if bad:
        I[2, :2] = np.nan, np.inf
    return np.array([I, Q, U])


def call(c, W):
    m, a, fn = W.m, session.view(W.arrays[c["arr"]], c), c["fn"]
    from micropolarray import polarization_functions as pf
    from micropolarray import utils
    from micropolarray.processing import image_cleaning
    if fn == "bsun":
        return [m.get_Bsun_units(*c["v"][:c["n"]])]
    if fn == "degrees":
        f = m.normalize2pi if c["where"] == "utils" else pf.normalize2pi
        return [f(c["v"][0] if c["scalar"] else W.args("angles", c["v"]))]
    if fn == "radians":
        v = angles(c)
        keep = v.copy()
        out = m.normalize2piarray(v)
        return [out, np.array_equal(v, keep, equal_nan=True)]
    if fn == "align":
        n = min(a.shape)
        h = header(c)
        h, data = m.align_keywords_and_data(h, a[:n, :n], W.args("sun", c["sun"]), c["scale"], **({} if c["binning"] == 1 else {"binning": c["binning"]}))
        return [{k: h[k] for k in h.keys()}, data]
    if fn == "malus":
        v = peaks(c)
        keep = v.copy()
        return [m.get_malus_normalization(v), np.array_equal(v, keep)]
    if fn in ("mean", "median"):
        f = getattr(m, f"{fn}_{'plus' if c['sign'] > 0 else 'minus'}_std")
        return [f(a) if c["n"] is None else f(a, c["n"])]
    if fn == "sigma":
        return [m.sigma_DN(np.abs(a.astype(float))), m.sigma_DN(c["dn"])]
    if fn == "otsu":
        v = population(c)
        keep = v.copy()
        return [m.auto_threshold(v), np.array_equal(v, keep)]
    if fn == "outliers":
        v = a[1] * 0 + 4 if c["const"] else a[1]
        return [image_cleaning.reject_outliers(v) if c["m"] is None else image_cleaning.reject_outliers(v, c["m"])]
    if fn == "trim":
        return [m.trim_to_match_binning(c["h"], c["w"], c["n"], verbose=c["verbose"])]
    if fn == "hot":
        im = m.MicropolImage(np.array(a), angle_dic=dict(angle_dics()[c["ang"]]))
        hot = m.get_hot_pixels(im) if c["t"] is None else m.get_hot_pixels(im, c["t"])
        return [hot.data, np.array_equal(im.data, a), np.array(hot.Stokes_vec), dict(hot.angle_dic)]
    if fn == "clip":
        return [np.array(utils.fix_data(a, *c["lim"]))]  # may be its argument
    S = stokes(a, c["bad"])
    keep = S.copy()
    out = {"angle": pf.AoLP, "degree": pf.DoLP, "brightness": pf.pB}[fn](S)
    return [out, np.array_equal(S, keep, equal_nan=True)]


def judge(env, c, W, inputs, out):
    a, fn, same = session.view(inputs[c["arr"]], c), c["fn"], session.same
    f = a.astype(float)

    def kept(what="its argument"):
        env.check(bool(out[1]), "changed-arguments", lambda: f"{session.describe(c)} changed {what}")
    if fn == "bsun":
        i, t, d = (c["v"][:c["n"]] + [1.0, 1.0])[:3]
        same(env, c, out[0], 0.28 * 1.083e-5 * d / (i * t))
    elif fn == "degrees":
        v = np.array(c["v"][:1] if c["scalar"] else c["v"], float)
        turned(env, c, np.array(out[0], float), v, 180.0, 1e-9)
    elif fn == "radians":
        turned(env, c, out[0], angles(c), np.pi, 1e-9)
        kept()
    elif fn == "align":
        n = min(a.shape)
        same(env, c, out[1], merge([np.flip(np.rot90(s, -1), 0) for s in split(a[:n, :n])]), rtol=0, what="the turned image")
        y, x = c["sun"]
        want = {"NAXIS1": n, "NAXIS2": n, "DATE-OBS": "2022-01-03T05:06:07", "TIME-OBS": "05:06:07", "EXPTIME": 3.5, "WCSNAME": "helioprojective-cartesian", "CTYPE1": "HPLN-TAN",
                "CTYPE2": "HPLT-TAN", "CUNIT1": "arcsec", "CUNIT2": "arcsec", "CRVAL1": 0, "CRVAL2": 0, "CROTA2": -9, "CDELT1": c["scale"] * c["binning"], "CDELT2": c["scale"] * c["binning"]}
        for k, v in want.items():
            got = out[0].get(k)
            env.check(got == v or isinstance(v, float) and abs(got - v) < 1e-12 * abs(v), "wrong-result", lambda: f"{session.describe(c)}: keyword {k} is {got!r} instead of {v!r}")
        for k, p in (("CRPIX1", y), ("CRPIX2", x)):
            p = n * p / 1952
            ok = {n - int(p)} if abs(p - round(p)) > 1e-6 else {n - round(p), n - round(p) + 1}
            env.check(out[0].get(k) in ok, "wrong-result", lambda: f"{session.describe(c)}: keyword {k} is {out[0].get(k)!r} instead of {ok}")
    elif fn == "malus":
        want = malus(peaks(c))
        if want is not None:
            env.check(abs(out[0] - want[0]) <= 0.02 * want[1], "wrong-result", lambda: f"{session.describe(c)}: {out[0]} instead of {want[0]}")
        kept()
    elif fn in ("mean", "median"):
        n = (1 if c["n"] is None else c["n"]) * c["sign"]
        mid = f.mean() if fn == "mean" else np.median(f)
        dev = np.sqrt(((f - mid) ** 2).mean()) if fn == "mean" else np.median(np.abs(f - mid))
        same(env, c, out[0], mid + n * dev, rtol=1e-9, atol=1e-9 * np.abs(f).max())
    elif fn == "sigma":
        same(env, c, out[0], np.sqrt(np.abs(f) / 6.93))
        same(env, c, out[1], np.sqrt(c["dn"] / 6.93), what="result for one pixel")
    elif fn == "otsu":
        otsu(env, c, out[0])
        kept()
    elif fn == "outliers":
        v = f[1] * 0 + 4 if c["const"] else f[1]
        d = np.abs(v - np.median(v))
        s = np.median(d)
        m = 2.0 if c["m"] is None else c["m"]
        r = d / s if s else d * 0
        if not (np.abs(r - m) < 1e-9).any():
            same(env, c, out[0], v[r < m], rtol=0)
    elif fn == "trim":
        same(env, c, list(out[0]), [c["h"] - c["h"] % c["n"], c["w"] - c["w"] % c["n"]], rtol=0)
    elif fn == "hot":
        r, t = contrast(a), 100 if c["t"] is None else c["t"]
        env.check(np.shape(out[0]) == r.shape, "wrong-result", lambda: f"{session.describe(c)}: the map has shape {np.shape(out[0])} instead of {r.shape}")
        clear = (np.abs(r - t) > 1e-9) & ~np.isinf(r)  # no sum of opposite values
        same(env, c, out[0], (r > t) * 1.0, rtol=0, judged=clear, what="the map of hot pixels")
        same(env, c, out[2], theory(split(out[0]), angle_dics()[c["ang"]]), rtol=0, what="the polarization of the map")
        env.check(out[3] == angle_dics()[c["ang"]], "wrong-result", lambda: f"{session.describe(c)}: the map has the orientations {out[3]}")
        kept("its image")
    elif fn == "clip":
        lo, hi = c["lim"]
        same(env, c, out[0], f if lo is None or hi is None else np.minimum(np.maximum(f, lo), hi), rtol=0)
    else:
        I, Q, U = stokes(a, c["bad"])
        p = np.hypot(Q, U)
        want = 0.5 * np.arctan2(U, Q) if fn == "angle" else p if fn == "brightness" else np.divide(p, I, out=np.zeros_like(p), where=I != 0)
        same(env, c, out[0], want)
        kept()


def turned(env, c, got, v, period, tol):
    """got is v by whole periods, in (-period / 2, period / 2]."""
    env.check(got.shape == v.shape, "wrong-result", lambda: f"{session.describe(c)}: {got.shape} values instead of {v.shape}")
    ok = np.isfinite(v)
    env.check(bool((np.isfinite(got) == ok).all()), "wrong-result", lambda: f"{session.describe(c)}: {got} instead of {v}")
    got, v = got[ok], v[ok]
    n = (v - got) / period
    bad = (np.abs(n - np.round(n)) > tol) | (got > period / 2 + tol) | (got < -period / 2 - tol)
    exact = v == np.round(v)  # exactly representable: which limit is included is visible
    if period == 180.0:
        bad |= exact & (got == -90)
    else:  # a limit that is given is exact, too
        bad |= (np.abs(v) == np.pi / 2) & (got <= -np.pi / 2)
    env.check(not bad.any(), "wrong-result", lambda: f"{session.describe(c)}: {got} is not {v} normalized")


def malus(four):
    """Centre of the peak of the summed signal plus four widths: (value, width), or None if the peak cannot be fitted."""
    from scipy.optimize import least_squares
    S = 0.5 * four.sum(axis=0)
    n, e = np.histogram(S, bins=1000)
    k = int(np.argmax(n))
    if k < 10 or k + 10 > 1000 or (n == n.max()).sum() > 1:
        return None
    x, y = (e[:-1] + np.diff(e) / 2)[k - 10:k + 10], n[k - 10:k + 10] / n[k - 10:k + 10].sum()
    b = e[1] - e[0]
    fits = []
    for x0, s in ((x[10], 5 * b), (x[10] - 2 * b, 2 * b), (x[10] + 2 * b, 3 * b)):
        r = least_squares(lambda p: p[0] * np.exp(-(((x - x[10]) / b - p[1]) ** 2) / (4 * p[2] ** 2)) - y, [y.max(), (x0 - x[10]) / b, s / b], xtol=1e-13, ftol=1e-13, gtol=1e-13)
        fits.append((r.cost, x[10] + b * (r.x[1] + 4 * abs(r.x[2])), b * abs(r.x[2])))
    if max(f[1] for f in fits) - min(f[1] for f in fits) > 1e-3 * b or fits[0][2] < b or fits[0][2] > 8 * b:
        return None
    return fits[0][1], fits[0][2]


def otsu(env, c, t):
    import scipy.ndimage
    v = scipy.ndimage.median_filter(population(c), size=10).ravel()

    def objective(th):
        return sum((k.size / v.size) * k.var() for k in (v[v >= th], v[v < th]) if k.size)
    cand = np.linspace(v.min() + 1, v.max(), min(v.size, 1000))
    best = min(objective(x) for x in cand)
    env.check(v.min() < t <= v.max() + 1e-9 and objective(t) <= best * (1 + 1e-9) + 1e-12, "wrong-result", lambda: f"{session.describe(c)}: threshold {t} has variance {objective(t)} instead of {best}")


def run(scn, env):
    session.run(scn, env, sys.modules[__name__])

"""C15: the errors reported for an image follow linear propagation, wherever they are asked for."""
import numpy as np

from .. import session
from ..model import split

RUNS = {"quick": 2500, "thorough": 30000}
WARM = {"demosaic": ["<f8", "<u2", "<i2"], "ifov": ["<f8", "<u2", "<i2"], "shift": ["<f8"]}
LISTS = ["steps", "tasks", "sched.switches"]
REFUSED = ()
RULE = ("seeded session: images with 0-5 operations behind them (corrections, demodulation, turned demodulators), then calls that propagate pixel errors through a demodulator for one "
        "of them, some out of memory or interrupted and repeated, with fresh memory filled with garbage, results overwritten and inputs renewed by the caller, other work in "
        "between, or from 2-3 threads; every result compared with the propagation formulas; non-trivial = at least one result judged")
ASSUMPTIONS = ["errors of angle, degree and polarized brightness are judged where intensity and polarized brightness are not zero"]
STUB = "numpy data allocator, thread scheduler"


def call_spec(rng, world, fn=None):
    fn = fn or rng.choice(["errors", "errors", "errors", "direct"])
    if fn == "direct":
        return {"fn": fn, "what": rng.choice(["pB", "DoLP", "AoLP"]), "S": [rng.randrange(3) for _ in range(3)], "sigma": [rng.randrange(3) for _ in range(3)]}
    c = {"fn": "errors", "img": rng.randrange(8), "err": rng.randrange(3), "demod": rng.randrange(2)}
    r = rng.random()
    if r < 0.3:
        c["view"] = rng.choice(["flip", "mirror"] + ["T"] * (world["h"] == world["w"]))
    return c


def gen(rng, tier, i):
    return session.gen(rng, call_spec, images=True)


def shrink(scn):
    return session.shrink(scn)


def chosen(c, W):
    half = (W.h // 2, W.w // 2)
    imgs = [o for o in W.ops.imgs if o.data.shape == (W.h, W.w) and np.shape(o.Stokes_vec[0]) == half]
    ds = [d for d in W.ops.demods if d.mij.shape[2:] == half]
    return (imgs[c["img"] % len(imgs)], ds[c["demod"] % len(ds)]) if imgs and ds else None


def call(c, W):
    if c["fn"] == "direct":
        from micropolarray.processing import demodulation_errors as d
        S, sigma = [[W.arrays[k] if W.arrays[k].dtype.kind == "f" else np.array(W.arrays[k], float) for k in c[key]] for key in ("S", "sigma")]
        return [getattr(d, "get_error_on_" + c["what"])(S, sigma)]
    got = chosen(c, W)
    if got is None:
        return []
    e = W.m.MicropolImageError(got[0], session.view(W.arrays[c["err"]], c), got[1])
    return [e.sigma_S, e.sigma_pB, e.sigma_DoLP, e.sigma_AoLP]


def judge(env, c, W, inputs, out):
    if c["fn"] == "direct":
        S, v = [np.asarray(inputs[k], float) for k in c["S"]], [np.asarray(inputs[k], float) ** 2 for k in c["sigma"]]
        return propagated(env, c, S, v, {c["what"]: out[0]})
    got = chosen(c, W)
    if got is None:
        return
    img, dem = got
    err, M = split(session.view(inputs[c["err"]], c)), np.asarray(dem.mij, float)
    var = np.zeros((3,) + err.shape[1:])
    for i in range(3):
        for j in range(4):
            var[i] += (M[i, j] * err[j]) ** 2
    session.same(env, c, out[0], np.sqrt(var), what="the error of the Stokes parameters")
    propagated(env, c, img.Stokes_vec, var, {"pB": out[1], "DoLP": out[2], "AoLP": out[3]})


def propagated(env, c, S, var, out):
    I, Q, U = [np.asarray(s, float) for s in S]
    vI, vQ, vU = var
    p2 = Q * Q + U * U
    with np.errstate(all="ignore"):
        num = Q * Q * vQ + U * U * vU
        judged = np.isfinite(p2) & (p2 > 1e-200) & np.isfinite(I) & (p2 < 1e200)
        for k, got in out.items():
            if k == "pB":
                session.same(env, c, got, np.sqrt(num / p2), what="the error of the polarized brightness", judged=judged)
            elif k == "DoLP":
                session.same(env, c, got, np.sqrt(num / (I * I * p2) + p2 * vI / I ** 4), what="the error of the degree of polarization", rtol=1e-8, judged=judged & (np.abs(I) > 1e-60))
            else:
                session.same(env, c, got, np.sqrt(Q * Q * vU + U * U * vQ) / (2 * p2), what="the error of the angle of polarization", rtol=1e-8, judged=judged)


def run(scn, env):
    import sys
    session.run(scn, env, sys.modules[__name__])

"""C10: an operation that fails leaves every image as it was, and can be repeated."""
import os
import random

import numpy as np

from .. import lib, native, ops
from ..lib import Seam
from ..ops import World

RUNS = {"quick": 1200, "thorough": 40000}
WARM = {"demosaic": ["<f8", "<u2", "<i2"], "ifov": ["<f8", "<u2", "<i2"], "shift": ["<f8"]}
LISTS = ["prefix", "at"]
RULE = ("seeded scenario: a pool of images with 0-4 operations behind them, then one operation that runs out of memory at a drawn allocation (several allocations "
        "per run, each on a freshly rebuilt pool) or is given an unfit operand; after a failure every object must be bitwise what it was and the same operation, "
        "repeated without the fault, must give bitwise what a run without faults gives; when it reports success although an allocation failed, the same; "
        "non-trivial = at least one fault fired and was judged")
ASSUMPTIONS = ["asynchronous interrupts (signals) of in-place operations are not judged", "allocations inside compiled numba kernels do not fail"]
STUB = "numpy data allocator (fails at the drawn allocation), libc file calls (simio.so)"

BAD = ["dark-shape", "flat-shape", "dark-none", "demod-size", "demosaic-mode", "rebin-zero", "rebin-negative", "arith-shape", "mask-none", "rotate-type", "clean-shape",
       "ctor-angles", "ctor-dark-shape", "ctor-flat-shape", "ctor-missing", "param-name", "save-ext", "pols-ext", "params-ext", "demo-not-done", "demod-none", "flat-type", "ctor-odd"]
ODD_TYPES = ["dark-none", "flat-type", "demod-none", "mask-none", "rotate-type", "ctor-odd"]  # may be given a meaning


def gen(rng, tier, i):
    w = ops.gen_world(rng, 10, n=rng.randrange(2, 4))
    prefix = [ops.gen_op(rng, ops.INPLACE + ops.RESULT + ops.TURN) for _ in range(rng.randrange(0, 5))]
    scn = {"world": w, "prefix": prefix}
    if rng.random() < 0.7:
        name = rng.choice(ops.INPLACE * 3 + ops.RESULT + ops.TURN + ["params", "pols", "funcs"])
        scn["op"] = ops.gen_op(rng, [name])
        scn["at"] = sorted({round(rng.random(), 4) for _ in range(rng.randrange(1, 6))})
        if rng.random() < 0.15:
            scn["at2"] = round(rng.random(), 3)
    else:
        scn["bad"] = rng.choice(BAD)
        scn["k"] = rng.randrange(8)
    return scn


def shrink(scn):
    if len(scn["world"]["dtypes"]) > 1:
        yield dict(scn, world=dict(scn["world"], dtypes=scn["world"]["dtypes"][:-1]))
    if any(d != "<f8" for d in scn["world"]["dtypes"]):
        yield dict(scn, world=dict(scn["world"], dtypes=["<f8"] * len(scn["world"]["dtypes"])))
    if (scn["world"]["h"], scn["world"]["w"]) != (4, 4):
        yield dict(scn, world=dict(scn["world"], h=4, w=4))
    if "at2" in scn:
        yield {k: v for k, v in scn.items() if k != "at2"}


def build(scn, env, n):
    W = World(scn["world"], os.path.join(env.root, f"w{n}"))
    for op in scn["prefix"]:
        r = ops.execute(op, W)
        if r:
            for o in r[1]:
                (W.imgs if isinstance(o, lib.ml().MicropolImage) else W.plain).append(o)
    # an in-place operation returns its image: keep each once
    for pool in (W.imgs, W.plain):
        pool[:] = [o for k, o in enumerate(pool) if not any(o is p for p in pool[:k])]
    return W


def states(W):
    return ([lib.img_state(o) for o in W.imgs + W.plain] + [lib.demod_state(d) for d in W.demods] + [{"array": lib.adig(a)} for a in W.arrays])


def result(r):
    """What an operation gave, bitwise."""
    m = lib.ml()
    return None if r is None else [lib.img_state(o) if isinstance(o, m.Image) else repr(o) for o in r[1]] + [lib.adig(v) for v in r[2]]


def bad_call(scn, W, root):
    """(description, callable that must raise or refuse) for an unfit operand."""
    m, bad, k = lib.ml(), scn["bad"], scn["k"]
    a = W.imgs[k % len(W.imgs)]
    h, w = a.data.shape
    other = m.MicropolImage(np.ones((h + 2, w + 4)), angle_dic=lib.CAMERA)
    arr = np.array(a.data, float)

    def small_demod():
        d = m.Demodulator(os.path.join(W.root, "demod0"))
        d.mij = np.ones((3, 4, h // 2 + 1, w // 2 + 2))
        if d.fit_found_flags is not None:
            d.fit_found_flags = np.ones((h // 2 + 1, w // 2 + 2))
        return d
    out = os.path.join(root, "nowhere")
    return {
        "dark-shape": lambda: a.subtract_dark(other), "flat-shape": lambda: a.correct_flat(other), "dark-none": lambda: a.subtract_dark(None),
        "flat-type": lambda: a.correct_flat("flat"), "demod-size": lambda: a.demodulate(small_demod()), "demod-none": lambda: a.demodulate(None),
        "demosaic-mode": lambda: a.demosaic("nearest"), "rebin-zero": lambda: a.rebin(0), "rebin-negative": lambda: a.rebin(-2),
        "arith-shape": lambda: [a + other, a - other, a * other, a / other][k % 4], "mask-none": lambda: a.mask_occulter(None, 3, 2),
        "rotate-type": lambda: a.rotate("quarter"), "clean-shape": lambda: a.clean_hot_pixels(other),
        "ctor-angles": lambda: m.MicropolImage(arr, angle_dic={0: 0, 45: 1}),
        "ctor-dark-shape": lambda: m.MicropolImage(a, dark=other), "ctor-flat-shape": lambda: m.MicropolImage(arr, flat=other, angle_dic=lib.CAMERA),
        "ctor-missing": lambda: m.MicropolImage(os.path.join(root, "missing.fits")), "ctor-odd": lambda: m.MicropolImage(np.ones((5, 7)), angle_dic=lib.CAMERA),
        "param-name": lambda: a.save_param_as_fits("V", os.path.join(root, "x.fits")), "save-ext": lambda: a.save_as_fits(os.path.join(root, "x.txt")),
        "pols-ext": lambda: a.save_single_pol_images(os.path.join(root, "x.png")), "params-ext": lambda: a.save_all_pol_params_as_fits(out + ".fit"),
        "demo-not-done": lambda: m.MicropolImage(arr, angle_dic=lib.CAMERA).save_demosaiced_images_as_fits(os.path.join(root, "x.fits")),
    }[bad]


def run(scn, env):
    if "bad" in scn:
        W = build(scn, env, 0)
        fn = bad_call(scn, W, env.root)
        before, files = states(W), lib.tree(env.root)
        exc = None
        try:
            fn()
        except Exception as e:
            exc = e
        env.ops["bad_" + scn["bad"]] += 1
        env.faults["unfit_operand"] += 1
        env.note(scn["bad"], type(exc).__name__)
        env.check(exc is not None or scn["bad"] in ODD_TYPES, "accepted", f"the operation with an unfit operand ({scn['bad']}) returned normally")
        now = states(W)
        bad = [k for k in range(len(before)) if before[k] != now[k]]
        env.check(not bad, "changed-by-failure", lambda: f"{scn['bad']} raised {type(exc).__name__} but changed object {bad[0]}: {lib.state_diff(before[bad[0]], now[bad[0]])}")
        d = lib.tree_diff(files, lib.tree(env.root))
        env.check(not d, "changed-by-failure", lambda: f"{scn['bad']} raised {type(exc).__name__} but changed files: {d}")
        # the images still work
        for op in ({"op": "demosaic", "mode": "mean"}, {"op": "params"}, {"op": "rebin", "n": 1}):
            ops.execute(dict(op, a=scn["k"], b=0, s=0), W)
        return
    op = scn["op"]
    ref = build(scn, env, 0)
    pre = states(ref)
    native.use_sim_allocator()
    native.alloc(True, minsize=64)
    r = ops.execute(op, ref)
    n = native.L.sim_alloc_count()
    native.alloc(False)
    if r is None:
        return
    want, post = result(r), states(ref)
    env.note(op["op"], n, "allocations")
    for k, at in enumerate(scn["at"]):
        W = build(scn, env, k + 1)
        env.check(states(W) == pre, "not-repeatable", "rebuilding the same pool gave other objects")
        idx = int(at * n)
        idx2 = min(n - 1, idx + 1 + int(scn["at2"] * 4)) if "at2" in scn else -1
        exc = got = None
        native.use_sim_allocator()
        native.alloc(True, fail_at=idx, fail_at2=idx2, minsize=64)
        try:
            got = ops.execute(op, W)
        except Exception as e:
            exc = e
        failed = native.L.sim_alloc_failed()
        native.alloc(False)
        if not failed:
            env.check(exc is None, "unexpected-exception", lambda: f"{op} raised {exc!r} without a fault")
            continue
        env.faults["allocation"] += failed
        what = f"{ops.describe(op)} with allocation {idx} of {n} failing"
        env.note("failed", idx, type(exc).__name__)
        now = states(W)
        if exc is None:
            env.probes["tolerated"] += 1
            env.check(now == post and result(got) == want, "wrong-success", f"{what} reported success but gave another result")
            continue
        env.probes["raised"] += 1
        bad = [j for j in range(len(pre)) if pre[j] != now[j]]
        env.check(not bad, "changed-by-failure", lambda: f"{what} raised {type(exc).__name__} but changed object {bad[0]}: {lib.state_diff(pre[bad[0]], now[bad[0]])}")
        got = ops.execute(op, W)
        env.check(result(got) == want and states(W) == post, "retry", f"{what} raised; repeating it gave another result than a run without faults")
        env.ops[op["op"]] += 1

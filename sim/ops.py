"""A vocabulary of operations on a pool of objects (images, arrays, demodulators):
generated from a seed, executed through the public API."""
import os
import random

import numpy as np

from . import lib

INPLACE = ["demosaic", "dark", "flat", "ifov", "mask"]
RESULT = ["copy", "ctor", "rebin", "congrid", "rotate", "shift", "demod", "clean", "arith", "arith", "scalar", "image_arith", "image_rebin", "image_shift", "image_copy"]
QUERY = ["params", "pols", "header", "errors", "funcs", "demod_query"]
TURN = ["turn"]  # in place, of a demodulator
HOT = 0.21371  # threshold, no simple fraction
FIELDS = ["<f8", "<f8", "<u2", "<i2"]


def gen_world(rng, maxside=12, n=None, min_h=4, dtypes=FIELDS):
    """n images of one size, a demodulator folder, two demodulators, two arrays."""
    h, w = 2 * rng.randrange(min_h // 2, maxside // 2 + 1), 2 * rng.randrange(min_h // 2, maxside // 2 + 1)
    return {"h": h, "w": w, "seed": rng.getrandbits(30), "dtypes": [rng.choice(dtypes) for _ in range(n or rng.randrange(2, 5))],
            "kinds": [rng.choice(["rand", "rand", "grad"]) for _ in range(5)],
            "angles": [rng.randrange(4) for _ in range(5)], "flags": [rng.choice(["none", "ones", "mixed", "mixed", "zeros"]) for _ in range(2)]}


class World:
    """The pool.  Every object is made through the package."""

    def __init__(self, spec, root, demods=True):
        m = lib.ml()
        self.spec, self.root, self.h, self.w = spec, root, spec["h"], spec["w"]
        self.imgs = []
        for k, dt in enumerate(spec["dtypes"]):
            a = lib.make({"seed": spec["seed"] + k, "h": self.h, "w": self.w, "dtype": dt, "kind": spec["kinds"][k % 5]})
            a = np.where(a == 0, 1, a).astype(a.dtype)  # usable as a divisor
            self.imgs.append(m.MicropolImage(a, angle_dic=lib.angle_dics()[spec["angles"][k % 5]]))
        g = np.random.Generator(np.random.PCG64(spec["seed"]))
        self.mij, self.flags, self.demods = [], [], []
        for k in range(2 if demods else 0):
            d = os.path.join(root, f"demod{k}")
            mij = g.normal(0, 1, (3, 4, self.h // 2, self.w // 2))
            f = {"none": None, "ones": np.ones(mij.shape[2:]), "zeros": np.zeros(mij.shape[2:]), "mixed": (g.random(mij.shape[2:]) < 0.6) * 1.0}[spec["flags"][k]]
            lib.write_tensor(d, mij, f)
            self.mij.append(mij)
            self.flags.append(f)
            self.demods.append(m.Demodulator(d))
        self.arrays = [g.random((self.h, self.w)) * 100 + 1 for _ in range(2)]
        self.plain = [m.Image(lib.make({"seed": spec["seed"] + 50 + k, "h": self.h, "w": self.w, "dtype": "<f8", "kind": "rand"})) for k in range(2)]


def gen_op(rng, ops=INPLACE + RESULT + QUERY + TURN):
    name = rng.choice(ops)
    op = {"op": name, "a": rng.randrange(8), "b": rng.randrange(8), "s": rng.getrandbits(16)}
    if name == "demosaic":
        op["mode"] = rng.choice(["adjacent", "adjacent", "mean", "spline"])
    elif name == "mask":
        op["geo"] = [round(rng.random(), 3), round(rng.random(), 3), round(rng.random(), 3)]
        op["over"], op["fill"] = rng.choice([0, 0, 2]), rng.choice([0.0, -12345.5, 7.25])
    elif name in ("rebin", "image_rebin"):
        op["n"] = rng.choice([1, 1, 2])
    elif name == "congrid":
        op["scale"] = [rng.choice([0.5, 1, 1.5, 2]), rng.choice([0.5, 1, 1.5, 2])]
        op["odd"] = rng.random() < 0.3
    elif name == "rotate":
        op["angle"] = rng.choice([90, 180, -90, 45, 10.5, 0])
    elif name in ("shift", "image_shift"):
        op["yx"], op["missing"] = [rng.randrange(-2, 3), rng.randrange(-2, 3)], rng.choice([0, 0, -3.5])
    elif name == "demod":
        op["demosaicing"] = rng.random() < 0.4
    elif name in ("arith", "scalar", "image_arith"):
        op["sign"] = rng.choice("+-*/")
        op["value"] = rng.choice([2, 0.5, -3, 1.25])
        op["with"] = rng.choice(["value", "array"])
    elif name == "turn":
        op["rot"], op["by"] = rng.random() < 0.6, rng.randrange(-1, 4)
    elif name == "clean":
        op["find"] = rng.random() < 0.5
    elif name == "ctor":
        op["how"] = rng.choice(["plain", "dark", "flat", "both", "sub"])
    return op


def usable(img):
    return img.data.ndim == 2 and img.data.shape[0] >= 4 and img.data.shape[1] >= 4


def pick(pool, k, like=None):
    """k-th image of the pool, with the shape of `like`."""
    c = [x for x in pool if like is None or x.data.shape == like.data.shape]
    return c[k % len(c)] if c else None


def arith(sign, a, b):
    return a + b if sign == "+" else a - b if sign == "-" else a * b if sign == "*" else a / b


def disc(op, img):
    """Occulter inside the image, radius 2 or more."""
    h, w = img.data.shape
    gy, gx, gr = op["geo"]
    return int(gy * h), int(gx * w), 2 + int(gr * max(h, w) / 2)


def target(op, W):
    """The object an in-place operation changes."""
    if op["op"] == "turn":
        return W.demods[op["b"] % len(W.demods)] if W.demods else None
    return pick(W.imgs, op["a"]) if op["op"] in INPLACE else None


def turned(op, a):
    """a (..., y, x) turned as the operation turns a demodulator."""
    return np.rot90(a, op["by"], axes=(-2, -1)) if op["rot"] else np.flip(a, axis=op["by"] % 2 - 2)


def execute(op, W, pool=None):
    """(target of an in-place operation or None, list of new objects, values a query returned).
    None when the operation does not apply."""
    m = lib.ml()
    pool = W.imgs if pool is None else pool
    name = op["op"]
    if name.startswith("image_"):
        a = W.plain[op["a"] % len(W.plain)]
        if name == "image_rebin":
            return None, [a.rebin(op["n"])], []
        if name == "image_shift":
            return None, [a.shift(*op["yx"], op["missing"])], []
        if name == "image_copy":
            return None, [m.Image(a)], []
        same = [x for x in W.plain if x.data.shape == a.data.shape]
        arrs = [x for x in W.arrays if x.shape == a.data.shape]
        b = {0: same[op["b"] % len(same)], 1: op["value"], 2: arrs[op["b"] % len(arrs)] if arrs else op["value"]}[op["s"] % 3]
        return None, [arith(op["sign"], a, b)], []
    if name == "turn":
        d = target(op, W)
        if d is not None:
            d.rot90(op["by"]) if op["rot"] else d.flip(op["by"] % 2)
        return None if d is None else (d, [], [])
    a = pick(pool, op["a"])
    if a is None or not usable(a):
        return None
    if name == "demosaic":
        if op["mode"] == "spline" and min(a.data.shape) < 8:
            return None
        return a, [a.demosaic(op["mode"])], []
    if name in ("dark", "flat", "arith", "clean", "errors"):
        b = pick(pool, op["b"], a)
    if name == "dark":
        return a, [a.subtract_dark(b)], []
    if name == "flat":
        return a, [a.correct_flat(b)], []
    if name == "ifov":
        return a, [a.correct_ifov()], []
    if name == "mask":
        y, x, r = disc(op, a)
        a.mask_occulter(y, x, r, overoccult=op["over"], fill=op["fill"])
        return a, [], []
    if name == "copy":
        return None, [m.MicropolImage(a)], []
    if name == "ctor":
        arr = np.array(a.data)
        b = pick(pool, op["b"], a)
        kw = {"plain": {}, "dark": {"dark": b}, "flat": {"flat": b}, "both": {"dark": a, "flat": b}, "sub": {}}[op["how"]]
        src = a if op["how"] == "sub" else arr
        return None, [m.MicropolImage(src, angle_dic=dict(a.angle_dic), **kw)], []
    if name == "rebin":
        if op["n"] == 2 and min(a.data.shape) < 8:
            return None
        return None, [a.rebin(op["n"])], []
    if name == "congrid":
        dims = [max(4, 2 * int(n * s / 2)) + op["odd"] for n, s in zip(a.data.shape, op["scale"])]
        if max(dims) > 40:
            return None
        return None, [a.congrid(*dims)], []
    if name == "rotate":
        return None, [a.rotate(op["angle"])], []
    if name == "shift":
        return None, [a.shift(*op["yx"], op["missing"])], []
    if name == "demod":
        ds = [d for d in W.demods if d.mij.shape[2:] == (a.data.shape[0] // 2, a.data.shape[1] // 2)]
        if not ds:
            return None
        return None, [a.demodulate(ds[op["b"] % len(ds)], demosaicing=op["demosaicing"])], []
    if name == "clean":
        if op.get("find"):
            return None, [a.clean_hot_pixels(m.get_hot_pixels(a, HOT))], []
        g = np.random.Generator(np.random.PCG64(op["s"]))
        hot = m.MicropolImage((g.random(a.data.shape) < 0.2) * 1.0, angle_dic=dict(a.angle_dic))
        return None, [a.clean_hot_pixels(hot)], []
    if name == "arith":
        if op["sign"] == "-" and a.data.dtype.kind == "u":
            return None
        return None, [arith(op["sign"], a, b)], []
    if name == "scalar":
        arrs = [x for x in W.arrays if x.shape == a.data.shape]
        b = arrs[op["b"] % len(arrs)] if op["with"] == "array" and arrs else op["value"]
        return None, [arith(op["sign"], a, b)], []
    # ------------------------------------------------------------------ queries
    if name == "params":
        return None, [], [p.data for p in a.polparam_list] + [a.I.data, a.DoLP.data]
    if name == "pols":
        return None, [], [a.pol0.data, a.pol45.data, a.pol_45.data, a.pol90.data, a.single_pol_subimages]
    if name == "header":
        return None, [], [len(a.header), a.header["NAXIS1"], a.header["NAXIS2"], a.height, a.width]
    if name == "errors":
        ds = [d for d in W.demods if d.mij.shape[2:] == (a.data.shape[0] // 2, a.data.shape[1] // 2)]
        if not ds or np.shape(a.Stokes_vec[0]) != ds[0].mij.shape[2:]:
            return None
        e = m.MicropolImageError(a, b.data, ds[op["b"] % len(ds)])
        return None, [], [e.sigma_S, e.sigma_pB, e.sigma_DoLP, e.sigma_AoLP]
    if name == "funcs":
        d = a.data
        y, x = d.shape[0] // 2, d.shape[1] // 2
        out = [m.demosaic(d, "mean"), m.demosaic(d), m.split_polarizations(d), m.congrid(d, (6, 6)),
               m.roi_from_polar(d, [y, x], [2, 5]), m.roi_from_polar(d, [y, x], [0, 4], [0, 90], fill=-1.0, return_boolean=bool(op["s"] % 2)),
               m.merge_polarizations(a.single_pol_subimages), np.array([m.mean_plus_std(d), m.median_minus_std(d), m.sigma_DN(abs(float(d.flat[0])))])]
        return None, [], out
    if name == "demod_query":
        if not W.demods:
            return None
        d = W.demods[op["b"] % len(W.demods)]
        return None, [], [d.mij, d.fit_found_flags, d.Cij]
    raise lib.HarnessError(f"unknown operation {name}")


def describe(op):
    return op["op"] + "".join(f" {k}={v}" for k, v in op.items() if k not in ("op", "s"))

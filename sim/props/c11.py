"""C11: the polarization parameters of an image always describe its pixels."""
import os
import random

import numpy as np

from .. import lib, native, ops
from ..model import Model, contrast, split
from ..ops import World

RUNS = {"quick": 1500, "thorough": 60000}
WARM = {"demosaic": ["<f8", "<u2", "<i2"], "ifov": ["<f8", "<u2", "<i2"], "shift": ["<f8"]}
LISTS = ["ops"]
RULE = ("seeded history of 3-16 operations (corrections, demosaicing, masking, demodulation, rebinning, resizing, rotation, shifts, arithmetic, copies) over a pool of "
        "images with one of four orientation layouts, some of them failing (no memory, unfit operand); every image is compared after every step with an independent "
        "model of pixels, Stokes parameters, derived parameters, single-polarization images, demosaiced images and dimensions; non-trivial = at least one comparison")
ASSUMPTIONS = ["float comparisons to 1e-9 relative (1e-4 after a rotation, which the package does in single precision)",
               "pixels within a few pixels of an occulter border may be masked or not", "divisors are not zero", "integer images do not overflow"]


def gen(rng, tier, i):
    w = ops.gen_world(rng, 12)
    w["kinds"] = [rng.choice([k, k, k, "dipole"]) for k in w["kinds"]]
    out = []
    for _ in range(rng.randrange(3, 17)):
        op = ops.gen_op(rng, ops.INPLACE * 2 + ops.TURN + [x for x in ops.RESULT if not x.startswith("image_")])
        r = rng.random()
        if r < 0.06:
            op["alloc"] = round(rng.random(), 3)
        elif r < 0.10:
            op = {"op": "bad", "what": rng.choice(["dark", "flat", "demosaic", "arith"]), "a": rng.randrange(8)}
        elif r < 0.13:
            op = {"op": "default", "k": rng.randrange(4)}
        elif r < 0.2:
            op = {"op": "disk", "a": rng.randrange(8), "how": rng.choice(["fits", "I"])}
        out.append(op)
    return {"world": w, "ops": out}


def shrink(scn):
    w = scn["world"]
    if len(w["dtypes"]) > 1:
        yield dict(scn, world=dict(w, dtypes=w["dtypes"][:-1]))
    if any(d != "<f8" for d in w["dtypes"]):
        yield dict(scn, world=dict(w, dtypes=["<f8"] * len(w["dtypes"])))
    if any(w["angles"]):
        yield dict(scn, world=dict(w, angles=[0] * 5))


def compare(env, img, mod, what):
    t = dict(rtol=mod.tol, atol=mod.tol * mod.scale())

    def same(name, got, want, scale=True):
        got = np.asarray(got)
        ok = got.shape == np.shape(want) and bool(np.allclose(got.astype(float), np.asarray(want, float), rtol=t["rtol"], atol=t["atol"], equal_nan=True))
        env.check(ok, "wrong-" + name, lambda: f"{what}: {name} is wrong: {lib.diff(got, want)}")
    same("data", img.data, mod.data)
    env.check((img.height, img.width) == mod.data.shape and (img.header["NAXIS2"], img.header["NAXIS1"]) == mod.data.shape, "wrong-dimensions",
              lambda: f"{what}: dimensions {img.height}x{img.width}, header {img.header['NAXIS2']}x{img.header['NAXIS1']}, pixels {mod.data.shape}")
    env.check(dict(img.angle_dic) == mod.ang, "wrong-orientations", lambda: f"{what}: orientations {img.angle_dic} instead of {mod.ang}")
    for k in range(3):
        same("stokes", img.Stokes_vec[k], mod.S[k])
    p = mod.params()
    for k in ("I", "Q", "U", "pB"):
        same(k, getattr(img, k).data, p[k])
    # angle and degree are compared where they are well defined
    big = p["pB"] > 1e-3 * max(1.0, mod.scale()) if mod.tol > 1e-6 else p["pB"] > 1e-6 * max(1.0, mod.scale())
    a = np.asarray(img.AoLP.data, float)
    env.check(a.shape == p["AoLP"].shape, "wrong-AoLP", lambda: f"{what}: AoLP has shape {a.shape}")
    d = np.abs(np.sin(a - p["AoLP"]))[big]
    env.check(not d.size or d.max() < (1e-2 if mod.tol > 1e-6 else 1e-5), "wrong-AoLP", lambda: f"{what}: AoLP off by {d.max():.3g} rad")
    bigI = np.abs(p["I"]) > (1e-3 if mod.tol > 1e-6 else 1e-6) * max(1.0, mod.scale())
    dl = np.asarray(img.DoLP.data, float)
    env.check(dl.shape == p["DoLP"].shape, "wrong-DoLP", lambda: f"{what}: DoLP has shape {dl.shape}")
    with np.errstate(all="ignore"):
        rel = np.abs(dl - p["DoLP"])[bigI] / (1 + np.abs(p["DoLP"][bigI]))
    env.check(not rel.size or rel.max() < (1e-1 if mod.tol > 1e-6 else 1e-3), "wrong-DoLP", lambda: f"{what}: DoLP off by {rel.max():.3g}")
    s = split(mod.data)
    for ang, name in ((0, "pol0"), (45, "pol45"), (-45, "pol_45"), (90, "pol90")):
        same("single-polarization image", getattr(img, name).data, s[mod.ang[ang]])
    if mod.demo is None:
        env.check(img.demosaiced_images is None, "stale-demosaiced", f"{what}: the image still has demosaiced images of other pixels")
    else:
        env.check(img.demosaiced_images is not None, "wrong-demosaiced", f"{what}: the image lost its demosaiced images")
        same("demosaiced images", np.array(img.demosaiced_images), mod.demo)


class M(Model):
    tol = 1e-9
    _scale = None

    def scale(self):
        a = np.abs(self.data[np.isfinite(self.data)]) if self.data.dtype.kind == "f" else np.abs(self.data)
        s = [float(a.max()) if a.size else 1.0] + [float(np.nanmax(np.abs(x))) for x in self.S if np.size(x)]
        return max(1.0, max(s), self._scale or 0)

    def copy(self):
        o = super().copy()
        o.__class__ = M
        o.tol, o._scale = self.tol, self.scale()
        return o


def predict(op, W, mods, models, pool):
    """Same selection rules as ops.execute, on the model.  None: not modelled."""
    name = op["op"]
    a = ops.pick(pool, op["a"])
    if a is None or not ops.usable(a):
        return None
    ma = mods[id(a)]
    b = ops.pick(pool, op["b"], a)
    mb = mods[id(b)]
    if name == "demosaic":
        if op["mode"] == "spline" and min(a.data.shape) < 8:
            return None
        return a, ma.copy().demosaic(op["mode"])
    if name == "dark":
        return a, tag(ma.copy().dark(mb), ma, mb)
    if name == "flat":
        f = mb.data.astype(float)
        if not np.isfinite(f).all() or abs(f.mean()) <= 1e-6 * np.abs(f).max() or (np.abs(f) < 1e-6 * np.abs(f).max()).any():
            return None
        return a, tag(ma.copy().flat(mb), ma, mb)
    if name == "ifov":
        return a, ma.copy().ifov()
    if name == "copy":
        return None, ma.copy()
    if name == "ctor":
        how = op["how"]
        o = M(np.array(ma.data), ma.ang)
        o.tol = ma.tol
        if how == "sub":
            o = ma.copy()
        if how == "both":
            o = tag(o.dark(ma), ma)
        if how == "dark":
            o = tag(o.dark(mb), ma, mb)
        if how in ("flat", "both"):
            f = mb.data.astype(float)
            if not np.isfinite(f).all() or abs(f.mean()) <= 1e-6 * np.abs(f).max() or (np.abs(f) < 1e-6 * np.abs(f).max()).any():
                return None
            o = tag(o.flat(mb), ma, mb)
        return None, o
    if name == "rebin":
        if op["n"] == 2 and min(a.data.shape) < 8:
            return None
        return None, tag(ma.rebin(op["n"]), ma)
    if name == "congrid":
        dims = [max(4, 2 * int(n * s / 2)) + op["odd"] for n, s in zip(a.data.shape, op["scale"])]
        if max(dims) > 40 or min(np.shape(ma.S[0])) < 2:
            return None
        return None, tag(ma.congrid(*dims), ma)
    if name == "rotate":
        o = tag(ma.rotate(op["angle"]), ma)
        o.tol = max(o.tol, 1e-5)
        return None, o
    if name == "shift":
        return None, tag(ma.shift(*op["yx"], op["missing"]), ma)
    if name == "demod":
        ds = [k for k, d in enumerate(W.demods) if d.mij.shape[2:] == (a.data.shape[0] // 2, a.data.shape[1] // 2)]
        if not ds:
            return None
        k = ds[op["b"] % len(ds)]
        return None, tag(ma.demodulate(W.mij[k], W.flags[k], op["demosaicing"]), ma)
    if name == "clean":
        g = np.random.Generator(np.random.PCG64(op["s"]))
        hot = contrast(a.data) > ops.HOT if op.get("find") else g.random(a.data.shape) < 0.2
        return None, tag(ma.clean(hot * 1.0), ma)
    if name in ("arith", "scalar"):
        if name == "arith":
            if op["sign"] == "-" and a.data.dtype.kind == "u":
                return None
            y, t = mb.data, mb.tol
        else:
            arrs = [x for x in W.arrays if x.shape == a.data.shape]
            y, t = (arrs[op["b"] % len(arrs)] if op["with"] == "array" and arrs else op["value"]), ma.tol
        if op["sign"] in "+-*" and np.asarray(y).dtype.kind in "iu" and ma.data.dtype.kind in "iu":
            # overflow of integer images is not judged
            v = ma.arith(op["sign"], np.asarray(y).astype(float)) if op["sign"] != "*" else None
            hi = max(abs(float(ma.data.max())), abs(float(ma.data.min()))) * max(1, abs(float(np.max(y))), abs(float(np.min(y)))) if op["sign"] == "*" else np.abs(v.data).max()
            kind = np.result_type(ma.data, np.asarray(y))
            if hi > np.iinfo(kind).max or op["sign"] == "-" and kind.kind == "u" or kind.kind == "u" and v is not None and v.data.min() < 0 or np.min(y) < 0:
                return None
        if op["sign"] == "/":
            f = np.abs(np.asarray(y, float))
            if (f < 1e-6 * max(f.max(), 1e-30)).any():
                return None
        o = tag(ma.arith(op["sign"], y), ma)
        o.tol = max(o.tol, t)
        if op["sign"] == "*" and name == "arith":
            o.tol = o.tol if o.tol < 1e-6 else max(o.tol, 1e-3)
        return None, o
    return None


def tag(o, *src):
    o.__class__ = M
    o.tol = max(s.tol for s in src)
    o._scale = max(s.scale() for s in src) if not o._scale else max([o._scale] + [s.scale() for s in src])
    return o


def mask(env, op, img, mod):
    """mask_occulter: inner pixels are filled, outer ones kept, the border may go either way."""
    y, x, r = ops.disc(op, img)
    R, fill = r + op["over"], op["fill"]
    what = f"mask_occulter({y}, {x}, {r}, overoccult={op['over']}, fill={fill})"

    def part(name, got, old, half):
        got, old = np.asarray(got, float), np.asarray(old, float)
        env.check(got.shape == old.shape, "wrong-mask", lambda: f"{what}: {name} has shape {got.shape} instead of {old.shape}")
        f = 0.5 if half else 1.0
        yy, xx = np.mgrid[:old.shape[0], :old.shape[1]]
        d = np.hypot(yy - y * f, xx - x * f)
        filled = got == fill
        kept = np.isclose(got, old, rtol=mod.tol, atol=mod.tol * mod.scale(), equal_nan=True)
        env.check(bool((filled | kept).all()), "wrong-mask", lambda: f"{what}: {name} has values which are neither the old ones nor the fill value")
        env.check(bool(filled[d < R * f - 3.5].all()), "wrong-mask", lambda: f"{what}: {name} is not masked inside the occulter")
        far = d > R * f + 4.5
        env.check(bool(kept[far].all()), "wrong-mask", lambda: f"{what}: {name} is masked outside the occulter")
        # superpixels that are surely masked / kept
        h, w = old.shape
        sure = [filled & ~kept, kept & ~filled]
        if not half and h % 2 == w % 2 == 0:
            sure = [s.reshape(h // 2, 2, w // 2, 2).any(axis=(1, 3)) for s in sure]
        if name != "stokes" or half:
            for a, b in ((sure[0], [s[1] for s in seen] + [sure[1]]), (sure[1], [s[0] for s in seen])):
                for c in b:
                    env.check(a.shape != c.shape or not (a & c).any(), "wrong-mask",
                              lambda: f"{what}: superpixel {np.argwhere(a & c)[0].tolist()} is masked in part of the pixels, demosaiced images and Stokes parameters only")
            seen.append(sure)
        return np.where(filled, fill, old)
    seen = []
    mod.data = part("data", img.data, mod.data, False)
    half = np.shape(mod.S[0]) != mod.data.shape
    mod.S = [part("stokes", g, o, half) for g, o in zip(img.Stokes_vec, mod.S)]
    if mod.demo is not None:
        env.check(img.demosaiced_images is not None, "wrong-demosaiced", f"{what}: the image lost its demosaiced images")
        mod.demo = np.array([part("demosaiced images", g, o, False) for g, o in zip(img.demosaiced_images, mod.demo)])


def run(scn, env):
    m = lib.ml()
    m.set_default_angles(dict(lib.CAMERA))
    W = World(scn["world"], env.root)
    mods = {id(o): M(np.array(o.data), lib.angle_dics()[scn["world"]["angles"][k % 5]]) for k, o in enumerate(W.imgs)}
    models = None

    def check(what):
        for k, o in enumerate(W.imgs):
            compare(env, o, mods[id(o)], f"{what}: image {k}")

    def limit():
        """Values stay within the range where the comparison is meaningful."""
        for o in list(W.imgs):
            mo = mods[id(o)]
            if not np.isfinite(np.asarray(mo.data, float)).all() or mo.scale() > 1e12 or mo.tol > 2e-3 or mo.scale() > 1e7 * max(1e-3, float(np.abs(np.asarray(mo.data, float)).max())):
                W.imgs.remove(o)
                env.probes["out_of_range"] += 1

    check("start")
    for n, op in enumerate(scn["ops"]):
        name = op["op"]
        what = f"step {n} ({ops.describe(op)})"
        env.ops[name] += 1
        if name == "default":
            m.set_default_angles(dict(lib.angle_dics()[op["k"]]))
        elif name == "bad":
            a = ops.pick(W.imgs, op["a"])
            other = m.MicropolImage(np.ones((a.data.shape[0] + 2, a.data.shape[1])), angle_dic=lib.CAMERA)
            try:
                {"dark": lambda: a.subtract_dark(other), "flat": lambda: a.correct_flat(other), "demosaic": lambda: a.demosaic("best"), "arith": lambda: a * other}[op["what"]]()
                return  # not refused: C10
            except Exception:
                env.faults["unfit_operand"] += 1
        elif name == "turn":
            ops.execute(op, W)
            k = op["b"] % len(W.demods)
            W.mij[k] = ops.turned(op, W.mij[k])
            W.flags[k] = None if W.flags[k] is None else ops.turned(op, W.flags[k])
            for nm, got, want in (("matrices", W.demods[k].mij, W.mij[k]), ("fit flags", W.demods[k].fit_found_flags, W.flags[k])):
                env.check(lib.same(got, want) if want is not None else got is None, "wrong-turn", lambda: f"{what}: the {nm} of the turned demodulator are wrong")
        elif name == "disk":
            a = ops.pick(W.imgs, op["a"])
            p = os.path.join(env.root, f"s{n}.fits")
            mo = mods[id(a)]
            if op["how"] == "fits":
                a.save_as_fits(p)
                o = m.MicropolImage(p, angle_dic=dict(mo.ang))
                new = M(np.array(mo.data), mo.ang)
                new.tol = mo.tol
                new._scale = mo.scale()
                mods[id(o)] = new
                W.imgs.append(o)
            else:
                a.save_param_as_fits("I", p)
                got = np.asarray(m.Image(p[:-5] + "_I.fits").data)
                env.check(got.shape == np.shape(mo.S[0]) and np.allclose(got, mo.S[0], rtol=mo.tol, atol=mo.tol * mo.scale()), "wrong-I", f"{what}: the saved I is not the image's")
        elif name == "mask":
            a = ops.pick(W.imgs, op["a"])
            if a is None or not ops.usable(a):
                continue
            if (np.asarray(mods[id(a)].data) == op["fill"]).any():
                op = dict(op, fill=-54321.5 - n)
            if op.get("alloc") is not None:
                op = {k: v for k, v in op.items() if k != "alloc"}
            ops.execute(op, W)
            mask(env, op, a, mods[id(a)])
        else:
            pr = predict(op, W, mods, models, W.imgs)
            if pr is None:
                continue
            target, mod = pr
            failed = 0
            if op.get("alloc") is not None:
                native.use_sim_allocator()
                native.alloc(True, fail_at=int(op["alloc"] * 30), minsize=64)
                try:
                    r = ops.execute(op, W)
                except Exception:
                    r = None
                failed = native.L.sim_alloc_failed()
                native.alloc(False)
                env.faults["allocation"] += failed
            else:
                r = ops.execute(op, W)
            if r is None:
                if not failed:
                    env.fail("unexpected-exception", f"{what} failed without a fault")
            elif target is not None:
                mods[id(target)] = mod
            else:
                o = r[1][0]
                mods[id(o)] = mod
                W.imgs.append(o)
        env.note(n, name, [lib.adig(o.data) for o in W.imgs])
        keep.append(list(W.imgs))
        check(what)
        limit()
        if len(W.imgs) > 6:
            W.imgs.pop(op.get("a", 0) % 6)
        if not W.imgs:
            return
    # the demosaiced images can be saved exactly when there are some
    for k, o in enumerate(W.imgs):
        mo = mods[id(o)]
        try:
            o.save_demosaiced_images_as_fits(os.path.join(env.root, f"last{k}", "d.fits"))
            saved = True
        except ValueError:
            saved = False
        env.check(saved == (mo.demo is not None), "wrong-demosaiced", lambda: f"end: image {k}: its demosaiced images {'are saved though it has none' if saved else 'can not be saved'}")
        for ang, j in mo.ang.items() if saved else ():
            got = np.asarray(m.Image(os.path.join(env.root, f"last{k}", f"d_POL{ang}.fits")).data, float)
            env.check(got.shape == np.shape(mo.demo[j]) and np.allclose(got, mo.demo[j], rtol=mo.tol, atol=mo.tol * mo.scale(), equal_nan=True), "wrong-demosaiced",
                      lambda: f"end: image {k}: the saved demosaiced image of {ang} degrees is not the image's")


keep = []  # objects stay alive: their id() is a key

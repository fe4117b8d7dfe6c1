"""C08: loaded images and demodulators are snapshots; loading again sees the current content."""
import os

import numpy as np

from .. import lib
from ..lib import Seam

RUNS = {"quick": 1300, "thorough": 40000}
WARM = {"demosaic": ["<f8"], "ifov": [], "shift": []}
LISTS = ["ops", "benign"]
RULE = ("seeded history over 1-4 source files, a matrix folder and source arrays: objects are loaded (Image, MicropolImage, lists, copies, Demodulator), then "
        "their sources are overwritten, rewritten in place, truncated, deleted, replaced or saved over in any order, with memory mapping on or off, coarse file times and short "
        "reads; after every step every live object is compared bitwise with what was loaded, and new loads with the current content; "
        "non-trivial = at least one live object was compared after a change of its source")

MUT = ["replace", "inplace", "truncate", "delete", "rename", "saveover", "grow"]


def gen(rng, tier, i):
    h, w = 2 * rng.randrange(2, 10), 2 * rng.randrange(2, 10)
    if rng.random() < 0.15:
        h = w = 2 * rng.randrange(20, 40)
    nf = rng.randrange(1, 4)
    ops = []
    for _ in range(rng.randrange(4, 16)):
        r = rng.random()
        if r < 0.4 or not ops:
            ops.append({"op": "load", "kind": rng.choice(["Image", "Micropol", "Micropol", "ImageList", "MicropolList", "Demod", "Demod", "array", "arrayImage", "copy", "dark"]),
                        "f": rng.randrange(nf), "obj": rng.randrange(8), "seed": rng.getrandbits(20)})
        elif r < 0.75:
            ops.append({"op": "mutate", "how": rng.choice(MUT), "f": rng.randrange(nf), "seed": rng.getrandbits(20), "obj": rng.randrange(8), "cut": round(rng.random(), 2), "coarse": rng.random() < 0.4})
        elif r < 0.87:
            ops.append({"op": "mutate_demod", "how": rng.choice(["replace", "inplace", "delete", "truncate"]), "ij": [rng.randrange(3), rng.randrange(4)],
                        "what": rng.choice(["M", "flags"]), "seed": rng.getrandbits(20), "coarse": rng.random() < 0.4})
        elif r < 0.95:
            ops.append({"op": "mutate_array", "obj": rng.randrange(8), "seed": rng.getrandbits(20)})
        else:
            ops.append({"op": "use", "obj": rng.randrange(8)})
    return {"h": h, "w": w, "nf": nf, "dtypes": [rng.choice(lib.DTYPES) for _ in range(nf)], "ops": ops, "memmap": rng.random() < 0.75,
            "benign": [b for b in lib.gen_benign(rng) if b["action"] == "short" and b["kinds"] == ["read"]]}


def shrink(scn):
    if scn["h"] > 4 or scn["w"] > 4:
        yield dict(scn, h=4, w=4)


def run(scn, env):
    from astropy.io import fits
    fits.conf.use_memmap = scn["memmap"]
    m, root, h, w = lib.ml(), env.root, scn["h"], scn["w"]
    current = {}                     # file index -> values, None if it cannot be loaded
    path = lambda k: os.path.join(root, f"src{k}.fits")

    def value(k, seed):
        return lib.make({"seed": seed, "h": h, "w": w, "dtype": scn["dtypes"][k % scn["nf"]], "kind": "rand"})

    def stamps():
        return {p: os.stat(p).st_mtime_ns for p in [d, root] + [os.path.join(q, n) for q in (root, d) for n in sorted(os.listdir(q))]}

    def put(k, a, inplace=False):
        raw = lib.fits_bytes(a, [("NUM", int(a.sum() % 1000))])
        if inplace:
            with open(path(k), "r+b") as f:
                f.write(raw)
                f.truncate()
        else:
            if os.path.lexists(path(k)):
                os.unlink(path(k))
            with open(path(k), "wb") as f:
                f.write(raw)
        current[k] = np.array(a)

    d = os.path.join(root, "demo")
    for k in range(scn["nf"]):
        put(k, value(k, k + 1))
    g = np.random.Generator(np.random.PCG64(3))
    mij, flags = g.normal(0, 1, (3, 4, h // 2, w // 2)), np.ones((h // 2, w // 2))
    lib.write_tensor(d, mij, flags)
    demod_ok = True
    probe = m.MicropolImage(value(0, 99).astype(float), angle_dic=lib.CAMERA)
    objs = []                        # [object, state at load, array it came from, use digest, source changed]

    def state(o):
        if isinstance(o, m.Demodulator):
            s = lib.demod_state(o)
            s["use"] = [lib.adig(x) for x in probe.demodulate(o).Stokes_vec]
            return s
        return lib.img_state(o)

    def add(o, arr=None, src=None):
        objs.append([o, state(o), arr, src])

    def check(what):
        for n, (o, s, _, src) in enumerate(objs):
            now = state(o)
            env.check(now == s, "snapshot", lambda: f"{what}: object {n} ({type(o).__name__} from {src}) changed: {lib.state_diff(s, now)}")

    def expect(o, want, what):
        env.check(lib.close(o.data, want, 1e-12 if scn["dtypes"][0] != "<f4" else 1e-6, 1e-6), "stale-or-wrong",
                  lambda: f"{what} holds other values than the file: {lib.diff(o.data, want)}")

    def load(op):
        nonlocal demod_ok
        kind, k = op["kind"], op["f"]
        if kind in ("Image", "Micropol"):
            def go():
                return m.Image(path(k)) if kind == "Image" else m.MicropolImage(path(k), angle_dic=lib.CAMERA)
            if current[k] is None:
                try:
                    go()
                except Exception:
                    env.checks += 1
                    return
                env.fail("loaded-missing", f"file {k} is truncated or deleted, but it loads")
            o = go()
            expect(o, current[k], f"a new {kind} of file {k}")
            env.check(o.header.get("NUM") == int(current[k].sum() % 1000) or current[k].ndim == 0 or "SAVED" in o.header or k in saved, "stale-or-wrong",
                      lambda: f"header of a new {kind} of file {k} is not the file's")
            add(o, None, f"file {k}")
        elif kind in ("ImageList", "MicropolList"):
            ks = [x for x in range(scn["nf"]) if current[x] is not None and current[x].shape == (h, w)]
            if len(ks) < 2:
                return
            fs = [path(x) for x in ks]
            o = m.Image(fs) if kind == "ImageList" else m.MicropolImage(fs, angle_dic=lib.CAMERA)
            add(o, None, f"files {ks}")
        elif kind == "Demod":
            try:
                o = m.Demodulator(d)
            except Exception:
                env.check(not demod_ok, "refused", "a complete matrix folder is refused")
                return
            env.check(demod_ok, "loaded-missing", "a matrix is truncated or missing, but the folder loads")
            env.check(lib.same(o.mij, mij), "stale-or-wrong", lambda: f"a new Demodulator holds other matrices than the folder: {lib.diff(o.mij, mij)}")
            env.check(flags is None or lib.same(o.fit_found_flags, flags), "stale-or-wrong", "a new Demodulator holds other flags than the folder")
            add(o, None, "matrix folder")
        elif kind in ("array", "arrayImage"):
            a = value(k, op["seed"])
            dic = dict(lib.CAMERA)
            o = m.MicropolImage(a, angle_dic=dic) if kind == "array" else m.Image(a)
            add(o, a, "array")
            dic[0], dic[90] = 3, 0   # the caller reuses its dictionary
        elif objs:
            src = objs[op["obj"] % len(objs)][0]
            if type(src) is m.Image and kind == "copy":
                add(m.Image(src), None, "copy")
            elif isinstance(src, m.MicropolImage):
                if kind == "copy":
                    add(m.MicropolImage(src), None, "copy")
                else:
                    a = value(k, op["seed"])
                    if a.shape == src.data.shape:
                        o = m.MicropolImage(np.array(a, float), angle_dic=lib.CAMERA)
                        o.subtract_dark(src)
                        add(o, None, "array with dark")

    saved = set()
    with Seam(env, root, [dict(b, nth=1 + int(b["frac"] * 30)) for b in scn["benign"]]):
        for op in scn["ops"]:
            name, k = op["op"], op.get("f")
            changed, before = True, stamps() if op.get("coarse") else {}
            if name == "load":
                load(op)
                changed = False
            elif name == "mutate":
                how = op["how"]
                if how in ("replace", "inplace") or how in ("truncate", "rename") and current[k] is None:
                    put(k, value(k, op["seed"]), how == "inplace" and os.path.exists(path(k)))
                    saved.discard(k)
                elif how == "grow":
                    put(k, np.vstack([value(k, op["seed"])] * 2))
                    saved.discard(k)
                elif how == "truncate":
                    n = current[k].nbytes + 2880
                    os.truncate(path(k), int(op["cut"] * min(n - 1, os.path.getsize(path(k)) - 1)) if k not in saved else 100)
                    current[k] = None
                elif how == "delete":
                    if os.path.exists(path(k)):
                        os.unlink(path(k))
                    current[k] = None
                elif how == "rename":
                    k2 = (k + 1) % scn["nf"]
                    if k2 != k:
                        os.replace(path(k), path(k2))
                        current[k2], current[k] = current[k], None
                        (saved.add if k in saved else saved.discard)(k2)
                elif how == "saveover":
                    ims = [o for o, _, _, _ in objs if isinstance(o, m.Image)]
                    if ims:
                        o = ims[op["obj"] % len(ims)]
                        o.save_as_fits(path(k))
                        current[k] = np.array(o.data)
                        saved.add(k)
            elif name == "mutate_demod":
                i, j = op["ij"]
                a = np.random.Generator(np.random.PCG64(op["seed"])).normal(0, 1, (h // 2, w // 2))
                p = os.path.join(d, f"M{i}{j}.fits" if op["what"] == "M" else "fit_found_flag.fits")
                if op["what"] == "flags":
                    a = (a > 0).astype(float)
                if not demod_ok or op["how"] in ("replace", "inplace") or not os.path.exists(p):
                    if not demod_ok:
                        lib.write_tensor(d, mij, flags)
                        demod_ok = True
                    raw = lib.fits_bytes(a)
                    if op["how"] == "inplace" and os.path.exists(p):
                        with open(p, "r+b") as f:
                            f.write(raw)
                    else:
                        if os.path.exists(p):
                            os.unlink(p)
                        with open(p, "wb") as f:
                            f.write(raw)
                    if op["what"] == "M":
                        mij[i, j] = a
                    else:
                        flags = a
                elif op["how"] == "truncate":
                    os.truncate(p, 2880 + (h * w // 4) * 4)
                    demod_ok = False
                elif op["what"] == "M":
                    os.unlink(p)
                    demod_ok = False
                if flags is None:
                    flags = np.ones((h // 2, w // 2))
            elif name == "mutate_array":
                arrs = [x for x in objs if x[2] is not None]
                if arrs:
                    a = arrs[op["obj"] % len(arrs)][2]
                    a[...] = lib.make({"seed": op["seed"], "h": a.shape[0], "w": a.shape[1], "dtype": a.dtype.str, "kind": "rand"})
            elif name == "use" and objs:
                o = objs[op["obj"] % len(objs)][0]
                if isinstance(o, m.MicropolImage):
                    o.rebin(1)
                    o.pB
            for p, t in before.items():  # the clock of the file system has not advanced
                if os.path.exists(p):
                    os.utime(p, ns=(t, t))
            if before:
                env.faults["coarse_timestamps"] += 1
            env.ops[f"{name}_{op.get('kind') or op.get('how') or ''}"] += 1
            env.note(name, op.get("kind") or op.get("how"), len(objs))
            if changed and objs:
                env.probes["compared_after_change"] += 1
            check(f"after {op}")

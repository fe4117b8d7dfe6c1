"""C09: images do not share state; operations touch only the image they are called on."""
import os
import random

import numpy as np

from .. import attempt, lib, ops, saves
from ..ops import World

RUNS = {"quick": 700, "thorough": 24000}
WARM = {"demosaic": ["<f8", "<u2", "<i2"], "ifov": ["<f8", "<u2", "<i2"], "shift": ["<f8"]}
LISTS = ["ops"]
RULE = ("seeded history of 4-25 operations over a pool of images, plain images, caller arrays, demodulators and the default orientations: in-place corrections, "
        "derived images, queries, saves, plots, overwriting every array/header/dictionary of a chosen object, changing the default orientations; operations may "
        "be interrupted or run out of memory at a drawn point; after every step every object that was not the target is compared bitwise; "
        "non-trivial = at least one comparison after an operation")
ASSUMPTIONS = ["the dictionary passed to set_default_angles is not modified afterwards", "arrays returned by queries on an image are not written to"]

SHOW = ["show", "histogram", "params", "single", "param", "demo", "with"]


def gen(rng, tier, i):
    w = ops.gen_world(rng, 10)
    out = []
    for _ in range(rng.randrange(4, 15)):
        r = rng.random()
        if r < 0.70:
            op = ops.gen_op(rng)
        elif r < 0.85:
            op = {"op": "scribble", "what": rng.choice(["img", "img", "img", "array", "demod", "plain", "value"]), "a": rng.randrange(16)}
        elif r < 0.93:
            op = {"op": "save", "a": rng.randrange(8), "kind": rng.choice(["fits", "pols", "param", "params", "demo", "raw", "image"]),
                  "fixto": rng.choice([None, [0, 100], [5, 10]]), "param": rng.choice(saves.PARAMS)}
        elif r < 0.97:
            op = {"op": "default", "k": rng.randrange(5)}
        else:
            op = {"op": "show", "a": rng.randrange(8), "how": rng.choice(SHOW)}
        if rng.random() < 0.18 and op["op"] not in ("scribble", "show", "default"):
            op["fault"] = attempt.gen_fault(rng, ["alloc", "interrupt", "io"] if op["op"] == "save" else ["alloc", "interrupt"], crash=False)
        if op["op"] in ops.RESULT and rng.random() < 0.15:
            out.append(dict(ops.gen_op(rng, ["demosaic"]), a=op.get("a", 0)))   # something more for the result to share
        out.append(op)
        if op["op"] in ops.RESULT + ["funcs"] and rng.random() < 0.35:
            out.append({"op": "scribble", "what": "value" if op["op"] == "funcs" else rng.choice(["newest", "newest", "source"]), "a": rng.randrange(16)})
    return {"world": w, "ops": out}


def shrink(scn):
    for k, op in enumerate(scn["ops"]):
        if op.get("fault"):
            yield dict(scn, ops=[dict(o, fault=None) if j == k else o for j, o in enumerate(scn["ops"])])
    if len(scn["world"]["dtypes"]) > 1:
        yield dict(scn, world=dict(scn["world"], dtypes=scn["world"]["dtypes"][:-1]))
    if any(d != "<f8" for d in scn["world"]["dtypes"]):
        yield dict(scn, world=dict(scn["world"], dtypes=["<f8"] * len(scn["world"]["dtypes"])))


def scribble(o):
    """Write into everything the object holds."""
    m = lib.ml()
    if isinstance(o, np.ndarray):
        o[...] = -777
    elif isinstance(o, m.Demodulator):
        o.mij[...] = -777
        if o.fit_found_flags is not None:
            o.fit_found_flags[...] = 0
    else:
        o.data[...] = 111
        if o.header is not None:
            o.header["SCRIBBLE"] = 1
            o.header["NAXIS1"] = 12345
        if isinstance(o, m.MicropolImage):
            for s in o.Stokes_vec:
                s[...] = -777
            if o.demosaiced_images is not None:
                for s in o.demosaiced_images:
                    s[...] = -777
            for k in list(o.angle_dic):
                o.angle_dic[k] = 0


def state(o):
    m = lib.ml()
    if isinstance(o, np.ndarray):
        return {"array": lib.adig(o)}
    if isinstance(o, m.Demodulator):
        return lib.demod_state(o)
    return lib.img_state(o)


def save(op, img, root, n):
    o = {"kind": op["kind"], "path": f"out{n}/f.fits", "abs": True, "param": op["param"]}
    if op["kind"] == "raw":
        o["path"] = f"f{n}.raw"
    if op["fixto"] and op["kind"] not in ("raw", "params"):
        o["fixto"] = op["fixto"]
    saves.perform(o, img, root)


def show(how, img):
    import matplotlib.pyplot as plt
    try:
        {"show": img.show, "histogram": img.show_histogram, "params": img.show_pol_params, "single": img.show_single_pol_images,
         "param": lambda: img.show_pol_param("DoLP"), "demo": img.show_demo_images, "with": img.show_with_pol_params}[how]()
    finally:
        plt.close("all")


def run(scn, env):
    m = lib.ml()
    m.set_default_angles(dict(lib.CAMERA))
    W = World(scn["world"], env.root)
    entries = []                     # [name, object, state, alive]
    values = []
    last = (None, None)              # newest result, and the image it was made from

    def add(name, o):
        for e in entries:
            if e[1] is o:
                return
        entries.append([name, o, state(o), True])

    for k, o in enumerate(W.imgs):
        add(f"image{k}", o)
    for k, o in enumerate(W.plain):
        add(f"plain{k}", o)
    for k, o in enumerate(W.demods):
        add(f"demodulator{k}", o)
    for k, o in enumerate(W.arrays):
        add(f"array{k}", o)
    # images made from caller arrays and from each other, to have something to be shared
    add("image from array0", m.MicropolImage(W.arrays[0], angle_dic=lib.CAMERA))
    W.imgs.append(entries[-1][1])
    add("plain from array1", m.Image(W.arrays[1]))
    W.plain.append(entries[-1][1])
    default = sorted(lib.CAMERA.items())
    add("image with default orientations", m.MicropolImage(W.arrays[0] + 1))
    W.imgs.append(entries[-1][1])

    def check(what, target=None):
        for e in entries:
            if e[1] is target or not e[3]:
                continue
            now = state(e[1])
            env.check(now == e[2], "changed-bystander", lambda: f"{what} changed {e[0]}: {lib.state_diff(e[2], now)}")
        got = sorted(m.MicropolImage(np.ones((4, 4))).angle_dic.items())
        env.check(got == default, "changed-default", lambda: f"{what} changed the default orientations to {got}")

    check("nothing")
    for n, op in enumerate(scn["ops"]):
        name = op["op"]
        what = f"step {n} ({ops.describe(op)[:150]})"
        env.ops[name] += 1
        if name == "default":
            d = dict((lib.angle_dics() + [lib.CAMERA])[op["k"]])
            m.set_default_angles(d)
            default = sorted(d.items())
            env.note(n, name, op["k"])
            if len(W.imgs) < 9:
                W.imgs.append(m.MicropolImage(np.ones((W.h, W.w)) + n))
                add(f"image with the default orientations of step {n}", W.imgs[-1])
            check(what)
            continue
        if name == "scribble":
            kind = {"img": m.MicropolImage, "array": np.ndarray, "demod": m.Demodulator, "plain": m.Image}.get(op["what"])
            if op["what"] == "value":
                c = [v for v in values if v.flags.writeable]
                values.clear()
                for v in c:  # what a module-level function computed belongs to the caller
                    v[...] = 3
                check(what)
                continue
            if op["what"] in ("newest", "source"):
                o = last[0] if op["what"] == "newest" else last[1]
                c = [e for e in entries if e[3] and e[1] is o]
                kind = type(o)
                if kind is m.MicropolImage and sum(isinstance(e[1], m.MicropolImage) and e[3] for e in entries) < 2:
                    continue
            else:
                c = [e for e in entries if e[3] and (type(e[1]) is kind)]
                if kind is m.MicropolImage and len(c) < 2:
                    continue
            if not c:
                continue
            e = c[op["a"] % len(c)]
            e[3] = False
            scribble(e[1])
            for pool in (W.imgs, W.plain, W.demods, W.arrays):
                pool[:] = [o for o in pool if o is not e[1]]
            if kind is m.Demodulator and not W.demods:
                W.demods.append(m.Demodulator(os.path.join(env.root, "demod0")))
                add("demodulator again", W.demods[0])
            if kind in (m.Image, np.ndarray):
                pool = W.plain if kind is m.Image else W.arrays
                if not pool:
                    pool.append(m.Image(np.ones((W.h, W.w))) if kind is m.Image else np.ones((W.h, W.w)))
                    add("fresh", pool[0])
            env.note(n, "scribble", e[0])
            env.probes["scribbled"] += 1
            check(f"writing into {e[0]}")
            continue
        if name in ("save", "show"):
            img = ops.pick(W.imgs, op["a"])
            if img is None or op.get("kind") == "demo" and img.demosaiced_images is None or op.get("how") == "demo" and img.demosaiced_images is None:
                continue
            if op.get("kind") == "raw" and img.data.dtype.kind == "f":
                op = dict(op, kind="fits")
            fn = (lambda: save(op, img, env.root, n)) if name == "save" else (lambda: show(op["how"], img))
            target = None
        else:
            target = ops.target(op, W)
            source = W.plain[op["a"] % len(W.plain)] if name.startswith("image_") else ops.pick(W.imgs, op["a"])
            fn = lambda: ops.execute(op, W)
        f = op.get("fault")
        if f:
            out = attempt.under(env, fn, env.root, f, must_work=True)
        else:
            out = attempt.Outcome()
            out.value = fn()
        env.note(n, name, out.text())
        check(what + " which " + out.text(), target)
        if target is not None:
            e = next(e for e in entries if e[1] is target)
            if out.raised is not None and f and f["mode"] == "interrupt":
                e[3] = False         # anything goes for an interrupted in-place operation
                W.imgs[:] = [o for o in W.imgs if o is not target]
                W.demods[:] = [o for o in W.demods if o is not target]
                if not W.imgs:
                    return
            else:
                e[2] = state(target)
        if out.raised is None and out.value is not None and name not in ("save", "show"):
            _, new, vals = out.value
            for o in new:
                if target is None:
                    last = (o, source)
                    env.check(not any(e[1] is o for e in entries), "not-new", f"{what} returned an image that existed before instead of a new one")
                if isinstance(o, m.MicropolImage) and o is not target and len(W.imgs) < 9:
                    W.imgs.append(o)
                elif type(o) is m.Image and len(W.plain) < 5:
                    W.plain.append(o)
                if o is not target and len(entries) < 24:
                    add(f"result of step {n} ({name})", o)
            if name == "funcs":
                values += [np.asarray(v) for v in vals]
            check(what)

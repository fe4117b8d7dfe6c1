"""C01: every acknowledged save reads back exactly, under benign I/O conditions
(short and interrupted transfers), overwrites, and concurrent savers."""
import os

from .. import lib, native, saves, sched
from ..lib import Seam

RUNS = {"quick": 900, "thorough": 20000}
WARM = {"demosaic": ["<f8", "<u2", "<i2"]}
LISTS = ["ops", "faults", "sched.switches"]
RULE = ("seeded scenario: 1-3 images (7 dtypes, from arrays or from plain/scaled fits files), 1-6 save operations of every kind "
        "with random names, directories, ranges and overwrites, 0-3 short/interrupted transfers placed by a dry run, sequential or as "
        "threads under a seeded line-level schedule; non-trivial = at least one acknowledged file was read back and compared")
ASSUMPTIONS = ["raw saves are judged for 8/16-bit integer images only", "range limits are judged on data without NaN"]


def gen(rng, tier, i):
    imgs = [saves.gen_source(rng, rng.choice([8, 24, 24, 200 if rng.random() < 0.1 else 24])) for _ in range(rng.randrange(1, 4))]
    conc = rng.random() < 0.35
    ops = [saves.gen_op(rng, len(imgs), imgs) for _ in range(rng.randrange(2, 4) if conc else rng.randrange(1, 7))]
    if conc:
        for k, op in enumerate(ops):
            d, b = os.path.split(op["path"])
            op["path"] = os.path.join(d, f"t{k}{b}")
    scn = {"imgs": imgs, "ops": ops, "faults": lib.gen_benign(rng), "conc": conc, "memmap": rng.random() < 0.6,
           "junk": rng.choice([None, None, "junk", "same", "same"]), "relatives": rng.random() < 0.3}
    if conc:
        scn["sched"] = sched.rand_spec(rng, len(ops))
    return scn


def run(scn, env):
    from astropy.io import fits
    fits.conf.use_memmap = scn["memmap"]
    root = env.root
    imgs = [saves.build(s, root, k) for k, s in enumerate(scn["imgs"])]
    for s, img in zip(scn["imgs"], imgs):
        env.check(lib.same(img.data, saves.expected_values(s)), "loaded-values",
                  lambda: f"image made from {s} holds other values: {lib.diff(img.data, saves.expected_values(s))}")
    for op in scn["ops"]:
        if op["kind"] == "demo":
            imgs[op["img"]].demosaic(op["mode"])
    cards0 = [saves.cards_of(img) for img in imgs]
    model, src, kinds = {}, {}, {}
    plan = []
    for op in scn["ops"]:
        c = saves.contents(op, imgs[op["img"]])
        plan.append(c)
    if scn["junk"] == "same":
        # earlier saves of images that differ in their pixel values only
        for k, op in enumerate(scn["ops"]):
            spec = scn["imgs"][op["img"]]
            old = saves.build(dict(spec, seed=spec["seed"] + 1), root, f"old{k}")
            if op["kind"] == "demo":
                old.demosaic(op["mode"])
            saves.perform(op, old, root)
            env.probes["overwrites_same_size"] += 1
    elif scn["junk"]:
        for p in list(plan[0])[:2]:
            full = os.path.join(root, p)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as f:
                f.write(b"junk " * 30000)
            env.probes["overwrites_longer_file"] += 1

    def everything():
        for op in scn["ops"]:
            saves.perform(op, imgs[op["img"]], root)

    others = {}
    for p in list(plan[0])[:1]:
        for ext in (".tmp", ".bak", ".part", "~", ".fits.tmp", ".lock"):
            q = os.path.normpath(os.path.splitext(p)[0] + ext)
            os.makedirs(os.path.dirname(os.path.join(root, q)), exist_ok=True)
            with open(os.path.join(root, q), "w") as f:
                f.write("of somebody else")
            others[q] = True
    if scn.get("relatives"):
        for c, op in zip(plan, scn["ops"]):
            for q in saves.relatives(list(c)[-1:], os.path.normpath(os.path.splitext(op["path"])[0])):
                if not any(q in c for c in plan):
                    os.makedirs(os.path.dirname(os.path.join(root, q)), exist_ok=True)
                    with open(os.path.join(root, q), "w") as f:
                        f.write("of somebody else")
                    others[q] = True

    faults = []
    if scn["faults"]:
        info = lib.dry(everything, root)
        faults = [f for f in (lib.place(f, info["counts"]) for f in scn["faults"]) if f]

    def verify(k, op):
        cards = scn["imgs"][op["img"]]["cards"]
        for p, arr in plan[k].items():
            model[p] = arr
            src[p] = () if op["kind"] == "raw" else cards
            kinds[p] = (op["kind"], cards0[op["img"]])
        for p, arr in model.items():
            bad = saves.holds(os.path.join(root, p), arr, src[p])
            env.check(bad is None, "read-back", lambda: f"after acknowledged {op['kind']} save: {p}: {bad}")
            bad = saves.header_fault(os.path.join(root, p), *kinds[p])
            env.check(bad is None, "header", lambda: f"after acknowledged {op['kind']} save: {p}: {bad}")
        env.ops["save_" + op["kind"]] += 1

    with Seam(env, root, faults) as seam:
        if scn["conc"] and len(scn["ops"]) > 1:
            tasks = [lambda op=op: saves.perform(op, imgs[op["img"]], root) for op in scn["ops"]]
            sc = sched.Sched(tasks, scn["sched"], PKG())
            res = sc.run()
            env.sched = sc.recorded()
            env.steps += sc.step
            env.probes["context_switches"] += len(sc.switches)
            env.note("switches", sc.switches)
            native.L.sim_pause(1)
            for op, (st, exc) in zip(scn["ops"], res):
                if st == "exc":
                    raise exc
            for k, op in enumerate(scn["ops"]):
                verify(k, op)
            native.L.sim_pause(0)
        else:
            for k, op in enumerate(scn["ops"]):
                saves.perform(op, imgs[op["img"]], root)
                native.L.sim_pause(1)
                verify(k, op)
                native.L.sim_pause(0)
    # no other file appeared
    now = {p for p, v in lib.tree(root).items() if v != "dir"}
    env.check(now == set(model) | set(others), "files", lambda: f"files {sorted(now)} instead of {sorted(set(model) | set(others))}")
    for q in others:
        with open(os.path.join(root, q)) as f:
            env.check(f.read() == "of somebody else", "bystander", lambda: f"the file {q} of somebody else changed")
    # and the package itself loads the same values
    for p, arr in model.items():
        if p.endswith(".fits"):
            got = saves.load_values(os.path.join(root, p))
            env.check(lib.same(got, arr), "load-back", lambda: f"{p}: {lib.diff(got, arr)}")


def PKG():
    from ..runner import PKG as p
    return p

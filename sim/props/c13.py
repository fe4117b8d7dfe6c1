"""C13: concurrent callers get what they would get one after another."""
import json
import os
import random

import numpy as np

from .. import lib, ops, program, sched
from ..lib import Seam
from ..runner import PKG

RUNS = {"quick": 1100, "thorough": 36000}
WARM = {"demosaic": ["<f8", "<u2", "<i2"], "ifov": ["<f8", "<u2", "<i2"], "shift": ["<f8"]}
LISTS = ["tasks", "prefix", "sched.switches"]
RULE = ("seeded schedule over 2-4 threads, switching between source lines of the package and file operations: each thread runs its own program, or computes from images, "
        "demodulators and files shared by all, or saves into one new folder, or sets and uses the default orientations; one thread may fail or be interrupted; "
        "results are compared bitwise with the sequential ones, the history of the default orientations with an atomic register; "
        "non-trivial = results of at least two threads were judged")
ASSUMPTIONS = ["no thread changes an image, array or file another one is using", "threads switch between source lines of the package and at file operations, not inside one numpy call",
               "plots are not drawn from several threads"]
STUB = "thread scheduler, libc file calls (simio.so), process pool"

OWN = ["ops", "ops", "ops", "save", "save", "list", "demod", "convert", "pure"]


MISC = ["file", "list", "matrices", "convert-nothing", "pure", "pure", "pure", "roi", "roi"]


def misc_op(rng, kinds, seeds):
    op = {"op": rng.choice(kinds), "s": rng.getrandbits(8)}
    if op["op"] in ("pure", "roi"):
        fn = rng.choice(program.PURE) if op["op"] == "pure" else rng.choice(["roi", "nrgf"])
        op.update(op="pure", fn=fn, mid=rng.random() < 0.4, seed=rng.choice(seeds) if seeds else rng.getrandbits(20))
    return op


def gen(rng, tier, i):
    n = rng.choice([2, 2, 2, 3, 4])
    r = rng.random()
    if r < 0.35:
        scn = {"mode": "own", "tasks": [[program.gen_item(rng, OWN + (["calib"] if rng.random() < 0.06 else [])) for _ in range(rng.randrange(1, 3))] for _ in range(n)]}
        if rng.random() < 0.5:  # the same work on other values in every thread
            scn["tasks"] = [scn["tasks"][0]] + [program.siblings(rng, scn["tasks"][0]) for _ in range(n - 1)]
    elif r < 0.5:  # one call each, of the same few objects
        kinds = ops.RESULT + ops.QUERY
        first = ops.gen_op(rng, [kinds[i // 3 % len(kinds)]])
        other = [rng.choice([lambda: {"op": "look", "s": 0, "n": 50}, lambda: {"op": "look", "s": 0, "n": rng.choice([5, 50])}, lambda: ops.gen_op(rng, [first["op"]]), lambda: ops.gen_op(rng, kinds)])() for _ in range(rng.choice([1, 1, 2]))]
        scn = {"mode": "shared", "world": dict(ops.gen_world(rng, 8, n=1), dtypes=["<f8"]), "prefix": [ops.gen_op(rng, ops.INPLACE) for _ in range(rng.randrange(0, 2))],
               "tasks": [[first]] + [[op] for op in other], "rounds": 10}
        n = len(scn["tasks"])
    elif r < 0.72:
        kinds, misc, seeds = ops.RESULT + ops.QUERY, MISC, None
        if rng.random() < 0.5:  # every thread in the same part of the package
            if rng.random() < 0.5:
                kinds, misc = [rng.choice(kinds) for _ in range(rng.choice([1, 2]))], None
            else:
                kinds, misc, seeds = None, [rng.choice(MISC)], [rng.getrandbits(20) for _ in range(2)]
        scn = {"mode": "shared", "world": ops.gen_world(rng, 10, n=rng.randrange(1, 3)), "prefix": [ops.gen_op(rng, ops.INPLACE) for _ in range(rng.randrange(0, 2))],
               "tasks": [[misc_op(rng, misc, seeds) if kinds is None or misc and rng.random() < 0.4 else ops.gen_op(rng, kinds)
                          for _ in range(rng.randrange(1, 4))] for _ in range(n)]}
    elif r < 0.82:
        scn = {"mode": "folder", "deep": rng.choice(["new", "new/a/b", "x y/z"]), "img": rng.getrandbits(30),
               "tasks": [[{"kind": rng.choice(["fits", "fits", "pols", "params", "param", "demo"]), "param": "I"} for _ in range(rng.randrange(1, 3))] for _ in range(n)]}
    else:
        scn = {"mode": "defaults", "tasks": [[rng.choice([{"op": "set", "k": rng.randrange(4)}, {"op": "set", "k": rng.randrange(4)}, {"op": "make"}, {"op": "make"},
                                                          {"op": "make"}, {"op": "explicit", "k": rng.randrange(4)}, {"op": "copy"}, {"op": "rebin"}])
                                              for _ in range(rng.randrange(1, 5))] for _ in range(n)], "unset": rng.random() < 0.4}
    if scn["mode"] in ("own", "shared") and rng.random() < 0.3:
        scn["interrupt"] = [rng.randrange(n), rng.randrange(1, 400)]
    scn["sched"] = sched.rand_spec(rng, n)
    if scn["mode"] == "defaults" and rng.random() < 0.5:
        scn["sched"].update(kind="site", rate=rng.choice([1, 2, 4, 8]), nth=rng.choice([1, 1, 2, 3]))
    return scn


def shrink(scn):
    if "interrupt" in scn:
        yield {k: v for k, v in scn.items() if k != "interrupt"}
    for t, tk in enumerate(scn["tasks"]):
        for j in range(len(tk)):
            if len(tk) > 1:
                yield dict(scn, tasks=[x[:j] + x[j + 1:] if q == t else x for q, x in enumerate(scn["tasks"])])


def own_task(items, root):
    def go():
        return json.loads(json.dumps(program.run_program(items, root), default=str))
    return go


def shared_setup(scn, root):
    m = lib.ml()
    W = ops.World(scn["world"], root)
    for op in scn["prefix"]:
        ops.execute(op, W)
    W.files = []
    for k in range(3):
        f = os.path.join(root, f"src{k}.fits")
        lib.write_fits(f, lib.make({"seed": k + scn["world"]["seed"], "h": 6, "w": 8, "dtype": "<f8", "kind": "rand"}), [("DATE-OBS", f"2020-01-01T00:00:0{k}")])
        W.files.append(f)
    return W


def shared_op(op, W):
    m = lib.ml()
    if op["op"] == "file":
        return [program._ostate(m.MicropolImage(W.files[op["s"] % 3], angle_dic=lib.CAMERA))]
    if op["op"] == "list":
        return [program._ostate(m.Image(W.files[:2 + op["s"] % 2], averageimages=bool(op["s"] % 4 // 2)))]
    if op["op"] == "matrices":
        d = m.Demodulator(os.path.join(W.root, f"demod{op['s'] % 2}"))
        return [lib.demod_state(d)]
    if op["op"] == "pure":
        a = W.arrays[op["s"] % 2]
        if min(a.shape) < 5:
            return None
        try:
            return [lib.adig(v) for v in program._pure(op["fn"], a, random.Random(op["seed"]), op["mid"])]
        except Exception as exc:  # e.g. a line that leaves the image
            return [type(exc).__name__]
    if op["op"] == "look":
        seen = []
        for _ in range(op.get("n", 1)):
            w = world_state(W)
            if w not in seen:
                seen.append(w)
            if sched.current is not None:
                sched.current.offer()
        return seen
    if op["op"] == "convert-nothing":
        try:
            m.Image(os.path.join(W.root, "missing.fits"))
        except Exception as exc:
            return [type(exc).__name__]
        return ["loaded"]
    r = ops.execute(op, W)
    return None if r is None else [[program._ostate(o) for o in r[1]], [lib.adig(v) for v in r[2]]]


def world_state(W):
    return [lib.img_state(o) for o in W.imgs + W.plain] + [lib.demod_state(d) for d in W.demods] + [lib.adig(a) for a in W.arrays]


def concurrent(scn, env, fns, clk):
    ints = [scn["interrupt"]] if "interrupt" in scn and scn["interrupt"][0] < len(fns) else []
    with Seam(env, env.root, budget=20000):
        sc = sched.Sched(fns, scn["sched"], PKG, interrupts=ints)
        clk[0] = lambda: sc.step
        res = sc.run()
    env.sched = sc.recorded()
    env.steps += sc.step
    env.note("switches", sc.switches)
    env.trace += sc.trail
    env.faults["interrupt"] += sc.fired_interrupts
    env.faults["thread_switch"] += len(sc.switches)
    env.check(not sc.overrun, "no-progress", "the threads did not end")
    return res


def run(scn, env):
    m = lib.ml()
    m.set_default_angles(dict(lib.CAMERA))
    T = scn["tasks"]
    if not T:
        return
    mode = scn["mode"]
    clk = [lambda: 0]
    hit = lambda t, r: r[0] == "exc" and isinstance(r[1], sched.Interrupted) and t == scn.get("interrupt", [None])[0]
    if mode == "own":
        # the paths must be the same in both executions
        base = os.path.join(env.root, "w")
        os.makedirs(base)
        want = [own_task(items, os.path.join(base, f"t{t}"))() for t, items in enumerate(T)]
        os.rename(base, os.path.join(env.root, "sequential"))
        os.makedirs(base)
        res = concurrent(scn, env, [own_task(items, os.path.join(base, f"t{t}")) for t, items in enumerate(T)], clk)
        for t, r in enumerate(res):
            if hit(t, r):
                continue
            if r[0] == "exc":
                env.check(False, "failed-concurrently", f"thread {t} raised {type(r[1]).__name__}: {r[1]}, but not when it runs alone")
            env.check(r[1] == want[t], "differs-concurrently", lambda: f"thread {t}: {first(want[t], r[1])}")
            env.ops["own"] += 1
        os.rename(base, os.path.join(env.root, "concurrent"))
        os.makedirs(base)
        again = own_task(T[0], os.path.join(base, "t0"))()
        env.check(again == want[0], "differs-afterwards", lambda: f"after the concurrent run: {first(want[0], again)}")
        return
    if mode == "shared":
        W = shared_setup(scn, env.root)
        want = [[shared_op(op, W) for op in tk] for tk in T]
        before = world_state(W)
        for k in range(scn.get("rounds", 1) if scn["sched"]["kind"] != "explicit" else 1):  # the same calls in other schedules
            if k:
                scn = dict(scn, sched=dict(scn["sched"], kind="site", seed=scn["sched"]["seed"] + k, first=(k + 1) // 2 % len(T), rate=[1, 2, 4, 8][k % 4], nth=1 + k % 5 // 3))
            res = concurrent(scn, env, [lambda tk=tk: [shared_op(op, W) for op in tk] for tk in T], clk)
            for t, r in enumerate(res):
                if hit(t, r):
                    continue
                if r[0] == "exc":
                    env.check(False, "failed-concurrently", f"thread {t} ({T[t]}) raised {type(r[1]).__name__}: {r[1]}, but not when it runs alone")
                for op, a, b in zip(T[t], want[t], r[1]):
                    env.check(a == b, "differs-concurrently", lambda: f"thread {t}: {ops.describe(op)} gave another result than when run alone")
                    env.ops[op["op"]] += 1
            env.check(world_state(W) == before, "changed-shared", "computing from shared images changed them")
        again = [[shared_op(op, W) for op in tk] for tk in T]
        env.check(again == want, "differs-afterwards", "after the concurrent run the same operations give other results")
        return
    if mode == "folder":
        from .. import saves
        g = np.random.Generator(np.random.PCG64(scn["img"]))
        imgs = []
        for t in range(len(T)):
            img = m.MicropolImage(g.random((6, 8)) * 100, angle_dic=lib.CAMERA)
            img.demosaic()
            imgs.append(img)
        want = {}

        def task(t):
            def go():
                for j, op in enumerate(T[t]):
                    saves.perform(dict(op, path=f"{scn['deep']}/t{t}_{j}.fits", abs=True), imgs[t], env.root)
            return go
        for t, tk in enumerate(T):
            for j, op in enumerate(tk):
                want.update(saves.contents(dict(op, path=f"{scn['deep']}/t{t}_{j}.fits"), imgs[t]))
        res = concurrent(scn, env, [task(t) for t in range(len(T))], clk)
        for t, r in enumerate(res):
            env.check(r[0] == "ok", "failed-concurrently", lambda: f"thread {t} could not save into the new folder: {type(r[1]).__name__}: {r[1]}")
            env.ops["folder"] += 1
        for p, a in want.items():
            bad = saves.holds(os.path.join(env.root, p), a)
            env.check(bad is None, "differs-concurrently", lambda: f"{p}: {bad}")
        extra = [p for p, v in lib.tree(env.root).items() if v != "dir" and p not in want]
        env.check(not extra, "left-over", f"unexpected files {extra}")
        return
    # ------------------------------------------------------- default orientations
    dics = lib.angle_dics()
    hist = []
    src = m.MicropolImage(np.arange(64.0).reshape(8, 8), angle_dic=dics[2])
    key = lambda d: sorted(d.items())
    init = 0
    if scn.get("unset"):  # nobody set any orientations yet: those of the camera count
        own = [j for j, d in enumerate(dics) if key(d) == key(m.PolarCam().angle_dic)]
        if own:
            init = own[0]
            m.set_default_angles(None)

    def task(t):
        def go():
            for op in T[t]:
                start = clk[0]()
                if op["op"] == "set":
                    m.set_default_angles(dict(dics[op["k"]]))
                    hist.append(("set", op["k"], start, clk[0](), t))
                    continue
                if op["op"] == "make":
                    img = m.MicropolImage(np.arange(64.0).reshape(8, 8) + t)
                elif op["op"] == "explicit":
                    img = m.MicropolImage(np.arange(64.0).reshape(8, 8) + t, angle_dic=dict(dics[op["k"]]))
                elif op["op"] == "copy":
                    img = m.MicropolImage(src)
                else:
                    img = src.rebin(2)
                end = clk[0]()
                hist.append((op["op"], (img, op.get("k")), start, end, t))
        return go

    res = concurrent(scn, env, [task(t) for t in range(len(T))], clk)
    for t, r in enumerate(res):
        env.check(r[0] == "ok", "failed-concurrently", lambda: f"thread {t} raised {type(r[1]).__name__}: {r[1]}")
    final = m.MicropolImage(np.arange(64.0).reshape(8, 8))
    hist.append(("make", (final, None), 1 << 40, 1 << 40, -1))
    events = []
    for kind, v, s, e, t in hist:
        env.ops["defaults_" + kind] += 1
        if kind == "set":
            events.append(("w", v, s, e, t))
            continue
        img, k = v
        got = key(img.angle_dic)
        known = [j for j, d in enumerate(dics) if key(d) == got]
        env.check(bool(known), "mixed-defaults", lambda: f"an image made by thread {t} has orientations {got}, which nobody set")
        ref = m.MicropolImage(np.array(img.data), angle_dic=dict(img.angle_dic))
        env.check(lib.img_state(ref)["stokes"] == lib.img_state(img)["stokes"], "mixed-defaults",
                  lambda: f"an image made by thread {t} has parameters of other orientations than the ones it reports")
        if kind == "make":
            events.append(("r", known[0], s, e, t))
        else:
            exp = k if kind == "explicit" else 2
            env.check(known[0] == exp, "wrong-orientations", lambda: f"an image made by thread {t} ({kind}) has orientations {got} instead of {key(dics[exp])}")
    env.note("history", sorted((e[4], e[2], e[0], e[1]) for e in events))
    env.check(linearizable(events, init), "not-linearizable", lambda: f"no order of the calls explains the default orientations seen: {sorted(events, key=lambda e: e[2])}")


def first(a, b):
    for x, y in zip(a, b):
        if x != y:
            return f"{x[0]}: {json.dumps(x[1])[:300]} alone, {json.dumps(y[1])[:300]} concurrently"
    return "different length"


def linearizable(events, init):
    """Atomic register: events (kind, value, start, end, thread).  An operation that
    starts at the step another one ends is after it only in the same thread."""
    ev = list(events)
    n = len(ev)
    before = [0] * n
    order = {}
    for j in range(n):
        for i in range(n):
            if i != j and (ev[i][3] < ev[j][2] or ev[i][4] == ev[j][4] and i < j and ev[i][3] <= ev[j][2]):
                before[j] |= 1 << i
    seen = set()
    todo = [(0, init)]
    while todo:
        done, val = todo.pop()
        if done == (1 << n) - 1:
            return True
        if (done, val) in seen:
            continue
        seen.add((done, val))
        for i in range(n):
            if done >> i & 1 or before[i] & ~done:
                continue
            if ev[i][0] == "w":
                todo.append((done | 1 << i, ev[i][1]))
            elif ev[i][1] == val:
                todo.append((done | 1 << i, val))
    return False

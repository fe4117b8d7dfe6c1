"""Sessions over the computing functions of the package (C15-C18).

One world of arrays, images, demodulators and argument lists that belongs to the
caller; a seeded sequence of calls on it, from one thread or from several under the
scheduler.  Calls run out of memory or are interrupted at drawn points and are then
repeated, fresh memory is filled with garbage, the caller overwrites the results it
was given and puts new values into its own arrays, and other parts of the package
work in between.  Every result is compared with an independent reference."""
import os
import random
import sys

import numpy as np

from . import lib, native, ops, program, sched
from .runner import PKG

SIZES = [(8, 10), (12, 12), (16, 12), (10, 24)]


class Stop(KeyboardInterrupt):
    """An interruption by the simulator."""


class World:
    def __init__(self, spec, root):
        m = lib.ml()
        self.spec, self.root, self.m = spec, root, m
        self.h, self.w = spec["h"], spec["w"]
        self.arrays = [lib.make({"seed": spec["seed"] + k, "h": self.h, "w": self.w, "dtype": dt, "kind": kind}) for k, (dt, kind) in enumerate(spec["arrays"])]
        self.lists, self.cameras, self.threads = {}, {}, False
        if spec.get("images"):
            self.ops = ops.World(dict(spec["images"], h=self.h, w=self.w), os.path.join(root, "w"))
            for op in spec["prefix"]:
                r = ops.execute(op, self.ops)
                if r:
                    self.ops.imgs += [o for o in r[1] if isinstance(o, m.MicropolImage) and not any(o is p for p in self.ops.imgs)]

    def args(self, name, values):
        """The caller's list of arguments: the same object whenever it is used again."""
        return self.lists.setdefault((name, *values), list(values))

    def state(self):
        s = [lib.adig(a) for a in self.arrays] + [repr(sorted(self.lists.items(), key=str))]
        if self.spec.get("images"):
            s += [lib.img_state(o) for o in self.ops.imgs] + [lib.demod_state(d) for d in self.ops.demods]
        return s


def view(a, c):
    """The array as the call sees it."""
    return a.T if c.get("view") == "T" else a[::-1] if c.get("view") == "flip" else a[:, ::-1] if c.get("view") == "mirror" else a


def gen(rng, fam, n_calls=(3, 9), images=False):
    h, w = rng.choice(SIZES)
    world = {"h": h, "w": w, "seed": rng.getrandbits(30), "arrays": [[rng.choice(["<f8", "<f8", "<u2", "<i2"]), rng.choice(["rand", "rand", "grad", "wide", "sparse"])] for _ in range(3)]}
    if images:
        world["images"] = dict(ops.gen_world(rng, 12), h=h, w=w)
        world["prefix"] = [ops.gen_op(rng, ops.INPLACE + ["demod"] * 4 + ["turn", "copy", "arith", "rotate", "shift"]) for _ in range(rng.randrange(0, 6))]
    scn = {"world": world, "poison": rng.choice([None, None, "nan", 1e9, 7.0, -3.0])}
    few = [fam(rng, world) for _ in range(rng.choice([2, 3, 6]))]

    def step(threads):
        c = rng.choice(few) if rng.random() < 0.5 else fam(rng, world)
        s = {"call": c, "spoil": rng.random() < 0.5}
        r = rng.random()
        if threads:
            return s
        if r < 0.25:
            s["alloc"] = round(rng.random(), 4)
        elif r < 0.35:
            s["stop"] = rng.randrange(1, 60)
        elif r < 0.45:
            s = {"rewrite": rng.randrange(3), "seed": rng.getrandbits(30)}
        elif r < 0.5 and images:
            s = {"turn": ops.gen_op(rng, ["turn"])} if rng.random() < 0.6 else {"scale": rng.randrange(4), "by": rng.choice([0.5, 2.0, -1.0, 1.25])}
        elif r < 0.55:
            s = {"other": rng.choice(program.PURE), "seed": rng.getrandbits(20), "mid": rng.random() < 0.5}
        return s
    if rng.random() < 0.3:
        n = rng.choice([2, 2, 3])
        scn["tasks"] = [[step(True) for _ in range(rng.randrange(1, 4))] for _ in range(n)]
        if rng.random() < 0.6:  # the same function everywhere
            c = rng.choice(few)
            scn["tasks"][0][0]["call"] = c
            for t in scn["tasks"][1:]:
                t[0]["call"] = dict(fam(rng, world, c["fn"]))
        scn["sched"] = sched.rand_spec(rng, n)
    else:
        scn["steps"] = [step(False) for _ in range(rng.randrange(*n_calls))]
    return scn


def shrink(scn):
    if scn.get("poison") is not None:
        yield dict(scn, poison=None)
    for key in ("alloc", "stop"):
        for k, s in enumerate(scn.get("steps", [])):
            if key in s:
                yield dict(scn, steps=scn["steps"][:k] + [{a: b for a, b in s.items() if a != key}] + scn["steps"][k + 1:])
    for t, tk in enumerate(scn.get("tasks", [])):
        for j in range(len(tk)):
            if len(tk) > 1:
                yield dict(scn, tasks=[x[:j] + x[j + 1:] if q == t else x for q, x in enumerate(scn["tasks"])])
    if scn["world"].get("prefix"):
        for j in range(len(scn["world"]["prefix"])):
            yield dict(scn, world=dict(scn["world"], prefix=scn["world"]["prefix"][:j] + scn["world"]["prefix"][j + 1:]))


def interrupted(fn, n):
    """fn(), interrupted when it reaches its n-th source line of the package."""
    left = [n]

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] == 0:
                raise Stop("injected")
        return local

    def tracer(frame, event, arg):
        return local(frame, event, arg) if frame.f_code.co_filename.startswith(PKG) and frame.f_code.co_name != "<module>" else None
    sys.settrace(tracer)
    try:
        return fn(), False
    except Stop:
        return None, True
    finally:
        sys.settrace(None)


def count(fn):
    """How many allocations fn makes, in a forked copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            native.use_sim_allocator()
            native.alloc(True, minsize=64)
            try:
                fn()
            except Exception:
                pass
            os.write(w, str(native.L.sim_alloc_count()).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return int(data or 0)


def same(env, c, got, want, rtol=1e-9, atol=0.0, what="result", judged=None):
    """got equals want (where judged)."""
    got, want = np.asarray(got), np.asarray(want)
    env.check(got.shape == want.shape, "wrong-result", lambda: f"{describe(c)}: {what} has shape {got.shape} instead of {want.shape}")
    if judged is not None:
        got, want = got[judged], want[judged]
    if want.dtype.kind == "b":
        ok = bool((got.astype(bool) == want).all()) and got.dtype.kind == "b"
    else:
        ok = bool(np.allclose(got.astype(float), want.astype(float), rtol=rtol, atol=atol, equal_nan=True))
    env.check(ok, "wrong-result", lambda: f"{describe(c)}: {what} is wrong: {lib.diff(got, want) if got.ndim and judged is None else (got, want)}"[:900])


def describe(c):
    return c["fn"] + "".join(f" {k}={v}" for k, v in c.items() if k != "fn")


def spoil(out):
    """The caller uses the memory of a result for something else."""
    for v in out:
        if isinstance(v, np.ndarray) and v.flags.writeable and v.ndim:
            v[...] = 77 if v.dtype.kind != "b" else True
        elif isinstance(v, list):
            spoil([x for x in v if isinstance(x, np.ndarray)])


def run(scn, env, fam):
    m = lib.ml()
    m.set_default_angles(dict(lib.CAMERA))
    W = World(scn["world"], env.root)
    poison = scn.get("poison")

    def fresh():
        if poison is not None:
            native.alloc(True, poison=True, pattern=float(poison))
        else:
            native.alloc(False)

    def freeze(out):
        """What was returned, safe from what happens to it later."""
        return [np.array(v) if isinstance(v, np.ndarray) else v for v in out]
    native.use_sim_allocator()
    if "tasks" in scn:
        W.threads = True
        inputs = [a.copy() for a in W.arrays]
        got = [[] for _ in scn["tasks"]]
        before = W.state()

        def task(t):
            def go():
                for s in scn["tasks"][t]:
                    try:
                        out = fam.call(s["call"], W)
                    except fam.REFUSED as exc:
                        out = exc
                    got[t].append((s["call"], out if isinstance(out, Exception) else freeze(out)))
                    if s["spoil"] and not isinstance(out, Exception):
                        spoil(out)
            return go
        fresh()
        with lib.Seam(env, env.root, budget=20000):
            sc = sched.Sched([task(t) for t in range(len(scn["tasks"]))], scn["sched"], PKG, setup=native.use_sim_allocator)
            res = sc.run()
        native.alloc(False)
        env.sched, env.steps = sc.recorded(), env.steps + sc.step
        env.faults["thread_switch"] += len(sc.switches)
        env.note("switches", sc.switches)
        for t, r in enumerate(res):
            env.check(r[0] == "ok", "failed-concurrently", lambda: f"thread {t} raised {type(r[1]).__name__}: {r[1]}")
        now = W.state()
        env.check(len(now) == len(before) and all(a == b or i == len(W.arrays) for i, (a, b) in enumerate(zip(before, now))), "changed-arguments",
                  "the calls changed an array, image or demodulator of the caller")
        for t in range(len(got)):
            for c, out in got[t]:
                fam.judge(env, c, W, inputs, out)
                check_lists(env, c, W)
                env.ops[c["fn"]] += 1
                env.note(t, describe(c))
        return
    for k, s in enumerate(scn["steps"]):
        if "rewrite" in s:
            a = W.arrays[s["rewrite"]]
            a[...] = lib.make(dict(seed=s["seed"], h=W.h, w=W.w, dtype=a.dtype.str, kind="rand"))
            env.faults["rewritten_argument"] += 1
            continue
        if "turn" in s:
            ops.execute(s["turn"], W.ops)
            env.faults["turned_demodulator"] += 1
            continue
        if "scale" in s:
            d = W.ops.demods[s["scale"] % len(W.ops.demods)]
            d.mij *= s["by"]
            env.faults["changed_demodulator"] += 1
            continue
        if "other" in s:
            try:
                program._pure(s["other"], np.array(W.arrays[0], float), random.Random(s["seed"]), s["mid"])
            except Exception:
                pass
            env.faults["other_work"] += 1
            continue
        c = s["call"]
        before, inputs = W.state(), [a.copy() for a in W.arrays]
        keep = {key: list(v) for key, v in W.lists.items()}

        def unchanged(when):
            now = W.state()
            skip = len(W.arrays)  # argument lists may be new
            env.check(len(now) == len(before) and all(a == b or i == skip for i, (a, b) in enumerate(zip(before, now))), "changed-arguments",
                      lambda: f"{describe(c)}{when} changed an array, image or demodulator of the caller")
            env.check(all(W.lists[key] == v for key, v in keep.items()), "changed-arguments",
                      lambda: f"{describe(c)}{when} changed a list of the caller")
            check_lists(env, c, W)

        def attempt():
            try:
                return fam.call(c, W)
            except fam.REFUSED as exc:
                return exc
        if "alloc" in s and c["fn"] not in getattr(fam, "NO_ALLOC", ()):
            n = count(lambda: fam.call(c, W))
            native.alloc(True, poison=poison is not None, pattern=float(poison or 0), fail_at=int(s["alloc"] * n), minsize=64)
            try:
                out = fam.call(c, W)
            except Exception as exc:
                out = exc
            failed = native.L.sim_alloc_failed()
            native.alloc(False)
            if failed:
                env.faults["allocation"] += failed
                unchanged(" without memory")
                if not isinstance(out, Exception):
                    fam.judge(env, c, W, inputs, freeze(out))
                env.note(k, "alloc", type(out).__name__)
        elif "stop" in s:
            fresh()
            try:
                out, hit = interrupted(attempt, s["stop"])
            finally:
                native.alloc(False)
            if hit:
                env.faults["interrupt"] += 1
                unchanged(" interrupted")
        fresh()
        try:
            out = attempt()
        finally:
            native.alloc(False)
        if poison is not None:
            env.faults["memory_contents"] += 1
        fam.judge(env, c, W, inputs, out if isinstance(out, Exception) else freeze(out))
        unchanged("")
        env.ops[c["fn"]] += 1
        env.note(k, describe(c), type(out).__name__, *([lib.adig(v) for v in out if isinstance(v, np.ndarray)] if not isinstance(out, Exception) else []))
        if s["spoil"] and not isinstance(out, Exception):
            spoil(out)
            unchanged(": writing into its result")


def check_lists(env, c, W):
    for key, v in W.lists.items():
        env.check(list(key[1:]) == v, "changed-arguments", lambda: f"{describe(c)} changed a list of the caller: {list(key[1:])} is now {v}")

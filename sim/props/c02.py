"""C02: a save that fails or is killed never leaves something that passes for good data."""
import os

import numpy as np

from .. import attempt, lib, saves, sched
from ..lib import Seam
from ..runner import PKG

RUNS = {"quick": 1100, "thorough": 25000}
WARM = {"demosaic": ["<f8", "<u2", "<i2"]}
LISTS = ["faults", "fault.plans", "sched.switches"]
RULE = ("seeded scenario: one save or merge of every kind over an old or empty target, with 1-2 faults placed inside it by a dry run "
        "(I/O error, short write then error, full disk, failed close, failed allocation, interrupt, process kill at any operation or "
        "inside a write), or a saver racing a reader; non-trivial = the targets were judged after a fired fault or a racing read")
ASSUMPTIONS = ["crash = process kill: completed file operations survive (the code never syncs)",
               "one writer per target file at a time"]


def gen_target(rng):
    if rng.random() < 0.15:
        n = rng.randrange(1, 4)
        return {"kind": "merge", "mode": rng.choice(["sum", "average"]), "h": 2 * rng.randrange(2, 10), "w": 2 * rng.randrange(2, 10),
                "seeds": [[rng.getrandbits(20) for _ in range(n)] for _ in range(2)], "path": lib.rand_name(rng), "img": 0}
    imgs = None
    op = None
    a = saves.gen_source(rng, 40)
    b = saves.gen_source(rng, 40)
    b["angles"] = a["angles"]
    if rng.random() < 0.5:
        b["h"], b["w"] = a["h"], a["w"]
    imgs = [a, b]
    for _ in range(50):
        op = saves.gen_op(rng, 2, imgs)
        op["img"] = 1
        ok = True
        if op["kind"] == "raw":
            ok = all(s["dtype"] in ("<u2", "<i2", "|u1") and s["src"] != "scaled" for s in imgs)
        if op["kind"] == "demo":
            ok = all(s["dtype"] in ("<f8", "<u2", "<i2") or s["src"] != "array" for s in imgs)
        if ok:
            break
    else:
        op = {"kind": "fits", "img": 1, "abs": True, "path": "img.fits"}
    return dict(op, imgs=imgs)


def gen(rng, tier, i):
    t = gen_target(rng)
    scn = {"target": t, "old": rng.random() < 0.7, "memmap": rng.random() < 0.6}
    if rng.random() < 0.2 and t["kind"] != "merge":
        scn["mode"] = "race"
        scn["sched"] = sched.rand_spec(rng, 2)
        scn["rounds"] = rng.randrange(1, 4)
        scn["faults"] = [{"kinds": ["write"], "frac": round(rng.random(), 3), "action": "short", "arg": rng.choice([100, 500, 900])}
                         for _ in range(rng.randrange(0, 3))]
    else:
        scn["mode"] = "fault"
        scn["fault"] = attempt.gen_fault(rng)
    return scn


def shrink(scn):
    for k in ("imgs",):
        for n, s in enumerate(scn["target"].get("imgs", [])):
            if s["h"] > 4 or s["w"] > 4:
                c = dict(scn, target=dict(scn["target"], imgs=[dict(x) for x in scn["target"]["imgs"]]))
                c["target"]["imgs"][n].update(h=4, w=4)
                yield c
    if scn["old"]:
        yield dict(scn, old=False)


class Merge:
    def __init__(self, t, root):
        self.t, self.root = t, root
        self.names = [[], []]
        self.vals = [[], []]
        for v in range(2):
            for n, s in enumerate(t["seeds"][v]):
                a = lib.make({"seed": s, "h": t["h"], "w": t["w"], "dtype": "<u2", "kind": "rand"})
                p = os.path.join(root, f"in{v}_{n}.raw")
                with open(p, "wb") as f:
                    f.write(a.astype("<u2").tobytes())
                self.names[v].append(p)
                self.vals[v].append(a.astype(float))

    def contents(self, v):
        tot = np.sum(self.vals[v], axis=0)
        return {os.path.normpath(self.t["path"]): tot / len(self.vals[v]) if self.t["mode"] == "average" else tot}

    def perform(self, v):
        os.makedirs(os.path.dirname(os.path.join(self.root, self.t["path"])), exist_ok=True)
        lib.ml().merge_rawfiles_to_fits(list(self.names[v]), os.path.join(self.root, self.t["path"]), self.t["h"], self.t["w"], self.t["mode"])


class Save:
    def __init__(self, t, root):
        self.t, self.root = t, root
        self.imgs = [saves.build(s, root, k) for k, s in enumerate(t["imgs"])]
        if t["kind"] == "demo":
            for img in self.imgs:
                img.demosaic(t["mode"])

    def contents(self, v):
        return saves.contents(self.t, self.imgs[v])

    def perform(self, v):
        saves.perform(self.t, self.imgs[v], self.root)


def approx(path, arr):
    """None if the file holds arr (merges are judged with a rounding tolerance)."""
    bad = saves.holds(path, arr)
    if bad and path.endswith(".fits"):
        try:
            if lib.close(lib.read_fits(path)[0], arr, 1e-12, 1e-9):
                return None
        except (lib.BadFits, OSError):
            pass
    return bad


def passes_for(path, news, olds):
    """What a partially written target would be taken for: None if it is refused."""
    if path.endswith(".raw"):
        return None if os.path.getsize(path) < 2 * max(a.size for a in news) else "a complete raw image"
    try:
        got = saves.load_values(path)
    except Exception:
        return None
    for a in news + olds:
        if lib.close(got, a, 1e-12, 1e-9):
            return None
    return f"an image of shape {got.shape}"


def run(scn, env):
    from astropy.io import fits
    fits.conf.use_memmap = scn["memmap"]
    root, t = env.root, scn["target"]
    s = Merge(t, root) if t["kind"] == "merge" else Save(t, root)
    old, new = s.contents(0), s.contents(1)
    if scn["old"] or scn["mode"] == "race":
        s.perform(0)
        for p, arr in old.items():
            bad = approx(os.path.join(root, p), arr)
            env.check(bad is None, "read-back", lambda: f"{p}: {bad}")
    targets = sorted(set(old) | set(new))
    stem = os.path.splitext(t["path"])[0]
    by = {}
    for n in (t["path"] + ".bak", stem + ".txt", stem + "_X.fits", os.path.join(os.path.dirname(t["path"]), "SUM_other.fits"),
              t["path"] + ".tmp", stem + "POL.fits", *saves.relatives(targets[::2], os.path.normpath(stem))):
        if os.path.normpath(n) in targets or t["kind"] == "merge" and n.startswith("in"):
            continue
        full = os.path.join(root, n)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "wb") as f:
            f.write(b"bystander " + n.encode())
        by[os.path.normpath(n)] = True
    before = lib.tree(root)
    if scn["mode"] == "race":
        return race(scn, env, s, old, new, targets)

    out = attempt.under(env, lambda: s.perform(1), root, scn["fault"])
    done, seam = out.done, out.seam
    env.ops[t["kind"]] += 1

    after = lib.tree(root)
    for p in targets:
        full = os.path.join(root, p)
        if p in new and p in after and approx(full, new[p]) is None:
            env.checks += 1
            env.probes["target_new"] += 1
            continue
        if done:
            env.check(p not in new, "acknowledged-but-lost",
                      lambda: f"the save returned normally, but {p}: {approx(full, new[p])} (fault: {scn['fault']['mode']}, {seam.fired})")
            if p in old and p not in new:
                env.check(after.get(p) == before.get(p), "bystander", f"{p} changed")
            continue
        if after.get(p) == before.get(p):
            env.checks += 1
            env.probes["target_old"] += 1
            continue
        if p not in after:
            env.checks += 1
            env.probes["target_absent"] += 1
            continue
        env.probes["target_partial"] += 1
        what = passes_for(full, [new[p]] if p in new else list(new.values()), [old[p]] if p in old and scn["old"] else [])
        env.check(what is None, "passes-for-good", lambda: f"after a failed save {p} is neither the old nor the new image but loads as {what}")
    d = lib.tree_diff(before, {k: v for k, v in after.items() if k in before}, targets)
    env.check(not d, "bystander", lambda: f"a file that is no target changed: {d}")

    # an error that is reported leaves nothing behind (a kill may)
    if out.raised is not None and scn["fault"]["mode"] in ("io", "space") and not set(k for p in seam.fired for k in p["kinds"]) & {"unlink", "rename"} \
            and len(seam.fired) + bool(seam.enospc) <= 1:
        new_files = sorted(p for p, v in after.items() if v != "dir" and p not in before and p not in targets)
        env.check(not new_files, "left-behind", lambda: f"the failed save left files that are no target: {new_files}")

    # faults over: the same save succeeds
    try:
        s.perform(1)
    except Exception as exc:
        env.fail("retry", f"the retried save failed: {type(exc).__name__}: {exc}")
    for p, arr in new.items():
        bad = approx(os.path.join(root, p), arr)
        env.check(bad is None, "retry", lambda: f"after the retried save {p}: {bad}")
    d = lib.tree_diff(before, {k: v for k, v in lib.tree(root).items() if k in before}, targets)
    env.check(not d, "bystander", lambda: f"a file that is no target changed: {d}")


def race(scn, env, s, old, new, targets):
    """One saver alternates two images on the same target, one reader keeps loading it."""
    root = env.root
    both = [p for p in targets if p in old and p in new and p.endswith(".fits")]
    if not both:
        return
    target = both[scn["rounds"] % len(both)]
    got = []

    def saver():
        for r in range(scn["rounds"]):
            s.perform((r + 1) % 2)

    def reader():
        for _ in range(2 * scn["rounds"]):
            try:
                got.append(("ok", np.array(saves.load_values(os.path.join(root, target)))))
            except Exception as exc:
                got.append(("refused", type(exc).__name__))

    info = lib.dry(saver, root)
    faults = [f for f in (lib.place(f, info["counts"]) for f in scn["faults"]) if f]
    with Seam(env, root, faults, budget=20000) as seam:
        sc = sched.Sched([saver, reader], scn["sched"], PKG)
        res = sc.run()
    env.sched = sc.recorded()
    env.steps += sc.step
    env.note("switches", sc.switches)
    env.probes["context_switches"] += len(sc.switches)
    env.ops["race_" + s.t["kind"]] += 1
    env.check(not seam.budget_hit, "no-progress", "saving and loading did not end within 20000 file operations")
    if res[0][0] == "exc":
        raise res[0][1]
    if res[1][0] == "exc":
        raise res[1][1]
    for st, v in got:
        env.probes["read_" + st] += 1
        if st == "ok":
            env.check(lib.same(v, old[target]) or lib.same(v, new[target]), "torn-read",
                      lambda: f"a reader of {target} got a mix: vs old {lib.diff(v, old[target])}; vs new {lib.diff(v, new[target])}")
    last = s.contents(scn["rounds"] % 2)
    for p, arr in last.items():
        bad = saves.holds(os.path.join(root, p), arr)
        env.check(bad is None, "read-back", lambda: f"{p}: {bad}")

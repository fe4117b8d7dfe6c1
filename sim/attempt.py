"""One operation of the code under test, executed under one drawn fault."""
import json
import os

from . import lib, native, sched
from .lib import Seam
from .runner import PKG

MODES = ["io", "io", "io", "space", "alloc", "interrupt"]


def gen_fault(rng, modes=MODES, crash=True):
    f = {"mode": rng.choice(modes), "at": round(rng.random(), 4), "plans": []}
    if f["mode"] == "io":
        f["plans"] = [lib.gen_error(rng, crash) for _ in range(rng.choice([1, 1, 1, 2]))]
        if rng.random() < 0.2:
            f["plans"] += lib.gen_benign(rng, 1)
    if f["mode"] == "space":
        f["at"] = round(rng.random() * 1.05, 4)
    return f


class Outcome:
    raised = None
    value = None
    crashed = hit = False

    @property
    def done(self):
        return self.raised is None and not self.crashed

    def text(self):
        return "returned normally" if self.done else "was killed" if self.crashed else f"raised {type(self.raised).__name__}: {self.raised}"


def count_lines(fn, root):
    """Executed source lines of fn (in a forked child, tree put back)."""
    snap = lib.tree(root)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            sc = sched.Sched([fn], {"kind": "seq"}, PKG)
            sc.run()
            os.write(w, json.dumps(sc.lines[0]).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    lib.restore(root, snap)
    return int(data or 0)


def under(env, fn, root, fault=None, budget=3000, must_work=True, minsize=64, **seam):
    """Run fn once with the fault placed inside it.  The dry run that places it
    also establishes that fn succeeds without faults (must_work)."""
    out = Outcome()
    mode = fault["mode"] if fault else "none"
    plans, alloc_at, ints, space = [], -1, [], None
    if mode == "interrupt":
        n = count_lines(fn, root)
        ints = [[0, 1 + int(fault["at"] * n)]] if n else []
    elif mode != "none":
        info = lib.dry(fn, root, alloc=mode == "alloc", minsize=minsize)
        if must_work and info["ok"] is not True:
            env.fail("unexpected-exception", f"the operation failed without any fault: {info['ok']}")
        plans = [p for p in (lib.place(f, info["counts"]) for f in fault["plans"]) if p]
        if mode == "space":
            space = int(fault["at"] * info["written"])
        if mode == "alloc" and info["alloc"]:
            alloc_at = int(fault["at"] * info["alloc"])
    with Seam(env, root, plans, space=space, budget=budget, **seam) as s:
        try:
            if ints:
                sc = sched.Sched([fn], {"kind": "seq"}, PKG, interrupts=ints)
                res = sc.run()[0]
                env.trace += sc.trail
                env.faults["interrupt"] += sc.fired_interrupts
                out.hit = bool(sc.fired_interrupts)
                if res[0] == "exc":
                    raise res[1]
                out.value = res[1]
            elif alloc_at >= 0:
                old = native.use_sim_allocator()
                native.alloc(True, fail_at=alloc_at, minsize=minsize)
                try:
                    out.value = fn()
                finally:
                    failed = native.L.sim_alloc_failed()
                    native.alloc(False)
                    native.restore_allocator(old)
                    env.faults["allocation"] += failed
                    out.hit = bool(failed)
            else:
                out.value = fn()
        except (Exception, KeyboardInterrupt) as exc:
            out.raised = exc
            env.note("raised", type(exc).__name__)
        except SystemExit as exc:
            env.fail("exit", f"the operation ended the program: {exc!r}")
    out.seam, out.crashed = s, s.crashed
    out.hit = out.hit or s.hit or s.crashed
    env.check(not s.budget_hit, "no-progress", f"the operation did not end within {budget} file operations")
    env.probes["acknowledged" if out.done else "crashed" if out.crashed else "raised"] += 1
    if out.raised is not None and not out.hit and must_work:
        raise out.raised
    return out

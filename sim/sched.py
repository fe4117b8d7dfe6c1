"""Seeded scheduler over real threads: exactly one runs, and this decides which.

Switch points: every executed source line of the code under test (sys.settrace)
and every file-system operation seen by simio.so; in "fine" schedules also inside
a line, after every call of a compiled function (where an interpreter may switch threads).  Some schedules switch only
after lines that store into something other than a local variable, or read a global one: the others
then see whatever was left half done there; in "site" schedules every such line
counts once, however often it runs, so that rare ones are not drowned by loops.  A schedule is either drawn
from a seed or an explicit list [[step, task], ...]; the realised one is always
recorded, so that a run can be replayed and its schedule shrunk.
"""
import _thread
import dis
import random
import sys
import threading
import types
import zlib

from . import native


class Interrupted(KeyboardInterrupt):
    """The interruption injected by the simulator."""


class Hang(Exception):
    pass


TOOL = 4          # of sys.monitoring
current = None  # the active scheduler


MUTATORS = {"append", "add", "clear", "update", "pop", "popitem", "extend", "insert", "remove", "setdefault", "sort", "reverse", "fill", "resize", "copyto", "put", "discard"}
_stores = {}


def stores(code, glob):
    """Lines of a code object that may change something others can see, or that read a global variable."""
    got = _stores.get(code)
    if got is None:
        got, line = set(), None
        for ins in dis.get_instructions(code):
            if ins.starts_line is not None:
                line = ins.starts_line
            if ins.opname in ("STORE_ATTR", "STORE_GLOBAL", "STORE_SUBSCR", "STORE_SLICE", "DELETE_ATTR", "DELETE_GLOBAL", "DELETE_SUBSCR") \
                    or ins.opname in ("LOAD_ATTR", "LOAD_METHOD") and ins.argval in MUTATORS \
                    or ins.opname == "KW_NAMES" and "out" in (ins.argval or ()) \
                    or ins.opname == "LOAD_GLOBAL" and (glob.get(ins.argval, len) is None or isinstance(glob.get(ins.argval), (dict, list, set))):
                got.add(line)
        _stores[code] = got
    return got


def codes(prefix):
    """The code objects of the functions of the code under test."""
    out, seen = [], set()

    def add(code):
        if code not in seen and code.co_filename.startswith(prefix):
            seen.add(code)
            out.append(code)
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    add(c)
    for mod in list(sys.modules.values()):
        if (getattr(mod, "__file__", None) or "").startswith(prefix):
            for v in list(vars(mod).values()):
                for f in [v, *(vars(v).values() if isinstance(v, type) else ())]:
                    f = getattr(f, "__func__", getattr(f, "fget", f))
                    while f is not None:
                        if isinstance(f, types.FunctionType):
                            add(f.__code__)
                        f = getattr(f, "__wrapped__", None)
    return out


class SimLock:
    """threading.Lock/RLock stand-in that parks the task instead of the thread."""

    def __init__(self, reentrant=False):
        self._re, self._owner, self._n = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self._owner is not None and not (self._re and self._owner == me):
            if not blocking:
                return False
            if current is None or not current.park():
                if timeout is not None and timeout >= 0:
                    return False
                raise Hang("lock is held and no other task can run")
        self._owner, self._n = me, self._n + 1
        if current is not None:
            current.waiting.discard(current.cur)
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if not self._n:
            self._owner = None
            if current is not None:
                current.waiting.clear()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None

    def _is_owned(self):
        return self._owner == _thread.get_ident()


def install_locks(prefix):
    """Locks made by the code under test, by scipy (which holds one around a fit), by numba (compilation) and by astropy (whose lazy properties hold one
    across file operations) park the task, not the thread.  Before they are imported."""
    for name, reentrant in (("Lock", False), ("RLock", True)):
        real = getattr(threading, name)

        def factory(real=real, reentrant=reentrant):
            f = sys._getframe(1).f_code.co_filename
            return SimLock(reentrant) if f.startswith(prefix) or "/astropy/" in f or "/scipy/" in f or "/numba/" in f else real()
        setattr(threading, name, factory)


class Sched:
    def __init__(self, tasks, spec, prefix, interrupts=(), max_steps=400000, setup=None):
        """tasks: callables.  spec: {"kind": "seq"|"random"|"pct"|"explicit", ...}.
        interrupts: [[task, n]] raise Interrupted at the n-th traced line of a task."""
        self.tasks, self.prefix, self.setup = tasks, prefix, setup
        self.n = len(tasks)
        self.locks = [_thread.allocate_lock() for _ in tasks]
        for lk in self.locks:
            lk.acquire()
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.alive = [True] * self.n
        self.waiting = set()         # tasks that want a lock nobody released since
        self.results = [None] * self.n
        self.cur = None
        self.step = 0
        self.lines = [0] * self.n
        self.switches = []
        self.trail = []
        self.max_steps = max_steps
        self.overrun = False
        self.kind = spec.get("kind", "seq")
        self.rng = random.Random(spec.get("seed", 0))
        self.p = spec.get("p", 0.05)
        self.fine = spec.get("fine", False)
        self.fs_p = spec.get("fs_p", max(self.p, 0.3))
        self.explicit = {s: t for s, t in spec.get("switches", [])} if self.kind == "explicit" else {}
        self.points = set()
        if self.kind == "pct":
            horizon = spec.get("horizon", 2000)
            self.points = {self.rng.randrange(horizon) for _ in range(spec.get("depth", 3))}
        self.first = spec.get("first", 0) if self.kind != "explicit" else spec.get("first", 0)
        self.sites = {}              # places where a store happened -> how often
        self.seed, self.rate, self.nth = spec.get("seed", 0), spec.get("rate", 4), spec.get("nth", 1)
        self.stored = 0              # store points passed
        if self.kind == "store":
            horizon = spec.get("horizon", 60)
            self.points = {self.rng.randrange(horizon) for _ in range(spec.get("depth", 2))}
        self.interrupts = {(t, n) for t, n in interrupts}
        self.fired_interrupts = 0

    # -------------------------------------------------------------- switching
    def _others(self):
        return [i for i in range(self.n) if self.alive[i] and i != self.cur and i not in self.waiting]

    def _go(self, to):
        me = self.cur
        self.switches.append([self.step, to])
        self.cur = to
        self.locks[to].release()
        self.locks[me].acquire()

    def chosen(self, site):
        """Whether a place is one that this schedule switches at, the nth time it is passed."""
        n = self.sites[site] = self.sites.get(site, 0) + 1
        return n == self.nth and zlib.crc32(f"{self.seed} {site}".encode()) % self.rate == 0

    def offer(self):
        """The running task lets another one go on."""
        if self.cur is not None and _thread.get_ident() == self.ids_of[self.cur]:
            self.point(offer=True)

    def point(self, fs=False, store=None, offer=False):
        """A switch point reached by the running task; store: the place of the store it just made."""
        self.step += 1
        self.stored += store is not None
        if self.step > self.max_steps:
            self.overrun = True
            return
        others = self._others()
        if not others:
            return
        to = None
        if self.kind == "explicit":
            to = self.explicit.get(self.step)
            if to is not None and to not in others:
                to = None
        elif offer and self.kind != "seq":
            to = self.rng.choice(others)
        elif self.kind == "random":
            if self.rng.random() < (self.fs_p if fs else self.p):
                to = self.rng.choice(others)
        elif self.kind == "store":
            if store and self.stored in self.points:
                to = self.rng.choice(others)
        elif self.kind == "site":
            if store and self.chosen(store):
                to = self.rng.choice(others)
        elif self.kind == "pct":
            if self.step in self.points:
                to = self.rng.choice(others)
        if to is not None:
            self._go(to)

    def park(self):
        """The running task cannot proceed: let another one run."""
        if self.cur is None or _thread.get_ident() not in self.ids:
            return False
        self.waiting.add(self.cur)
        others = self._others()
        if not others:
            self.waiting.discard(self.cur)
            return False
        self.step += 1
        if self.step > self.max_steps:
            return False
        self._go(others[self.step % len(others)])
        return True

    # ---------------------------------------------------------------- running
    def _local(self, idx):
        after = {}                   # frames whose last line was a store

        def local(frame, event, arg):
            if event == "return":
                after.pop(frame, None)
            elif event == "line":
                store = after.get(frame)
                code = frame.f_code
                after[frame] = f"{code.co_name} {frame.f_lineno - code.co_firstlineno}" if frame.f_lineno in stores(code, frame.f_globals) else None
                self.lines[idx] += 1
                if (idx, self.lines[idx]) in self.interrupts:
                    self.fired_interrupts += 1
                    self.trail.append(f"interrupt task {idx} at its line {self.lines[idx]}")
                    raise Interrupted("injected")
                self.point(store=store)
            return local
        return local

    def _returned(self, code, offset, fn, arg):
        """A call of a function that is not Python's came back."""
        if _thread.get_ident() in self.ids:
            frame = sys._getframe(1)
            self.point(store=f"{code.co_name} @{offset}" if frame.f_lineno in stores(code, frame.f_globals) else None)

    def _thread(self, idx):
        self.locks[idx].acquire()
        if self.setup:
            self.setup()
        local = self._local(idx)
        prefix = self.prefix

        def tracer(frame, event, arg):
            code = frame.f_code  # not while a module is imported or a function is compiled
            if code.co_filename.startswith(prefix) and code.co_name != "<module>":
                return local(frame, "call", arg)
            return None

        sys.settrace(tracer)
        try:
            r = ("ok", self.tasks[idx]())
        except BaseException as exc:  # recorded: judged by the property
            r = ("exc", exc)
        sys.settrace(None)
        self.results[idx] = r
        self.alive[idx] = False
        rest = [i for i in range(self.n) if self.alive[i]]
        rest = [i for i in rest if i not in self.waiting] or rest
        if rest:
            if self.kind in ("random", "pct", "store", "site"):
                to = self.rng.choice(rest)
            else:
                to = self.explicit.get(-1 - idx, rest[0])
                if to not in rest:
                    to = rest[0]
            self.switches.append([-1 - idx, to])
            self.cur = to
            self.locks[to].release()
        else:
            self.main.release()

    def run(self, timeout=120):
        global current
        ths = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        self.ids_of = [t.ident for t in ths]
        self.ids = set(self.ids_of)
        first = self.first if 0 <= self.first < self.n else 0
        self.cur = first
        current = self

        @native.CB
        def cb(kind):
            if _thread.get_ident() in self.ids:
                self.point(fs=True)
            return 0
        self._cb = cb
        fine = codes(self.prefix) if self.fine else []
        if fine:
            mon = sys.monitoring
            mon.use_tool_id(TOOL, "simulator")
            mon.register_callback(TOOL, mon.events.C_RETURN, self._returned)
            for code in fine:
                mon.set_local_events(TOOL, code, mon.events.CALL)
        import ctypes
        native.L.sim_callback(ctypes.cast(cb, ctypes.c_void_p))
        self.locks[first].release()
        got = self.main.acquire(timeout=timeout)
        native.L.sim_callback(None)
        current = None
        if fine:
            for code in fine:
                mon.set_local_events(TOOL, code, 0)
            mon.register_callback(TOOL, mon.events.C_RETURN, None)
            mon.free_tool_id(TOOL)
        if not got:
            raise Hang("tasks stopped making progress")
        for t in ths:
            t.join()
        return self.results

    def recorded(self):
        return dict({"kind": "explicit", "switches": self.switches, "first": self.first}, **({"fine": True} if self.fine else {}))


def rand_spec(rng, n_tasks):
    r = rng.random()
    base = {"seed": rng.getrandbits(32), "first": rng.randrange(n_tasks)}
    if r < 0.12:
        base.update(kind="store", depth=rng.randrange(1, 4), horizon=rng.choice([10, 30, 100, 300]))
    elif r < 0.35:
        base.update(kind="site", rate=rng.choice([1, 3, 8]), nth=rng.choice([1, 1, 2, 3]))
    elif r < 0.65:
        p = rng.choice([0.01, 0.03, 0.1, 0.3, 0.6])
        base.update(kind="random", p=p, fs_p=rng.choice([p, 0.3, 0.7]))
    elif r < 0.95:
        base.update(kind="pct", depth=rng.randrange(1, 6), horizon=rng.choice([60, 200, 600, 2000]))
    else:
        base.update(kind="seq")
    if base["kind"] != "seq" and rng.random() < 0.25:
        base["fine"] = True
        if base["kind"] == "pct":
            base["horizon"] *= 4
    return base

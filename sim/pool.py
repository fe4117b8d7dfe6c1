"""Simulated process pool: stands in for multiprocessing.Pool & friends.

Every worker is a real forked process (isolated memory, pickled arguments and
results, as in a real pool), but only one runs at a time and the simulator
decides which worker takes which chunk, the order in which chunks are executed
and the order in which completions reach the parent.  Faults: a worker function
raises, a worker's result cannot be sent back, worker processes cannot be
started.
"""
import itertools
import os
import pickle
import random
import sys

from . import native


class Plan:
    """What the simulator decides about the next pools."""

    def __init__(self):
        self.reset()

    def reset(self, seed=0, order="seeded", faults=(), inproc=False):
        self.seed, self.order, self.faults, self.inproc = seed, order, list(faults), inproc
        self.pools = self.open = 0
        self.events = []
        self.fired = {}

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1


PLAN = Plan()
EXC = {"MemoryError": MemoryError, "OSError": OSError, "RuntimeError": RuntimeError,
       "ValueError": ValueError}


class MaybeEncodingError(Exception):
    pass


def _call(mode, func, item):
    if mode == "star":
        return func(*item)
    if mode == "kw":
        return func(*item[0], **item[1])
    return func(item)


class _Raised:
    def __init__(self, exc):
        self.exc = exc


class AsyncResult:
    """Executed when somebody waits: callbacks come in completion order, work never waited for is lost."""

    def __init__(self, pool, callback, error_callback):
        self._pool, self._callback, self._error, self._done = pool, callback, error_callback, False

    def _set(self, value, exc):
        self._value, self._exc, self._done = value, exc, True
        fn = self._error if exc is not None else self._callback
        if fn:
            fn(exc if exc is not None else value)

    def _need(self):
        if not self._done:
            self._pool._flush()
        if not self._done:
            raise WorkerDied("the pool was terminated before the work was done")

    def get(self, timeout=None):
        self._need()
        if self._exc is not None:
            raise self._exc
        return self._value

    def wait(self, timeout=None):
        self._need()

    def ready(self):
        self._need()
        return True

    def successful(self):
        self._need()
        return self._exc is None


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.n = processes or 8
        self.init = (initializer, initargs)
        self.closed = True
        self._pending = []
        PLAN.pools += 1
        self.rng = random.Random(f"{PLAN.seed}/{PLAN.pools}")
        for f in PLAN.faults:
            if f["kind"] == "spawn":
                PLAN.fire("pool_spawn")
                raise OSError(11, "Resource temporarily unavailable")
        self.closed = False
        PLAN.open += 1

    # ------------------------------------------------------------- execution
    def _run(self, mode, func, items, chunksize):
        """Execute every item; returns (results, completion order of chunks)."""
        items = list(items)
        if not items:
            return [], []
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            if extra:
                chunksize += 1
        chunks = [list(range(i, min(i + chunksize, len(items)))) for i in range(0, len(items), chunksize)]
        order = list(range(len(chunks)))
        if PLAN.order == "seeded":
            self.rng.shuffle(order)
        elif PLAN.order == "reversed":
            order.reverse()
        n = min(self.n, len(chunks))
        owner = {c: self.rng.randrange(n) for c in order}
        PLAN.events.append([len(items), chunksize, order, [owner[c] for c in order]])
        # pickled here, as a real pool does
        blobs = {c: pickle.dumps((func, [items[i] for i in chunks[c]])) for c in order}
        results = [None] * len(items)
        failed = {}
        for w in range(n):
            mine = [c for c in order if owner[c] == w]
            if not mine:
                continue
            for c, out in self._worker(mode, mine, blobs, chunks):
                if isinstance(out, _Raised):
                    failed[c] = out.exc
                else:
                    for i, v in zip(chunks[c], out):
                        results[i] = v
        return results, [(c, chunks[c], failed.get(c)) for c in order]

    def _faults(self, chunk):
        return [f for f in PLAN.faults if f["kind"] in ("raise", "encode")
                and f["item"] % max(1, self._total) in chunk]

    def _do_chunks(self, mode, mine, blobs, chunks):
        if self.init[0] is not None:
            self.init[0](*self.init[1])
        for c in mine:
            func, args = pickle.loads(blobs[c])
            fs = self._faults(chunks[c])
            try:
                for f in fs:
                    if f["kind"] == "raise" and not f.get("late"):
                        raise EXC[f["exc"]]("injected in worker")
                out = [_call(mode, func, a) for a in args]
                for f in fs:
                    if f["kind"] == "raise":
                        raise EXC[f["exc"]]("injected in worker")
                    raise MaybeEncodingError("injected: result could not be sent")
            except Exception as exc:
                out = _Raised(exc)
            yield c, out

    def _worker(self, mode, mine, blobs, chunks):
        self._total = sum(len(c) for c in chunks)
        for c in mine:
            for f in self._faults(chunks[c]):
                PLAN.fire("pool_" + f["kind"])
        if PLAN.inproc:
            for c, out in self._do_chunks(mode, mine, blobs, chunks):
                if not isinstance(out, _Raised):
                    out = pickle.loads(pickle.dumps(out))
                yield c, out
            return
        sys.stdout.flush()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                sys.settrace(None)
                native.L.sim_callback(None)
                out = []
                for c, res in self._do_chunks(mode, mine, blobs, chunks):
                    try:
                        out.append((c, pickle.dumps(res)))
                    except Exception as exc:
                        out.append((c, pickle.dumps(_Raised(MaybeEncodingError(repr(exc))))))
                with os.fdopen(w, "wb") as fh:
                    pickle.dump(out, fh)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        _, status = os.waitpid(pid, 0)
        if status != 0:
            raise WorkerDied(f"pool worker ended with status {status}")
        for c, blob in pickle.loads(data):
            yield c, pickle.loads(blob)

    # -------------------------------------------------------------- interface
    def _ready(self):
        if self.closed:
            raise ValueError("Pool not running")

    def _flush(self):
        todo, self._pending = self._pending, []
        single = [t for t in todo if t[1] == "kw"]
        if single:
            results, done = self._run("kw", _submit_call, [((f, a, k), {}) for _, _, f, (a, k), _ in single], 1)
            for _, idx, exc in done:
                for i in idx:
                    single[i][0]._set(results[i], exc)
        rest = [t for t in todo if t[1] != "kw"]
        if PLAN.order == "seeded":
            self.rng.shuffle(rest)
        for res, mode, func, items, chunksize in rest:
            value, exc = None, None
            try:
                value = self._map(mode, func, items, chunksize)
            except Exception as e:
                exc = e
            res._set(value, exc)

    def _later(self, mode, func, items, chunksize, callback, error_callback):
        self._ready()
        res = AsyncResult(self, callback, error_callback)
        self._pending.append((res, mode, func, items, chunksize))
        return res

    def _map(self, mode, func, items, chunksize):
        results, done = self._run(mode, func, items, chunksize)
        for _, _, exc in done:
            if exc is not None:
                raise exc
        return results

    def map(self, func, iterable, chunksize=None):
        self._ready()
        return self._map("one", func, iterable, chunksize)

    def starmap(self, func, iterable, chunksize=None):
        self._ready()
        return self._map("star", func, iterable, chunksize)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._later("one", func, list(iterable), chunksize, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._later("star", func, list(iterable), chunksize, callback, error_callback)

    def imap(self, func, iterable, chunksize=1):
        results, done = self._run("one", func, iterable, chunksize)
        bad = {i: exc for _, idx, exc in done if exc is not None for i in idx}
        for i, v in enumerate(results):
            if i in bad:
                raise bad[i]
            yield v

    def imap_unordered(self, func, iterable, chunksize=1):
        results, done = self._run("one", func, iterable, chunksize)
        for _, idx, exc in done:
            if exc is not None:
                raise exc
            for i in idx:
                yield results[i]

    def apply(self, func, args=(), kwds=None):
        self._ready()
        return self._map("kw", func, [(tuple(args), kwds or {})], 1)[0]

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        return self._later("kw", func, (tuple(args), kwds or {}), None, callback, error_callback)

    def close(self):
        if not self.closed:
            PLAN.open -= 1
        self.closed = True

    def terminate(self):
        self.close()
        self._pending = []

    def join(self):
        self._flush()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class WorkerDied(Exception):
    """A simulated worker process ended abnormally (signal, os._exit)."""


# ------------------------------------------------------- concurrent.futures face
class SimExecutor:
    def __init__(self, max_workers=None, *a, initializer=None, initargs=(), **k):
        self._pool = SimPool(max_workers, initializer, initargs)
        self._pending = []

    def submit(self, func, /, *args, **kwargs):
        fut = SimFuture()
        self._pending.append((fut, func, args, kwargs))
        fut._executor = self
        return fut

    def _flush(self):
        todo, self._pending = self._pending, []
        if not todo:
            return []
        results, done = self._pool._run("kw", _submit_call, [((f, a, k), {}) for _, f, a, k in todo], 1)
        order = []
        for _, idx, exc in done:
            for i in idx:
                todo[i][0]._set(results[i], exc)
                order.append(todo[i][0])
        return order

    def map(self, func, *iterables, timeout=None, chunksize=1):
        return iter(self._pool.starmap(func, list(zip(*iterables)), chunksize))

    def shutdown(self, wait=True, cancel_futures=False):
        self._flush()
        self._pool.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


def _submit_call(f, a, k):
    return f(*a, **k)


class SimFuture:
    _done = False

    def _set(self, value, exc):
        self._value, self._exc, self._done = value, exc, True

    def _need(self):
        if not self._done:
            self._executor._flush()

    def result(self, timeout=None):
        self._need()
        if self._exc is not None:
            raise self._exc
        return self._value

    def exception(self, timeout=None):
        self._need()
        return self._exc

    def done(self):
        return self._done

    def add_done_callback(self, fn):
        self._need()
        fn(self)

    def cancel(self):
        return False


def sim_as_completed(fs, timeout=None):
    fs = list(fs)
    order = []
    for f in fs:
        if not f._done:
            order += f._executor._flush()
    seen = [f for f in order if f in fs]
    return iter(seen + [f for f in fs if f not in seen])


class SimContext:
    def __init__(self, real):
        self._real = real

    def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        return SimPool(processes, initializer, initargs, maxtasksperchild)

    def __getattr__(self, name):
        return getattr(self._real, name)


def install():
    """Before micropolarray is imported."""
    import concurrent.futures as cf
    import multiprocessing as mp
    import multiprocessing.pool as mpp
    real_ctx = mp.get_context
    mp.Pool = SimPool
    mpp.Pool = SimPool
    mpp.ThreadPool = SimPool
    mp.get_context = lambda method=None: SimContext(real_ctx(method))
    cf.ProcessPoolExecutor = SimExecutor
    cf.ThreadPoolExecutor = SimExecutor
    cf.as_completed = sim_as_completed

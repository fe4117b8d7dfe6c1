"""ctypes view of simio.so (LD_PRELOADed by ./check): the OS seam."""
import ctypes
import os

import numpy as np

KINDS = ("openr openw read write close unlink rename mkdir rmdir trunc fsync "
         "opendir mmap link").split()
KIDX = {k: i for i, k in enumerate(KINDS)}
MUTATING = "openw write close unlink rename mkdir rmdir trunc link".split()
ACTIONS = {"none": 0, "err": 1, "short": 2, "eintr": 3, "crash": 4,
           "crash_part": 5, "err_after": 6}

L = ctypes.CDLL(None)
try:
    L.sim_ops.restype = ctypes.c_long
except AttributeError as exc:  # pragma: no cover
    raise SystemExit("simio.so is not preloaded: run this through ./check") from exc
c_long, c_int, c_int64, c_u64 = ctypes.c_long, ctypes.c_int, ctypes.c_int64, ctypes.c_uint64
L.sim_plan.argtypes = [c_int, c_long, c_int, c_long, c_int]
L.sim_arm.argtypes = [ctypes.c_char_p]
L.sim_written.restype = c_long
L.sim_kind.restype = c_long
L.sim_kind.argtypes = [c_int]
L.sim_space.argtypes = [c_long]
L.sim_budget.argtypes = [c_long]
L.sim_dirorder.argtypes = [c_int, c_u64]
L.sim_clock.argtypes = [c_int, c_int64, c_int64]
L.sim_clock_jump.argtypes = [c_int64]
L.sim_clock_now.restype = c_int64
L.sim_clock_reads.restype = c_long
L.sim_log.argtypes = [c_int, ctypes.c_char_p, c_int]
L.sim_alloc.argtypes = [c_int, c_int, ctypes.c_double, c_long, c_long, c_long]
L.sim_alloc_count.restype = c_long
L.sim_alloc_failed.restype = c_long
L.sim_alloc_live.restype = c_long
L.sim_handler.restype = ctypes.c_void_p
CB = ctypes.CFUNCTYPE(c_int, c_int)
L.sim_callback.argtypes = [ctypes.c_void_p]


def mask(kinds):
    m = 0
    for k in kinds:
        m |= 1 << KIDX[k]
    return m


def arm(root):
    L.sim_arm(os.fsencode(root))


def disarm():
    L.sim_disarm()


def plan(kinds, nth, action, arg=0, err=5):
    return L.sim_plan(mask(kinds), int(nth), ACTIONS[action], int(arg), int(err))


def log():
    buf = ctypes.create_string_buffer(512)
    out = []
    for i in range(L.sim_nlog()):
        L.sim_log(i, buf, 512)
        out.append(buf.value.decode("utf-8", "replace"))
    return out


def count(kinds):
    return sum(L.sim_kind(KIDX[k]) for k in kinds)


# --------------------------------------------------------------- numpy allocator
def _api():
    multi = np.core._multiarray_umath
    get = ctypes.pythonapi.PyCapsule_GetPointer
    get.restype = ctypes.c_void_p
    get.argtypes = [ctypes.py_object, ctypes.c_char_p]
    table = ctypes.cast(get(multi._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
    proto = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)
    return proto(table[304])


_set_handler = _api()
_new = ctypes.pythonapi.PyCapsule_New
_new.restype = ctypes.py_object
_new.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]
_name = ctypes.create_string_buffer(b"mem_handler")  # the capsule keeps this pointer
_capsule = _new(L.sim_handler(), ctypes.addressof(_name), None)


def use_sim_allocator():
    """Route this thread's numpy data allocations through the simulator."""
    return _set_handler(_capsule)


def restore_allocator(old):
    _set_handler(old)


def alloc(on=True, poison=False, pattern=0.0, fail_at=-1, fail_at2=-1, minsize=0):
    L.sim_alloc(1 if on else 0, 1 if poison else 0, float(pattern), fail_at, fail_at2, minsize)


def perturb_malloc(value):
    """glibc M_PERTURB: fill bytes for malloc/free (covers numba and C code)."""
    L.mallopt(-6, int(value))

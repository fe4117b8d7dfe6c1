"""Helpers shared by the property modules: inputs, independent FITS codec,
digests, the file-system seam as a context manager, dry runs."""
import hashlib
import json
import math
import os
import random

import numpy as np

from . import native
from .faults import HarnessError
from .native import L

BLOCK = 2880


def ml():
    import micropolarray
    return micropolarray


# ----------------------------------------------------------------------- inputs
DTYPES = ["<f8", "<u2", "<i2", "<f4", "<i4", "<i8", "|u1"]
CAMERA = {0: 0, 45: 1, -45: 2, 90: 3}


def angle_dics():
    return [CAMERA, {90: 0, 45: 1, -45: 2, 0: 3}, {-45: 0, 0: 1, 90: 2, 45: 3}, {45: 0, 90: 1, 0: 2, -45: 3}]


def gen_img(rng, maxside=24, dtypes=DTYPES, kinds=("rand", "grad", "wide"), side=None):
    h = side or 2 * rng.randrange(2, maxside // 2 + 1)
    w = side or 2 * rng.randrange(2, maxside // 2 + 1)
    return {"seed": rng.getrandbits(30), "h": h, "w": w, "dtype": rng.choice(dtypes), "kind": rng.choice(kinds)}


def make(spec):
    """Array described by a spec; every element depends on the seed."""
    g = np.random.Generator(np.random.PCG64(spec["seed"]))
    h, w = spec["h"], spec["w"]
    dt = np.dtype(spec["dtype"])
    kind = spec.get("kind", "rand")
    if dt.kind == "f":
        if kind == "wide":
            a = g.normal(0, 1, (h, w)) * 10.0 ** g.integers(-3, 5, (h, w))
        elif kind == "grad":
            a = np.add.outer(np.arange(h) * 3.0, np.arange(w) * 1.0) + g.random((h, w)) + 1
        elif kind == "sparse":
            a = np.where(g.random((h, w)) < 0.4, 0.0, g.random((h, w)) * 4000)
        else:
            a = g.random((h, w)) * 4000 + 1
        if kind == "dipole":  # some superpixels with signal but no intensity
            yes = g.random((h // 2, w // 2)) < 0.4
            v = g.integers(1, 50, (2, h // 2, w // 2)) * 10.0
            for k, q in enumerate((v[0], v[1], -v[0], -v[1])):
                part = a[k // 2:h // 2 * 2:2, k % 2:w // 2 * 2:2]
                part[yes] = q[yes]
        return a.astype(dt)
    info = np.iinfo(dt)
    top = {"wide": info.max, "rand": min(info.max, 4095), "grad": min(info.max, 4095), "sparse": min(info.max, 4095)}.get(kind, min(info.max, 4095))
    top = min(top, 1 << 40)
    lo = info.min if kind == "wide" and info.min < 0 else 0
    a = g.integers(max(lo, -(1 << 40)), top, (h, w), endpoint=True)
    if kind == "sparse":
        a = np.where(g.random((h, w)) < 0.4, 0, a)
    return a.astype(dt)


# -------------------------------------------------- independent FITS reader/writer
class BadFits(Exception):
    pass


def _card(key, value):
    if isinstance(value, bool):
        v = f"{'T' if value else 'F':>20}"
    elif isinstance(value, int):
        v = f"{value:>20}"
    elif isinstance(value, float):
        v = f"{value!r:>20}".upper()
    else:
        q = str(value).replace("'", "''")
        v = f"'{q:<8}'"
    return f"{key:<8}= {v}".ljust(80)[:80]


def fits_bytes(arr, cards=(), bscale=None, bzero=None, bitpix=None):
    """FITS file holding arr (stored values if bscale/bzero are given)."""
    arr = np.asarray(arr)
    if bitpix is None:
        if arr.dtype == np.uint16:
            bzero, arr = 32768, (arr.astype(np.int32) - 32768).astype(np.int16)
        elif arr.dtype == np.uint32:
            bzero, arr = 2147483648, (arr.astype(np.int64) - 2147483648).astype(np.int32)
        bitpix = {"u1": 8, "i2": 16, "i4": 32, "i8": 64, "f4": -32, "f8": -64}[arr.dtype.str[1:]]
    out = [_card("SIMPLE", True), _card("BITPIX", bitpix), _card("NAXIS", 2),
           _card("NAXIS1", int(arr.shape[1])), _card("NAXIS2", int(arr.shape[0]))]
    if bscale is not None or bzero is not None:
        out += [_card("BSCALE", bscale if bscale is not None else 1), _card("BZERO", bzero or 0)]
    out += [_card(k, v) for k, v in cards] + ["END".ljust(80)]
    head = "".join(out).encode("ascii")
    head += b" " * (-len(head) % BLOCK)
    body = arr.astype(arr.dtype.newbyteorder(">")).tobytes()
    return head + body + b"\0" * (-len(body) % BLOCK)


def write_fits(path, arr, cards=(), **k):
    with open(path, "wb") as f:
        f.write(fits_bytes(arr, cards, **k))


def parse_fits(raw):
    """(physical values as float64 or exact ints, header dict); BadFits if not complete."""
    head, pos, done = {}, 0, False
    while not done:
        block = raw[pos:pos + BLOCK]
        if len(block) < BLOCK:
            raise BadFits("truncated header")
        pos += BLOCK
        for i in range(0, BLOCK, 80):
            try:
                card = block[i:i + 80].decode("ascii")
            except UnicodeDecodeError:
                raise BadFits("not ascii")
            key = card[:8].rstrip()
            if key == "END":
                done = True
                break
            if card[8:10] == "= ":
                head[key] = _value(card[10:])
    if head.get("SIMPLE") is not True:
        raise BadFits("no SIMPLE card")
    try:
        bitpix, naxis = head["BITPIX"], head["NAXIS"]
        if naxis != 2:
            raise BadFits(f"NAXIS={naxis}")
        w, h = head["NAXIS1"], head["NAXIS2"]
        dt = {8: ">u1", 16: ">i2", 32: ">i4", 64: ">i8", -32: ">f4", -64: ">f8"}[bitpix]
    except KeyError as exc:
        raise BadFits(f"missing {exc}")
    n = h * w * abs(bitpix) // 8
    body = raw[pos:pos + n]
    if len(body) < n:
        raise BadFits("truncated data")
    if len(raw) % BLOCK:
        raise BadFits("length is not a multiple of the block size")
    if len(raw) != pos + n + (-n % BLOCK):
        raise BadFits("unexpected bytes after the data")
    a = np.frombuffer(body, dtype=dt).reshape(h, w)
    bs, bz = head.get("BSCALE", 1), head.get("BZERO", 0)
    if bs != 1 or bz != 0:
        if a.dtype.kind == "i" and bs == 1 and float(bz).is_integer() and bitpix != 64:
            a = a.astype(np.int64) + int(bz)
        else:
            a = a.astype(float) * bs + bz
    return a, head


def _value(s):
    s = s.strip()
    if s.startswith("'"):
        out, i = "", 1
        while i < len(s):
            if s[i] == "'":
                if s[i + 1:i + 2] == "'":
                    out += "'"
                    i += 2
                    continue
                break
            out += s[i]
            i += 1
        return out.rstrip()
    s = s.split("/")[0].strip()
    if s in ("T", "F"):
        return s == "T"
    try:
        return int(s)
    except ValueError:
        pass
    try:
        return float(s.replace("D", "E"))
    except ValueError:
        return s


def read_fits(path):
    with open(path, "rb") as f:
        return parse_fits(f.read())


def same(a, b):
    """Same shape and values (NaN equal), whatever the dtype."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "iu" and b.dtype.kind in "iu":
        return bool(np.array_equal(a.astype(object), b.astype(object))) if (a.dtype.itemsize == 8) != (b.dtype.itemsize == 8) else bool(np.array_equal(a, b))
    return bool(np.array_equal(a.astype(float), b.astype(float), equal_nan=True))


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def diff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shapes {a.shape} and {b.shape}"
    a, b = a.astype(float), b.astype(float)
    bad = ~((a == b) | (np.isnan(a) & np.isnan(b)))
    n = int(bad.sum())
    if not n:
        return "equal"
    idx = tuple(int(i) for i in np.argwhere(bad)[0])
    with np.errstate(all="ignore"):
        err = np.nanmax(np.abs(a - b)[bad]) if n else 0
    return f"{n} of {a.size} values differ (first at {idx}: {a[idx]!r} is not {b[idx]!r}; max |diff| {err:.3g})"


# ---------------------------------------------------------------------- digests
def sha(x):
    return hashlib.sha1(x).hexdigest()[:12]


def adig(a):
    if a is None:
        return None
    a = np.ascontiguousarray(np.asarray(a))
    if a.dtype.byteorder == ">":
        a = a.astype(a.dtype.newbyteorder("<"))
    return f"{a.dtype.str}{a.shape}{sha(a.tobytes())}"


VOLATILE = {"CREATED", "DATE"}


def hdig(h, skip=()):
    if h is None:
        return None
    return [[str(c.keyword), repr(c.value), str(c.comment)] for c in h.cards
            if c.keyword not in VOLATILE and c.keyword not in skip]


def img_state(img, header=True, params=True):
    """Everything a user can observe of an image, bitwise."""
    s = {"data": adig(img.data), "height": int(img.height), "width": int(img.width)}
    if header:
        s["header"] = hdig(img.header)
    if hasattr(img, "Stokes_vec"):
        s["angles"] = sorted((float(k), int(v)) for k, v in img.angle_dic.items())
        s["stokes"] = [adig(x) for x in img.Stokes_vec]
        d = img.demosaiced_images
        s["demosaiced"] = None if d is None else [adig(x) for x in d]
        if params:
            s["params"] = [[p.ID, adig(p.data)] for p in img.polparam_list]
    return s


def state_diff(a, b):
    return ", ".join(k for k in a if a.get(k) != b.get(k)) or "nothing"


def demod_state(d):
    return {"mij": adig(d.mij), "flags": adig(d.fit_found_flags)}


# --------------------------------------------------------------------- file trees
def tree(root):
    """{relative path: bytes | 'dir' | link target} - raw, never through the seam."""
    armed = L.sim_armed()
    if armed:
        L.sim_pause(1)
    try:
        out = {}
        for d, dirs, files in os.walk(root):
            dirs.sort()
            rel = os.path.relpath(d, root)
            if rel != ".":
                out[rel] = "dir"
            for f in files:
                p = os.path.join(d, f)
                r = os.path.normpath(os.path.join(rel, f))
                if os.path.islink(p):
                    out[r] = "-> " + os.readlink(p)
                else:
                    with open(p, "rb") as fh:
                        out[r] = fh.read()
        return out
    finally:
        if armed:
            L.sim_pause(0)


def restore(root, snap):
    import shutil
    now = tree(root)
    if now == snap:
        return
    for p in sorted(now, key=len, reverse=True):
        if p not in snap or type(snap[p]) is not type(now[p]):
            full = os.path.join(root, p)
            if now[p] == "dir":
                shutil.rmtree(full, ignore_errors=True)
            elif os.path.lexists(full):
                os.unlink(full)
    for p in sorted(snap):
        full = os.path.join(root, p)
        if snap[p] == "dir":
            os.makedirs(full, exist_ok=True)
    for p, v in snap.items():
        if isinstance(v, bytes) and now.get(p) != v:
            with open(os.path.join(root, p), "wb") as f:
                f.write(v)


def tree_diff(a, b, ignore=()):
    out = []
    for p in sorted(set(a) | set(b)):
        if p in ignore:
            continue
        if a.get(p) != b.get(p):
            out.append(f"{p}: " + ("removed" if p not in b else "created" if p not in a else "changed"))
    return out


# --------------------------------------------------------------------- the seam
ERRNO = {"EIO": 5, "ENOSPC": 28, "EACCES": 13, "EMFILE": 24, "EDQUOT": 122, "EROFS": 30, "ENOMEM": 12, "EINTR": 4}


class Seam:
    """with Seam(env, root, plans): ... - operations below root are simulated."""

    def __init__(self, env, root, plans=(), space=None, budget=0, dirseed=None, clock=None, label=""):
        self.env, self.root, self.plans, self.label = env, root, list(plans), label
        self.space, self.budget, self.dirseed, self.clock = space, budget, dirseed, clock
        self.fired, self.crashed, self.enospc, self.budget_hit, self.log = [], False, 0, False, []

    def __enter__(self):
        native.arm(self.root)
        for p in self.plans:
            native.plan(p["kinds"], p["nth"], p["action"], p.get("arg", 500), ERRNO.get(p.get("err", "EIO"), 5))
        if self.space is not None:
            L.sim_space(int(self.space))
        if self.budget:
            L.sim_budget(int(self.budget))
        if self.dirseed is not None:
            L.sim_dirorder(1, self.dirseed)
        if self.clock is not None:
            L.sim_clock(1, int(self.clock[0]), int(self.clock[1]))
            self.env.faults["clock_set"] += 1
        return self

    def __exit__(self, *exc):
        self.ops = L.sim_ops()
        self.counts = {k: L.sim_kind(i) for k, i in native.KIDX.items()}
        self.crashed = bool(L.sim_frozen())
        self.enospc = L.sim_enospc()
        self.budget_hit = bool(L.sim_budget_hit())
        self.fired = [p for i, p in enumerate(self.plans) if L.sim_plan_fired(i)]
        self.log = native.log()
        if self.clock is not None:
            self.env.sim_ns += max(0, L.sim_clock_now() - int(self.clock[0]))
            L.sim_clock(0, 0, 0)
        native.disarm()
        env = self.env
        env.steps += self.ops
        for p in self.fired:
            name = p["action"] if p["action"] not in ("err", "err_after") else p.get("err", "EIO")
            env.faults[f"{'+'.join(p['kinds']) if len(p['kinds']) < 4 else 'any'}:{name}"
                       if p["action"] not in ("crash", "crash_part") else p["action"]] += 1
        if self.enospc:
            env.faults["disk_full"] += 1
        if self.dirseed is not None and self.counts["opendir"]:
            env.faults["directory_order"] += 1
        for line in self.log[:400]:
            env.trace.append("  " + self.label + line)
        return False

    @property
    def hit(self):
        return bool(self.fired or self.enospc)


def dry(fn, root, alloc=False, minsize=64):
    """Run fn in a forked child without faults; returns its operation counts.
    The file tree is put back afterwards."""
    snap = tree(root)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            native.arm(root)
            ok = True
            if alloc:
                native.use_sim_allocator()
                native.alloc(True, minsize=minsize)
            try:
                fn()
            except Exception as exc:
                ok = f"{type(exc).__name__}: {exc}"
            out = {"ok": ok, "alloc": L.sim_alloc_count(), "ops": L.sim_ops(), "written": L.sim_written()}
            native.alloc(False)
            out["counts"] = {k: L.sim_kind(i) for k, i in native.KIDX.items()}
            out["log"] = native.log()
            native.disarm()
            os.write(w, json.dumps(out).encode())
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    restore(root, snap)
    if not data:
        raise HarnessError("dry run died")
    return json.loads(data)


def place(fault, counts):
    """Resolve a fault's relative position against the counts of a dry run.
    None when the operation does none of these kinds."""
    n = sum(counts.get(k, 0) for k in fault["kinds"])
    if n == 0:
        return None
    return dict(fault, nth=1 + min(n - 1, int(fault["frac"] * n)))


BENIGN = [("write", "short"), ("write", "eintr"), ("read", "eintr"), ("read", "short"), ("openr", "eintr"), ("openw", "eintr")]


def gen_benign(rng, n=None):
    out = []
    for _ in range(rng.randrange(0, 4) if n is None else n):
        k, a = rng.choice(BENIGN)
        out.append({"kinds": [k], "frac": round(rng.random(), 3), "action": a, "arg": rng.choice([1, 100, 500, 900, 999])})
    return out


def gen_error(rng, crash=True):
    r = rng.random()
    if crash and r < 0.35:
        if rng.random() < 0.5:
            return {"kinds": ["write"], "frac": round(rng.random(), 3), "action": "crash_part", "arg": rng.choice([0, 1, 250, 500, 750, 950, 990, 999, 1000])}
        return {"kinds": ["openw", "write", "close", "unlink", "rename", "mkdir", "rmdir", "trunc", "link"], "frac": round(rng.random(), 3), "action": "crash"}
    k = rng.choice(["write", "write", "write", "openw", "close", "unlink", "mkdir", "rename", "openr", "read"])
    if k == "write":
        act = rng.choice(["err", "err_after", "err_after"])
        return {"kinds": [k], "frac": round(rng.random(), 3), "action": act, "arg": rng.choice([0, 1, 300, 600, 999, 1000]), "err": rng.choice(["EIO", "ENOSPC", "EDQUOT"])}
    err = {"openw": ["EACCES", "EMFILE", "EROFS", "ENOSPC"], "openr": ["EACCES", "EMFILE", "EIO"], "read": ["EIO"],
           "close": ["EIO", "ENOSPC"], "unlink": ["EACCES", "EIO"], "mkdir": ["EACCES", "ENOSPC"], "rename": ["EACCES", "EIO"]}[k]
    return {"kinds": [k], "frac": round(rng.random(), 3), "action": "err", "err": rng.choice(err)}


# ------------------------------------------------------------------- calibration
def malus(pol_deg, t, eff, phi_deg):
    return 0.5 * t * (1 + eff * np.cos(2 * np.deg2rad(phi_deg) - 2 * np.deg2rad(pol_deg)))


class Truth:
    """A synthetic instrument: per-pixel throughput, efficiency and phase."""

    def __init__(self, spec):
        g = np.random.Generator(np.random.PCG64(spec["seed"]))
        h, w = spec["h"], spec["w"]
        self.h, self.w, self.spec = h, w, spec
        self.pols = spec["pols"]
        self.phases = spec["phases"]          # previsions of the 4 micropolarizers
        b = spec.get("block", 1)              # values constant on b x b superpixels
        def field(lo, hi):
            a = g.uniform(lo, hi, (4, -(-h // (2 * b)), -(-w // (2 * b))))
            a = a.repeat(b, axis=1).repeat(b, axis=2)[:, :h // 2, :w // 2]
            out = np.empty((h, w))
            for k in range(4):
                out[k // 2::2, k % 2::2] = a[k]
            return out
        self.t, self.eff = field(0.55, 0.95), field(0.55, 0.95)
        if spec.get("narrow"):  # one population of pixels, and a few others in the middle
            self.t = 0.75 * (1 + 0.0015 * g.normal(size=(h, w)))
            self.t[h // 2 - 2:h // 2 + 2, w // 2 - 2:w // 2] = 0.3
            self.t[h // 2 - 2:h // 2 + 2, w // 2:w // 2 + 2] = 0.95
        base = np.empty((h, w))
        for k in range(4):
            base[k // 2::2, k % 2::2] = self.phases[k]
        self.phi = base + field(-8, 8)
        self.S = spec["S"]

    def images(self):
        return [self.S * malus(p, self.t, self.eff, self.phi) for p in self.pols]

    def mij(self, binning=1):
        h, w = self.h // 2, self.w // 2
        out = np.empty((3, 4, h, w))
        for y in range(h):
            for x in range(w):
                s = (slice(2 * y, 2 * y + 2), slice(2 * x, 2 * x + 2))
                t, e, p = self.t[s].ravel(), self.eff[s].ravel(), np.deg2rad(self.phi[s].ravel())
                m = np.array([0.5 * t, 0.5 * t * e * np.cos(2 * p), 0.5 * t * e * np.sin(2 * p)]).T
                out[:, :, y, x] = np.linalg.pinv(m)
        return out

    def theo(self):
        p = np.deg2rad(np.array(self.phases, float))
        return np.linalg.pinv(np.array([[0.5] * 4, 0.5 * np.cos(2 * p), 0.5 * np.sin(2 * p)]).T)


def gen_truth(rng, h=8, w=8, n_pols=None):
    pols = [0, 45, 90, -45] + rng.sample([-75, -60, -30, -15, 15, 30, 60, 75], n_pols or rng.randrange(3, 6))
    rng.shuffle(pols)
    return {"seed": rng.getrandbits(30), "h": h, "w": w, "pols": pols,
            "phases": rng.choice([[0, 45, -45, 90], [90, 45, -45, 0], [-45, 0, 90, 45]]),
            "S": rng.choice([100.0, 1000.0, 3000.0])}


def write_inputs(truth, folder, cards=()):
    os.makedirs(folder, exist_ok=True)
    names = []
    for i, (p, a) in enumerate(zip(truth.pols, truth.images())):
        f = os.path.join(folder, f"pol_{i:02d}.fits")
        write_fits(f, a, cards)
        names.append(f)
    return names


def write_tensor(folder, mij, flags=None, extra=()):
    os.makedirs(folder, exist_ok=True)
    for i in range(3):
        for j in range(4):
            write_fits(os.path.join(folder, f"M{i}{j}.fits"), mij[i, j])
    if flags is not None:
        write_fits(os.path.join(folder, "fit_found_flag.fits"), np.asarray(flags, float))


# ----------------------------------------------------------------------- warm-up
def warm_up(demosaic=("<f8",), ifov=("<f8",), shift=("<f8",), chen=False):
    """Compile the numba functions before forking (once per check)."""
    import contextlib
    import io
    m = ml()

    def attempt(fn):
        try:
            fn()
        except Exception:
            pass

    with contextlib.redirect_stdout(io.StringIO()):
        def img(dt="<f8"):
            return m.MicropolImage(np.ones((8, 8), dtype=dt) * np.dtype(dt).type(2), angle_dic=CAMERA)
        for dt in demosaic:
            attempt(lambda: img(dt).demosaic("adjacent"))
        for dt in ifov:
            attempt(lambda: img(dt).correct_ifov())
        for dt in shift:
            attempt(lambda: m.Image(np.ones((8, 8), dtype=dt)).shift(1, 1))
        attempt(lambda: img().demosaic("mean"))
        attempt(lambda: img().rebin(2))
        attempt(lambda: img().shift(1, -1))
        attempt(lambda: img().shift(1, -1, -3.5))
        attempt(lambda: img().congrid(8, 8))
        attempt(lambda: m.Image(np.ones((8, 8))).rebin(2))
        if chen:
            from micropolarray.processing import chen_wan_liang_calibration as cw
            attempt(lambda: cw._build_S_input(np.ones((4, 4, 2, 2)), np.ones((4, 4, 4, 4))))
            attempt(lambda: cw._ifov_jitcorrect(np.ones((4, 4)), 4, 4))
        attempt(lambda: m.merge_polarizations(np.ones((4, 2, 2))))
        attempt(lambda: m.MicropolImage(np.ones((8, 8)), angle_dic=CAMERA).rotate(90))
    import matplotlib.pyplot as plt
    plt.close("all")


def rand_name(rng, ext=".fits", used=()):
    for _ in range(100):
        base = rng.choice(["img", "a.b", "dark frame", "x_1", "2021-01-01T00.00", "M", "Z9", "é", "deep", "raw.raw"]) + rng.choice(["", "", "_2", "-c"])
        sub = rng.choice(["", "", "", "d1/", "d1/d2/", "n e w/"])
        p = sub + base + ext
        if p not in used:
            return p
    return f"f{rng.getrandbits(30)}{ext}"

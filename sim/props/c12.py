"""C12: a program gives the same results whatever memory held, whatever ran before,
whenever and wherever it runs."""
import json
import os
import random
import signal
import socket
import subprocess
import sys
import tempfile

from .. import lib, native, program
from ..lib import HarnessError, Seam

RUNS = {"quick": 520, "thorough": 16000}
WARM = {"demosaic": ["<f8", "<u2", "<i2"], "ifov": ["<f8", "<u2", "<i2"], "shift": ["<f8"]}
LISTS = ["program", "prior"]
RULE = ("seeded program of 1-4 parts (operation histories, saves, file lists, matrix folders, calibrations, conversions, image functions, refused operations) "
        "executed once plainly and again (a) with new memory filled with NaN or another pattern, (b) after another program in the same process, (c) with another "
        "clock, directory order, worker schedule and memory mapping, (d) in a process with another string-hash seed; every result and file is compared bitwise; "
        "non-trivial = at least one pair of executions was compared")
ASSUMPTIONS = ["header cards that hold the time of writing are not compared", "executions on one machine with one version of every library"]
STUB = "numpy data allocator and malloc fill, libc file calls (simio.so), wall clock, process pool"

KINDS = ["ops", "ops", "ops", "ops", "save", "list", "demod", "convert", "pure", "pure", "pure", "chen"]
PEER = None


def gen(rng, tier, i):
    kinds = KINDS + (["calib"] if rng.random() < 0.35 else [])
    scn = {"program": [program.gen_item(rng, kinds) for _ in range(rng.randrange(1, 4))],
           "prior": [program.gen_item(rng, KINDS + ["bad", "bad"]) for _ in range(rng.randrange(1, 4))],
           "poison": rng.choice(["nan", 1e300, 7.0, -1.5]), "perturb": rng.choice([0, 85, 170, 255]), "clock": [rng.randrange(10 ** 9, 2 * 10 ** 9) * 10 ** 9, rng.choice([0, 10 ** 6, 10 ** 9])],
           "dirseed": rng.getrandbits(30), "memmap": rng.random() < 0.5, "vary": rng.getrandbits(30),
           "how": rng.sample(["heap", "heap", "prior", "world", "peer"], rng.randrange(2, 5))}
    if rng.random() < 0.5:
        scn["prior"] = program.siblings(rng, scn["program"]) + scn["prior"][:1]
    return scn


def shrink(scn):
    for h in scn["how"]:
        if len(scn["how"]) > 1:
            yield dict(scn, how=[h])
    for n, it in enumerate(scn["program"]):
        if it["k"] in ("ops", "save") and len(it["ops"]) > 1:
            for j in range(len(it["ops"])):
                yield dict(scn, program=[dict(x, ops=x["ops"][:j] + x["ops"][j + 1:]) if q == n else x for q, x in enumerate(scn["program"])])


def in_child(fn):
    """fn() in a forked child; its JSON result, or an error."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = {"ok": fn()}
            except Exception as exc:
                out = {"exc": f"{type(exc).__name__}: {exc}"}
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps(out, default=str).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    return json.loads(data) if data else {"died": status}


def execute(scn, root, how):
    from astropy.io import fits
    fits.conf.use_memmap = True
    lib.ml().set_default_angles(dict(lib.CAMERA))
    vary = None
    if how == "prior":
        try:
            program.run_program(scn["prior"], os.path.join(root, "prior"))
        except Exception:
            pass
    if how == "world":
        fits.conf.use_memmap = scn["memmap"]
        vary = random.Random(scn["vary"])
        # the clock of the baseline is the real one
        with Seam(_Null(), root, dirseed=scn["dirseed"], clock=scn["clock"]):
            return program.run_program(scn["program"], os.path.join(root, "prog"), vary)
    if how == "heap":
        native.perturb_malloc(scn["perturb"])
        native.use_sim_allocator()
        native.alloc(True, poison=True, pattern=float(scn["poison"]))
    return program.run_program(scn["program"], os.path.join(root, "prog"), vary)


class _Null:
    def __init__(self):
        import collections
        self.faults, self.trace, self.sim_ns, self.steps = collections.Counter(), [], 0, 0


# ------------------------------------------------------- a process with another hash seed
def prepare():
    """Start the peer: the same program server under another PYTHONHASHSEED."""
    global PEER
    if os.environ.get("MPSIM_PEER"):
        return
    folder = tempfile.mkdtemp(prefix="mpsim-peer-")
    path = os.path.join(folder, "s")
    r, w = os.pipe()
    os.set_inheritable(r, True)
    env = dict(os.environ, PYTHONHASHSEED=str(1 + int(os.environ.get("VERIF_SEED", "1")) % 1000), MPSIM_PEER=f"{path}\n{r}")
    proc = subprocess.Popen([sys.executable, "-c", "from sim.props import c12; c12.serve()"], env=env, close_fds=True, pass_fds=[r],
                            cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), stdout=subprocess.DEVNULL)
    os.close(r)
    # the write end stays open in this process and its children; the peer ends when all are gone
    import atexit
    import shutil
    import time
    pid = os.getpid()

    def stop():
        if os.getpid() == pid:
            proc.kill()
            proc.wait()
            shutil.rmtree(folder, ignore_errors=True)
    atexit.register(stop)
    for _ in range(1200):
        if os.path.exists(path + ".ready"):
            break
        if proc.poll() is not None:
            raise HarnessError("the peer process ended")
        time.sleep(0.1)
    else:
        raise HarnessError("the peer process did not start")
    PEER = path


def serve():
    import select
    from .. import runner
    path, fd = os.environ["MPSIM_PEER"].split("\n")
    fd = int(fd)
    runner.prepare(sys.modules[__name__])
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(64)
    open(path + ".ready", "w").close()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        ready = select.select([srv, fd], [], [])[0]
        if fd in ready:
            os._exit(0)          # the checking process is gone
        conn, _ = srv.accept()
        if os.fork():
            conn.close()
            continue
        try:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            srv.close()
            with conn.makefile("rb") as f:
                req = json.loads(f.readline())
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            os.chdir(req["root"])
            res = in_child(lambda: execute(req["scn"], req["root"], "plain"))
            conn.sendall(json.dumps(res).encode())
            conn.close()
        finally:
            os._exit(0)


def ask_peer(scn, root):
    s = socket.socket(socket.AF_UNIX)
    s.connect(PEER)
    s.sendall(json.dumps({"scn": scn, "root": root}).encode() + b"\n")
    data = b""
    while True:
        b = s.recv(1 << 16)
        if not b:
            break
        data += b
    s.close()
    return json.loads(data)


def run(scn, env):
    if not scn["program"]:
        return

    def once(n, how):
        # every execution sees the same paths
        root = os.path.join(env.root, "r")
        os.makedirs(root)
        try:
            return ask_peer(scn, root) if how == "peer" else in_child(lambda: execute(scn, root, how))
        finally:
            os.rename(root, os.path.join(env.root, f"done{n}"))

    base = once(0, "plain")
    if "died" in base:
        base = once("0again", "plain")
    if "ok" not in base:
        env.fail("unexpected-exception", f"the program failed: {base}")
    env.note(lib.sha(json.dumps(base["ok"]).encode()))
    for it in scn["program"]:
        env.ops[it["k"]] += 1
        for op in it.get("ops", []) if it["k"] == "ops" else []:
            env.ops[op["op"]] += 1
    WORDS = {"heap": f"with new memory filled with {scn['poison']}", "prior": "after another program in the same process",
             "world": "with another clock, directory order, worker schedule and memory mapping", "peer": "in a process with another hash seed"}
    for n, how in enumerate(scn["how"]):
        got = once(n + 1, how)
        if "died" in got:  # only a death that repeats is the program's doing
            got = once(f"{n + 1}again", how)
        env.faults[{"heap": "heap_contents", "prior": "prior_session", "world": "clock_directory_order_schedule", "peer": "hash_seed"}[how]] += 1
        env.check("ok" in got, "not-reproducible", lambda: f"the same program failed {WORDS[how]}: {got}")
        env.check(got["ok"] == base["ok"], "not-reproducible", lambda: f"the same program gave other results {WORDS[how]}: {first_difference(base['ok'], got['ok'])}")
        env.note(how)


def first_difference(a, b):
    for x, y in zip(a, b):
        if x != y:
            return f"{x[0]}: {json.dumps(x[1])[:500]} is not {json.dumps(y[1])[:500]}"
    return "different length"

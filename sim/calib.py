"""Calibration inputs with a known ground truth, and reading back what was published."""
import os

import numpy as np

from . import lib, pool

NAMES = ["transmittancies", "efficiences", "phases", "fit_found_flag"]


def gen(rng, small=False, binning=True):
    """A calibration: instrument, corrections, grid, worker schedule."""
    b = rng.choice([1, 1, 1, 2]) if binning else 1
    hs, ws = [(rng.choice([1, 2, 4]) if small else rng.choice([2, 4, 4, 6, 8])) for _ in range(2)]
    t = lib.gen_truth(rng, 2 * hs * b, 2 * ws * b, rng.choice([0, 1, 2, 3, 4]))
    t["block"] = b
    c = {"truth": t, "binning": b, "dark": rng.choice([None, None, "const", "rand"]), "flat": rng.random() < 0.35,
         "occ": None, "S": rng.choice(["num", "num", "2d", "3d", "3d"]), "gain": rng.choice([2.5, 6.93, 9.28]), "seed": rng.getrandbits(30)}
    if rng.random() < 0.25 and hs * ws >= 16:
        c["occ"] = [rng.randrange(0, t["h"]), rng.randrange(0, t["w"]), rng.randrange(2, 6) * b]
    if rng.random() < 0.3:
        c["bounds"] = True
    if rng.random() < 0.5:
        c["noise"] = 1e-4
    return c


def gen_auto(rng):
    """A calibration that estimates the signal of unpolarized light itself: many pixels, most of them occulted."""
    c = gen(rng, binning=False)
    h, w = 4 * rng.randrange(10, 15), 4 * rng.randrange(10, 15)
    c["truth"].update(h=h, w=w, narrow=True)
    c.update(flat=False, S="auto", occ=[h // 2, w // 2, int(np.hypot(h, w) / 2 - rng.randrange(9, 12))])
    c.pop("bounds", None)
    c.pop("noise", None)
    return c


def grids(c):
    h, w = c["truth"]["h"] // c["binning"] // 2, c["truth"]["w"] // c["binning"] // 2
    return [[y, x] for y in range(1, 5) for x in range(1, 5) if h % y == 0 and w % x == 0]


class Calib:
    """The files of a calibration below root, and its parameters."""

    def __init__(self, c, root, name="in"):
        self.c, self.root = c, root
        self.folder = os.path.join(root, name)
        os.makedirs(self.folder, exist_ok=True)
        t = self.t = lib.Truth(c["truth"])
        g = np.random.Generator(np.random.PCG64(c["seed"]))
        h, w, b = t.h, t.w, c["binning"]
        F = np.ones((h, w))
        if c["flat"]:
            k = g.uniform(0.6, 1.4, (4, -(-h // (2 * b)), -(-w // (2 * b)))).repeat(b, axis=1).repeat(b, axis=2)
            for i in range(4):
                F[i // 2::2, i % 2::2] = k[i][:h // 2, :w // 2]
        dark = np.zeros((h, w))
        if c["dark"]:
            dark = np.full((h, w), 37.0) if c["dark"] == "const" else g.uniform(5, 60, (h, w))
        Fn = self.Fn = F / (F.mean() + F.std()) if c["flat"] else F
        # the signal of unpolarized light: a number, an image, or an image for each file
        self.S = np.full((len(t.pols), h, w), float(t.S))
        if c["S"] in ("2d", "3d"):
            self.S *= g.uniform(0.8, 1.2, (h, w))
        if c["S"] == "3d":
            self.S *= g.uniform(0.7, 1.3, (len(t.pols), 1, 1))
        self.files, self.raw, self.dark, self.F = [], [], dark, F
        names = g.permutation(len(t.pols))  # the order of the names is not that of the orientations
        for i, pol in enumerate(t.pols):
            f = os.path.join(self.folder, f"pol_{names[i]:02d}.fits")
            a = self.S[i] * lib.malus(pol, t.t, t.eff, t.phi) * Fn + dark
            if c.get("noise"):
                a += c["noise"] * self.S[i] * g.normal(size=(h, w))
            lib.write_fits(f, a)
            self.files.append(f)
            self.raw.append(a)
        self.dark_file = self.flat_file = None
        if c["dark"]:
            self.dark_file = os.path.join(self.folder, "dark.fits")
            lib.write_fits(self.dark_file, dark)
        if c["flat"]:
            self.flat_file = os.path.join(self.folder, "flat.fits")
            lib.write_fits(self.flat_file, F * 1000.0)
        self.pols = list(t.pols)

    def run(self, out, grid=(1, 1), order=None, **over):
        m = lib.ml()
        c, t = self.c, self.t
        idx = order if order is not None else range(len(self.pols))
        S = {"num": t.S, "2d": self.S[0], "3d": self.S[list(idx)], "auto": None}[c["S"]]
        if isinstance(S, np.ndarray):
            S = S.copy()
        kw = dict(polarizer_orientations=[self.pols[i] for i in idx], filenames_list=[self.files[i] for i in idx],
                  micropol_phases_previsions=list(t.phases), gain=c["gain"], output_dir=out, binning=c["binning"],
                  occulter=list(c["occ"]) if c["occ"] else None, procs_grid=list(grid), dark_filename=self.dark_file,
                  flat_filename=self.flat_file, normalizing_S=S)
        if c.get("bounds"):
            kw.update(tk_boundary=[0.6, 0.2, 1.0], eff_boundary=[0.6, 0.2, 1.0])
        if c.get("loose"):
            kw.update(eff_boundary=[0.6, 0.0, 1.0])
        kw.update(over)
        self.kw, self.kw_before = kw, {k: str(v) for k, v in kw.items()}
        m.calculate_demodulation_tensor(**kw)

    def expected(self):
        """Ground truth at the binned resolution: t, eff, phi, mij."""
        b, t = self.c["binning"], self.t
        if b == 1:
            return t.t, t.eff, t.phi, t.mij()
        def down(a):
            out = np.empty((t.h // b, t.w // b))
            for k in range(4):
                out[k // 2::2, k % 2::2] = a[k // 2::2, k % 2::2][::b, ::b]
            return out
        small = object.__new__(lib.Truth)
        small.h, small.w = t.h // b, t.w // b
        small.t, small.eff, small.phi = down(t.t), down(t.eff), down(t.phi)
        return small.t, small.eff, small.phi, small.mij()

    def binned(self, a):
        """The sums of the pixels of equal orientation, over binning x binning superpixels."""
        b = self.c["binning"]
        h, w = a.shape[0] // (2 * b), a.shape[1] // (2 * b)
        return np.ascontiguousarray(a.reshape(h, b, 2, w, b, 2).sum(axis=(1, 4)).transpose(0, 1, 2, 3)).reshape(2 * h, 2 * w)

    def uncertainty(self, t, eff, phi_deg):
        """Covariance of the fitted parameters and reduced chi square of a Poisson signal detected with the given gain, at the given parameters."""
        S = [self.binned(x) for x in self.S]
        y = np.array([np.clip(self.binned(r) - self.binned(self.dark), 0, None) / self.binned(self.Fn) * self.c["binning"] ** 2 / s for r, s in zip(self.raw, S)])
        var = y / (np.array(S) * self.c["gain"])
        var[var == 0] = 1e-10
        d = 2 * np.deg2rad(phi_deg - np.array(self.pols)[:, None, None])
        J = np.array([0.5 * (1 + eff * np.cos(d)), 0.5 * t * np.cos(d), -t * eff * np.sin(d)])
        W = np.einsum("inyx,jnyx,nyx->yxij", J, J, 1 / var)
        cov = np.linalg.inv(W).transpose(2, 3, 0, 1)
        chi = ((0.5 * t * (1 + eff * np.cos(d)) - y) ** 2 / var).sum(axis=0) / (len(self.pols) - 3)
        return cov, chi

    def occulted(self):
        """(surely occulted, surely free) superpixels at the binned resolution."""
        b, t = self.c["binning"], self.t
        hs, ws = t.h // b // 2, t.w // b // 2
        if not self.c["occ"]:
            return np.zeros((hs, ws), bool), np.ones((hs, ws), bool)
        y, x, r = [v / b for v in self.c["occ"]]
        yy, xx = np.mgrid[:hs, :ws]
        d = np.hypot(2 * yy + 0.5 - y, 2 * xx + 0.5 - x)
        return d < r - 4, d > r + 5


def load(folder):
    """Everything a user can read from a calibration folder, through the package.
    ("refused", why) or ("ok", {name: array})."""
    m = lib.ml()
    try:
        d = m.Demodulator(folder)
        out = {"mij": np.array(d.mij), "flags": None if d.fit_found_flags is None else np.array(d.fit_found_flags, float)}
    except Exception as exc:
        return "refused", f"{type(exc).__name__}: {exc}"
    for k in ("Cij", "tk", "eff", "phi"):
        try:
            v = getattr(d, k)
            out[k] = None if v is None else np.array(v, float)
        except Exception as exc:
            out[k] = ("refused", type(exc).__name__)
    return "ok", out


def equal(a, b, rtol=1e-7, atol=1e-9):
    """Names of the parts that differ."""
    bad = []
    for k in a:
        x, y = a[k], b.get(k)
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            if not lib.close(x, y, rtol, atol):
                bad.append(k)
        elif not (x is None and y is None or isinstance(x, tuple) and isinstance(y, tuple)):
            bad.append(k)
    return bad


def gen_pool(rng):
    return {"seed": rng.getrandbits(30), "order": rng.choice(["seeded", "seeded", "reversed", "fifo"]), "inproc": rng.random() < 0.5}


def set_pool(p, faults=(), inproc=None):
    pool.PLAN.reset(p["seed"], p["order"], faults, p["inproc"] if inproc is None else inproc)

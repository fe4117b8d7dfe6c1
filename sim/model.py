"""Reference model of a micropolarizer image: pixels, orientations, Stokes
parameters, demosaiced images.  Written from the documentation with plain
loops-free numpy; shares no code with the package."""
import numpy as np


def split(d):
    return np.array([d[0::2, 0::2], d[0::2, 1::2], d[1::2, 0::2], d[1::2, 1::2]], float)


def merge(s):
    out = np.empty((2 * s[0].shape[0], 2 * s[0].shape[1]))
    for k in range(4):
        out[k // 2::2, k % 2::2] = s[k]
    return out


def theory(subs, ang):
    return np.array([0.5 * (subs[0] + subs[1] + subs[2] + subs[3]), subs[ang[0]] - subs[ang[90]], subs[ang[45]] - subs[ang[-45]]])


def resize(a, dims):
    """Linear, end points kept."""
    a = np.asarray(a, float)
    for axis, n in enumerate(dims):
        old = a.shape[axis]
        pos = np.arange(n) * ((old - 1) / (n - 1))
        lo = np.clip(np.floor(pos).astype(int), 0, old - 2)
        f = (pos - lo).reshape((-1, 1) if axis == 0 else (1, -1))
        a = np.take(a, lo, axis) * (1 - f) + np.take(a, lo + 1, axis) * f
    return a


def demosaic(d, mode):
    d = np.asarray(d, float)
    h, w = d.shape
    out = []
    for k in range(4):
        s = d[k // 2::2, k % 2::2]
        if mode == "mean":
            out.append(np.kron(s * 0.25, np.ones((2, 2))))
        elif mode == "adjacent":
            e = np.pad(s, ((0, 1), (0, 1)), mode="edge")
            o = np.empty((h, w))
            o[0::2, 0::2] = e[:-1, :-1]
            o[1::2, 0::2] = (e[:-1, :-1] + e[1:, :-1]) / 2
            o[0::2, 1::2] = (e[:-1, :-1] + e[:-1, 1:]) / 2
            o[1::2, 1::2] = (e[:-1, :-1] + e[1:, :-1] + e[:-1, 1:] + e[1:, 1:]) / 4
            out.append(o)
        else:
            out.append(resize(s, (h, w)))
    return np.array(out)


def contrast(d):
    """Of each pixel to the middle of its neighbourhood in its orientation."""
    out = []
    for s in split(d):
        e = np.pad(s, ((1, 0), (1, 0)), mode="symmetric")
        near = np.sort([e[1:, 1:], e[:-1, 1:], e[1:, :-1], e[:-1, :-1]], axis=0)[2]
        with np.errstate(all="ignore"):
            out.append((s - near) / (s + near))
    return merge(out)


def turn(a, angle):
    from PIL import Image
    return np.asarray(Image.fromarray(np.asarray(a, np.float32)).rotate(angle), float)


class Model:
    def __init__(self, data, angles):
        self.data, self.ang = np.array(data), dict(angles)
        self.demo = None
        self.S = theory(split(self.data), self.ang)

    def copy(self):
        o = object.__new__(Model)
        o.data, o.ang, o.S = self.data.copy(), dict(self.ang), [s.copy() for s in self.S]
        o.demo = None if self.demo is None else self.demo.copy()
        return o

    def pixels(self, data):
        """New pixels: everything derived from the old ones is gone."""
        self.data, self.demo = np.array(data), None
        self.S = theory(split(self.data), self.ang)
        return self

    # in place
    def demosaic(self, mode):
        self.demo = demosaic(self.data, mode)
        self.S = theory(self.demo, self.ang)
        return self

    def dark(self, b):
        return self.pixels(np.maximum(self.data.astype(float) - b.data.astype(float), 0))

    def flat(self, b):
        f = b.data.astype(float)
        f = f / f.mean()
        d = self.data.astype(float)
        return self.pixels(np.where(f != 0, d / np.where(f != 0, f, 1), d))

    def ifov(self):
        d, o = self.data.astype(float), np.zeros(self.data.shape)
        o[2:, 2:] = 0.25 * (d[:-2, :-2] + d[:-2, 2:] + d[2:, :-2] + d[2:, 2:])
        return self.pixels(o)

    # results
    def rebin(self, n):
        h, w = [s // (2 * n) * (2 * n) for s in self.data.shape]
        subs = split(self.data[:h, :w].astype(float))
        subs = subs.reshape(4, h // 2 // n, n, w // 2 // n, n).sum(axis=(2, 4))
        return self.copy().pixels(merge(subs))

    def congrid(self, y, x):
        y, x = y - y % 2, x - x % 2
        o = self.copy().pixels(merge([resize(s, (y // 2, x // 2)) for s in split(self.data)]))
        o.S = [resize(s, (y, x)) for s in self.S]
        return o

    def rotate(self, angle):
        o = self.copy().pixels(merge([turn(s, angle) for s in split(self.data)]))
        o.S = [turn(s, angle) for s in self.S]
        return o

    def shift(self, y, x, missing):
        subs = split(self.data)
        out = np.full(subs.shape, float(missing))
        h, w = subs.shape[1:]
        for j in range(h):
            for i in range(w):
                if 0 <= j - y < h and 0 <= i - x < w:
                    out[:, j, i] = subs[:, j - y, i - x]
        return self.copy().pixels(merge(out))

    def demodulate(self, mij, flags, demosaicing):
        o = self.copy()
        subs = split(self.data)
        if demosaicing:
            o.demosaic("adjacent")
            subs = o.demo
            mij = mij.repeat(2, axis=2).repeat(2, axis=3)
            flags = None if flags is None else flags.repeat(2, axis=0).repeat(2, axis=1)
        S = np.zeros((3,) + subs.shape[1:])
        for i in range(3):
            for j in range(4):
                S[i] = S[i] + mij[i, j] * subs[j]
        if flags is not None:
            S = np.where(flags == 1, S, theory(subs, self.ang))
        o.S = S
        return o

    def clean(self, hot):
        import scipy.ndimage
        subs = split(self.data)
        soft = np.array([scipy.ndimage.median_filter(s, size=2) for s in subs])
        return self.copy().pixels(merge(np.where(split(hot) == 1, soft, subs)))

    def arith(self, sign, b, angles=None):
        a = self.data
        d = a + b if sign == "+" else a - b if sign == "-" else a * b if sign == "*" else np.asarray(a, float) / b
        o = self.copy()
        return o.pixels(d)

    def params(self):
        I, Q, U = [np.asarray(s, float) for s in self.S]
        p = np.hypot(Q, U)
        return {"I": I, "Q": Q, "U": U, "pB": p, "AoLP": 0.5 * np.arctan2(U, Q),
                "DoLP": np.divide(p, I, out=np.zeros_like(p), where=I != 0)}

"""The save operations of the package, and what each must leave on disk."""
import os

import numpy as np

from . import lib

PARAMS = ["I", "Q", "U", "pB", "AoLP", "DoLP"]
KINDS = ["fits", "fits", "pols", "param", "params", "demo", "raw", "image"]


def gen_source(rng, maxside=24):
    spec = lib.gen_img(rng, maxside)
    spec["src"] = rng.choice(["array", "array", "file", "scaled"])
    if spec["src"] == "scaled":
        spec["dtype"], spec["kind"] = "<i2", "rand"
    spec["angles"] = rng.randrange(4)
    spec["layout"] = rng.choice(["C", "C", "F", "view"])
    spec["cards"] = [["EXPTIME", round(rng.uniform(0.1, 99), 3)], ["OBJECT", rng.choice(["sun", "it''s".replace("''", "'"), "Dome C"])],
                     ["COUNT", rng.randrange(1000)], ["DATE-OBS", "2021-12-04T%02d:%02d:%02d" % (rng.randrange(24), rng.randrange(60), rng.randrange(60))]]
    return spec


def build(spec, root, n):
    """The image of a source spec (made through the package)."""
    m = lib.ml()
    ang = lib.angle_dics()[spec["angles"]]
    arr = lib.make(spec)
    if spec["src"] == "array":
        if spec.get("layout") == "F":
            arr = np.asfortranarray(arr)
        elif spec.get("layout") == "view":
            arr = np.repeat(np.repeat(arr, 2, axis=0), 3, axis=1)[::-2, ::3][::-1]
        img = m.MicropolImage(arr, angle_dic=ang)
        for k, v in spec["cards"]:
            img.header[k] = v
        return img
    path = os.path.join(root, f"source{n}.fits")
    if spec["src"] == "scaled":
        lib.write_fits(path, arr, spec["cards"], bscale=0.5, bzero=10.0)
    else:
        lib.write_fits(path, arr, spec["cards"])
    img = m.MicropolImage(path, angle_dic=ang)
    os.unlink(path)
    return img


def expected_values(spec):
    arr = lib.make(spec)
    return arr.astype(float) * 0.5 + 10.0 if spec["src"] == "scaled" else arr


def gen_op(rng, n_imgs, imgs, used=()):
    kind = rng.choice(KINDS)
    i = rng.randrange(n_imgs)
    if kind == "raw":
        ok = [j for j, s in enumerate(imgs) if s["dtype"] in ("<u2", "<i2", "|u1") and s["src"] != "scaled"]
        if not ok:
            kind = "fits"
        else:
            i = rng.choice(ok)
    if kind == "demo":
        ok = [j for j, s in enumerate(imgs) if s["dtype"] in ("<f8", "<u2", "<i2") or s["src"] != "array"]
        if not ok:
            kind = "pols"
        else:
            i = rng.choice(ok)
    op = {"kind": kind, "img": i, "abs": rng.random() < 0.5,
          "path": lib.rand_name(rng, ".raw" if kind == "raw" else ".fits")}
    if kind == "raw":
        op["path"] = os.path.basename(op["path"])
    if kind in ("fits", "pols", "param", "demo", "image") and rng.random() < 0.35:
        lo = rng.choice([0, 0, 1, 100, -50, 0.5])
        op["fixto"] = [lo, lo + rng.choice([1, 200, 4096, 0.25, 0])]
    if kind == "param":
        op["param"] = rng.choice(PARAMS)
    if kind == "demo":
        op["mode"] = rng.choice(["adjacent", "mean"])
    return op


def perform(op, img, root):
    """Run the save.  Returns what it returned (None)."""
    m = lib.ml()
    path = os.path.join(root, op["path"]) if op["abs"] else op["path"]
    kind, fx = op["kind"], op.get("fixto")
    if kind == "fits":
        img.save_as_fits(path, fixto=fx) if fx else img.save_as_fits(path)
    elif kind == "image":
        m.Image.save_as_fits(img, path, fixto=fx)
    elif kind == "pols":
        img.save_single_pol_images(path, fixto=fx)
    elif kind == "param":
        img.save_param_as_fits(op["param"], path, fixto=fx)
    elif kind == "params":
        img.save_all_pol_params_as_fits(path)
    elif kind == "demo":
        img.save_demosaiced_images_as_fits(path, fixto=fx)
    elif kind == "raw":
        img.save_as_raw(path)


def clip(a, fx):
    a = np.asarray(a)
    if not fx:
        return a
    return np.clip(a.astype(float), fx[0], fx[1])


def contents(op, img):
    """{path: ("fits"|"raw", array)} - taken from the public attributes."""
    stem, fx = op["path"][:-len(os.path.splitext(op["path"])[1])], op.get("fixto")
    kind = op["kind"]
    out = {}
    if kind in ("fits", "image"):
        out[op["path"]] = clip(img.data, fx)
    elif kind == "pols":
        sub = np.asarray(img.data)
        for ang, pos in img.angle_dic.items():
            out[f"{stem}POL{ang}.fits"] = clip(sub[pos // 2::2, pos % 2::2], fx)
    elif kind == "param":
        out[f"{stem}_{op['param']}.fits"] = clip(getattr(img, op["param"]).data, fx)
    elif kind == "params":
        for p in PARAMS:
            out[f"{stem}_{p}.fits"] = getattr(img, p).data
    elif kind == "demo":
        for ang, pos in img.angle_dic.items():
            out[f"{stem}_POL{ang}.fits"] = clip(img.demosaiced_images[pos], fx)
    elif kind == "raw":
        out[op["path"]] = np.asarray(img.data)
    return {os.path.normpath(k): np.array(v) for k, v in out.items()}


def relatives(paths, stem):
    """Names that the same saves of other images give, whose names begin or end like this one's."""
    out = []
    for p in paths:
        folder, name = os.path.split(p)
        out.append(os.path.join(folder, "x" + name))
        if p.startswith(stem):
            out += [stem + more + p[len(stem):] for more in ("_2", "2", "_old", ".1")]
    return [os.path.normpath(p) for p in out]


def holds(path, arr, cards=()):
    """None if the file holds exactly arr (independent reader), else what is wrong."""
    try:
        with open(path, "rb") as f:
            raw = f.read()
    except FileNotFoundError:
        return "file is missing"
    if path.endswith(".raw"):
        want = np.asarray(arr).astype(np.int64)
        if len(raw) != 2 * want.size:
            return f"{len(raw)} bytes instead of {2 * want.size}"
        got = np.frombuffer(raw, "<i2").reshape(want.shape).astype(np.int64)
        if want.size and want.max() > 32767:
            got = got & 0xffff
        return None if np.array_equal(got, want) else lib.diff(got, want)
    try:
        got, head = lib.parse_fits(raw)
    except lib.BadFits as exc:
        return f"not a complete fits file: {exc}"
    if not lib.same(got, arr):
        return lib.diff(got, arr)
    for k, v in cards:
        if head.get(k) != v:
            return f"header keyword {k} is {head.get(k)!r}, not {v!r}"
    return None


STRUCTURAL = {"SIMPLE", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "EXTEND", "BSCALE", "BZERO", "PCOUNT", "GCOUNT", "END", "", "COMMENT", "HISTORY"}
OWN_CARDS = {"pols": {"POL"}, "demo": {"POL"}, "param": {"PARAM", "UNITS"}, "params": {"PARAM", "UNITS"}}


def cards_of(img):
    """{keyword: value} of the header of an image, without the structural cards."""
    return {k: img.header[k] for k in img.header if k not in STRUCTURAL}


def header_fault(path, kind, cards):
    """None if the header of a saved file has the cards of the image and those its kind of file adds, else what is wrong."""
    if path.endswith(".raw"):
        return None
    head = lib.read_fits(path)[1]
    own = OWN_CARDS.get(kind, set())
    for k, v in cards.items():
        if k in own or k not in head:
            if k not in own:
                return f"header card {k} of the image is missing"
        elif head[k] != v and not (isinstance(v, float) and head[k] == float("%.16G" % v)):
            return f"header card {k} is {head[k]!r}, in the image it is {v!r}"
    extra = sorted(k for k in head if k not in cards and k not in STRUCTURAL and k not in own)
    return f"header cards {extra} are none of the image" if extra else None


def load_values(path):
    """The pixel values the package itself loads from a file."""
    m = lib.ml()
    return np.asarray(m.Image(path).data)

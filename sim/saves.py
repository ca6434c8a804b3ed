"""Fields to save, and what a saved file has to show."""
import os
from collections import OrderedDict

import numpy as np

from sim import formats

NAMES = ["a", "rho", "Bx", "pp", "B", "v_1", "j", "T-e", "n e", "a&b", "p<0", "q:1", "|v|", "dx/dt"]
TYPES = ["f4", "f8", "f8", "i4", "f4", "f8", "i8", "u2", "u4", "i1", "?", "c8", "f2", ">f8", ">i4"]


def gen_spec(rng, fmt=None, nd=None):
    """several versions of a set of fields for one target"""
    fmt = fmt or rng.choice(["h5", "h5", "npz"])
    nd = nd or (3 if fmt == "h5" else rng.choice([1, 2, 3, 3]))
    names = rng.sample(NAMES, rng.randint(1, 4))
    vers = []
    for k in range(3):
        if k == 0 or rng.random() < 0.4:
            dims = [rng.randint(2, 5) for _ in range(nd)]
            if dims in ([3, 3, 3], [2, 2, 2]):
                dims[2] += 2        # known finding KF1
        else:
            dims = list(vers[0]["dims"])
        vers.append({"dims": dims, "nc": [formats.axis_nodes(rng, 5) for _ in range(nd)],
                     "time": rng.choice([0.0, 12.5, 3600.0 + k, 71.25 + 10 * k, None, -3.0 - k, 1.0 / 3 + k]),
                     "names": names if rng.random() < 0.6 else rng.sample(NAMES, rng.randint(1, 4))})
    flds = {}
    for n in NAMES:
        flds[n] = {"center": rng.choice(["cell", "node", "cell"]), "dtype": rng.choice(TYPES),
                   "vec": nd == 3 and rng.random() < 0.3, "layout": rng.choice(["interlaced", "flat"]),
                   "order": rng.choice(["C", "C", "F", "view"])}
    opts = {}
    if fmt == "h5" and rng.random() < 0.4:
        opts = rng.choice([{"complevel": 1}, {"complevel": 9}, {"compression_opts": 3}])
    return {"fmt": fmt, "nd": nd, "vers": vers, "flds": flds, "opts": opts,
            "how": rng.choice(["list", "pairs", "dict", "dict", "one", "grid"])}


def arrays(spec, tag, v):
    """{name: (center, array with components last)} of version v; tag makes targets differ"""
    ver = spec["vers"][v % len(spec["vers"])]
    out = OrderedDict()
    names = ver["names"][:1] if spec["how"] == "one" else ver["names"]
    for n in names:
        f = spec["flds"][n]
        shp = [d + (f["center"] == "node") for d in ver["dims"]] + ([3] if f["vec"] else [])
        out[n] = (f["center"], vals(tag, v, NAMES.index(n), int(np.prod(shp)), f["dtype"]).reshape(shp))
    return out


def vals(tag, v, n, size, dtype):
    if dtype in ("f4", "f8", "i4"):
        return formats.values(tag, v, v % 7, n % 13, size, dtype)
    a = formats.values(tag, v, v % 7, n % 13, size, "f8")
    if dtype == "?":
        return (np.floor(a) * 7 // 5) % 2 == 0
    if dtype == "c8":
        return (a + 1j * (a[::-1] + 1)).astype("c8")
    if dtype == "f2":
        return (a % 2001).astype("f2")
    if dtype == "i1":
        return (np.abs(a) % 251 - 125).astype("i1")
    if dtype == "u2":
        return (np.abs(a) % 65521).astype("u2")
    return (np.abs(a) if dtype[0] == "u" else a).astype(dtype)


def laid_out(a, order):
    """the same values in another memory layout"""
    if order == "F":
        return np.asfortranarray(a)
    if order == "view":
        big = np.zeros([2 * k for k in a.shape], dtype=a.dtype)
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return big[tuple(slice(None, None, 2) for _ in a.shape)]
    return a.copy()


def build(viscid, spec, tag, v):
    """the library's fields holding version v"""
    ver = spec["vers"][v % len(spec["vers"])]
    crds = [np.array(ver["nc"][k][:ver["dims"][k] + 1]) for k in range(spec["nd"])]
    crds = viscid.wrap_crds("nonuniform_cartesian", list(zip("xyz", crds)))
    out = OrderedDict()
    for n, (center, a) in arrays(spec, tag, v).items():
        f = spec["flds"][n]
        if f["vec"]:
            if f["layout"] == "flat":
                a = np.ascontiguousarray(np.moveaxis(a, -1, 0))
            out[n] = viscid.wrap_field(laid_out(a, f.get("order")), crds, name=n, center=center, fldtype="Vector",
                                       time=ver["time"])
        else:
            out[n] = viscid.wrap_field(laid_out(a, f.get("order")), crds, name=n, center=center, time=ver["time"])
    return out


def save(viscid, path, spec, flds):
    how = spec["how"]
    if how == "one":
        n, f = next(iter(flds.items()))
        return viscid.save_field(path, f, **spec["opts"])
    if how == "list":
        return viscid.save_fields(path, list(flds.values()), **spec["opts"])
    if how == "pairs":
        return viscid.save_fields(path, [[n, f] for n, f in flds.items()], **spec["opts"])
    if how == "grid":
        g = viscid.grid.Grid()
        f0 = next(iter(flds.values()))
        g.set_crds(f0.crds)
        g.time = f0.time
        for f in flds.values():
            g.add_field(f)
        return viscid.save_grid(path, g, **spec["opts"])
    return viscid.save_fields(path, flds, **spec["opts"])


def path_of(d, spec, stem):
    return os.path.join(d, stem + "." + spec["fmt"])


def index_of(path):
    return path[:-3] + ".xdmf" if path.endswith(".h5") else path


def target_files(path):
    return [path, index_of(path)] if path.endswith(".h5") else [path]


def comps_last(f):
    a = np.array(f.data)
    if a.dtype.byteorder == ">":
        a = a.astype(a.dtype.newbyteorder("="))
    if f.nr_comps and f.layout == "flat" and a.ndim > 1 and a.ndim == f.nr_sdims + 1:
        a = np.moveaxis(a, 0, -1)
    return a


def mismatch(f, spec, tag, v):
    """None, or what a loaded file shows that differs from version v"""
    want = arrays(spec, tag, v)
    ver = spec["vers"][v % len(spec["vers"])]
    g = f.get_grid()
    if spec["fmt"] == "h5" and g.time != ver["time"]:
        return "time is %r instead of %r" % (g.time, ver["time"])
    names = sorted(g.field_names)
    if names != sorted(want):
        return "fields %s instead of %s" % (names, sorted(want))
    for k, ax in enumerate("xyz"[:spec["nd"]]):
        c = np.array(g.get_crd_nc(ax))
        w = np.array(ver["nc"][k][:ver["dims"][k] + 1])
        if c.shape != w.shape or not np.array_equal(c, w):
            return "axis %s is %s instead of %s" % (ax, c, w)
    for n in sorted(want):
        center, w = want[n]
        x = g[n]
        a = comps_last(x)
        if a.dtype != w.dtype.newbyteorder("="):
            return "field %s has type %s instead of %s" % (n, a.dtype, w.dtype)
        if not formats.same_data(a, w):
            return "field %s: %s" % (n, formats.diff_text(a, w))
        if str(x.center).lower() != center:
            return "field %s is %s centred instead of %s" % (n, x.center, center)
        if x.name != n:
            return "field %s is called %s" % (n, x.name)
    return None

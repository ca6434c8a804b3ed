"""Synthetic simulation output in every format the library reads, with exact truth.

A "world" is one run of one format: parameters are plain JSON, `write(dir, p, v)` lays version v of it on disk with code that
shares nothing with the library, and `truth(p, v)` says what a reader has to show.  Every stored number is a different
integer for every (world, version, snapshot, field, index), so that any mix-up between them is visible in the values.
"""
import io
import os
import random
import struct

import h5py
import numpy as np


# ------------------------------------------------------------------ numbers
def values(w, v, t, f, n, dtype="f4"):
    base = ((((w % 8) * 5 + v % 5) * 7 + t % 7) * 13 + f % 13) * 1000 + 1
    a = base + np.arange(n)
    if dtype in ("f4", "f8"):
        a = a * np.where(np.arange(n) % 3 == 2, -1.0, 1.0)
    if dtype == "f8":
        a = a + (np.arange(n) % 5 + 1) * 2.0 ** -26        # is lost in single precision
    if dtype == "i4":
        a = a + (1 << 25) + np.arange(n) % 2               # so are odd numbers of this size
    return a.astype(dtype)


def axis_nodes(rng, n, uniform=False, ascending=True, fine=False):
    """n+1 node coordinates, exact in float32 unless fine"""
    if fine and not uniform:
        return [x + 2.0 ** -28 * (k % 3 + 1) for k, x in enumerate(axis_nodes(rng, n))]
    x0 = rng.randint(-40, 20)
    if uniform:
        d = rng.choice([0.25, 0.5, 1.0, 2.0])
        return [x0 + d * i for i in range(n + 1)]
    out = [float(x0)]
    for _ in range(n):
        out.append(out[-1] + rng.choice([0.25, 0.5, 0.75, 1.0, 1.5]))
    return out


def cc2nc(cc, dtype):
    """node coordinates that the fortran/athena readers derive from cell centres, same arithmetic"""
    cc = np.array(cc, dtype=dtype)
    nc = np.empty(len(cc) + 1, dtype=cc.dtype)
    hd = 0.5 * (cc[1:] - cc[:-1])
    nc[:] = np.hstack([cc[0] - hd[0], cc[:-1] + hd, cc[-1] + hd[-1]])
    return nc


FLIP_NAMES = set("bx by ex ey vx vy rv1x rv1y jx jy xjx xjy b1x b1y bx1 by1 b2x b2y bx2 by2 ex_cc ey_cc ex_ec ey_ec "
                 "eflx efly".split())


def flip_field(name, a):
    """mhd -> gse: axes x and y run backwards, and the x, y components change sign"""
    if a.ndim == 4:
        return a[::-1, ::-1] * np.array([-1, -1, 1], dtype=a.dtype)
    a = a[::-1, ::-1]
    return -a if name in FLIP_NAMES else a


def patch(crds, fields):
    return {"crds": [(n, np.asarray(c)) for n, c in crds], "fields": fields}


def fld(data, center):
    return {"data": np.ascontiguousarray(data), "center": center}


def one(time, crds, fields):
    return {"time": float(time), "patches": [patch(crds, fields)]}


def write_bytes(path, b):
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    if isinstance(b, str):
        b = b.encode()
    if os.path.isdir(path):
        os.rmdir(path)
    tmp = path + ".w"
    with open(tmp, "wb") as fo:
        fo.write(b)
    os.replace(tmp, path)


def h5_bytes(fill, **kw):
    """contents of an hdf5 file made in memory (no clock: h5py stores no times by default)"""
    bio = io.BytesIO()
    with h5py.File(bio, "w", **kw) as h:
        fill(h)
    return bio.getvalue()


def zyx(a):
    return np.ascontiguousarray(np.transpose(a[..., 0] if False else a, (2, 1, 0) if a.ndim == 3 else (2, 1, 0, 3)))


# ------------------------------------------------------------------ base
class Kind(object):
    name = None
    multi = False           # more than one snapshot in separate files
    textual = False         # text files: a truncation may leave a shorter valid text
    lossy = False
    lazy = True             # field data is read on access, not at load
    has_vec = False

    def gen(self, rng, w, nt=None):
        raise NotImplementedError

    def files(self, p, v):
        """{relative path: bytes} of version v"""
        raise NotImplementedError

    def truth(self, p, v):
        raise NotImplementedError

    def target(self, p, d, how="list"):
        """what is given to viscid.load_file / load_files"""
        raise NotImplementedError

    def kwargs(self, p):
        return {}

    def write(self, d, p, v):
        fs = self.files(p, v)
        for rel in sorted(fs):
            write_bytes(os.path.join(d, rel), fs[rel])
        return sorted(fs)

    def snapshot_of(self, p, rel):
        """index of the snapshot a file belongs to; None: all (index, grid, companion)"""
        return None

    def part_of(self, p, rel):
        """what can't be read without a file: (snapshot or None: all, names of fields or None: all, patch or None: all);
        None: nothing else needs it"""
        return self.snapshot_of(p, rel), None, None

    def dims(self, p, v):
        return p["vers"][v % len(p["vers"])]["dims"]


def gen_vers(rng, n, lo=2, hi=5, nd=3):
    """dims of n versions; often equal so that a stale offset or shape goes unnoticed by shape checks alone"""
    first = [rng.randint(lo, hi) for _ in range(nd)]
    out = []
    for i in range(n):
        out.append({"dims": list(first) if i == 0 or rng.random() < 0.6 else [rng.randint(lo, hi) for _ in range(nd)]})
    return out


def gen_times(rng, nt, integer=False, start=None):
    t = rng.choice([rng.randint(1, 40), rng.randint(1, 40), 0]) if start is None else start
    out = []
    if not integer and rng.random() < 0.15:
        # late in a run with frequent output: times that differ by little of themselves
        t = rng.choice([36000, 90000, 1000000])
        for _ in range(nt):
            out.append(t + rng.choice([0.0, 0.0625, 0.125]))
            t += rng.choice([0.25, 0.5, 1])
        return out
    for _ in range(nt):
        out.append(t if integer else t + rng.choice([0.0, 0.25, 0.5]))
        t += rng.randint(1, 30)
    return out


# ------------------------------------------------------------------ xdmf pieces
def xdmf_grid(name, crdtags, attrs, topo="3DRectMesh", dims=None, geo="VXVYVZ", info=()):
    s = '<Grid Name="%s" GridType="Uniform">\n' % name
    for k, val in info:
        s += '<Information Name="%s" Value="%s" />\n' % (k, val)
    s += '<Topology TopologyType="%s" Dimensions="%s"/>\n' % (topo, " ".join(str(x) for x in dims))
    s += '<Geometry GeometryType="%s">\n%s</Geometry>\n' % (geo, crdtags)
    s += attrs
    s += '</Grid>\n'
    return s


def di_xml(name, a):
    return '<DataItem Name="%s" DataType="Float" Dimensions="%d" Format="XML" Precision="8">%s</DataItem>\n' % (
        name, len(a), " ".join(repr(float(x)) for x in a))


def di_hdf(name, n, ref, prec=8):
    return '<DataItem Name="%s" DataType="Float" Dimensions="%d" Format="HDF" Precision="%d">%s</DataItem>\n' % (
        name, n, prec, ref)


def attr_hdf(name, center, shape, ref, prec, num="Float", vec=False, info=""):
    return ('<Attribute Name="%s" AttributeType="%s" Center="%s">\n%s<DataItem Dimensions="%s" NumberType="%s" '
            'Precision="%d" Format="HDF">%s</DataItem>\n</Attribute>\n' %
            (name, "Vector" if vec else "Scalar", center, info, " ".join(str(x) for x in shape), num, prec, ref))


def attr_xml(name, center, a, prec, num="Float", vec=False):
    """a field whose values are written into the index itself"""
    val = (lambda x: repr(int(x))) if num == "Int" else (lambda x: repr(float(x)))
    return ('<Attribute Name="%s" AttributeType="%s" Center="%s">\n<DataItem Dimensions="%s" NumberType="%s" '
            'Precision="%d" Format="XML">%s</DataItem>\n</Attribute>\n' %
            (name, "Vector" if vec else "Scalar", center, " ".join(str(x) for x in a.shape), num, prec,
             " ".join(val(x) for x in a.ravel())))


def xdmf_wrap(body):
    return ("<?xml version='1.0' ?>\n<Xdmf xmlns:xi='http://www.w3.org/2001/XInclude' Version='2.0'>\n<Domain>\n%s"
            "</Domain>\n</Xdmf>\n" % body)


XF = [("fa", "cell", "f4", False), ("fb", "node", "f8", False), ("fc", "cell", "f8", False), ("vv", "cell", "f4", True),
      ("vn", "node", "f8", True), ("ic", "cell", "i4", False)]


class XdmfBase(Kind):
    """shared: snapshots of rectilinear grids with fields in one h5 file each"""
    has_vec = True
    fldset = XF

    def field_list(self, p):
        return [self.fldset[i] for i in p["flds"]]

    def gen_fields(self, rng):
        n = rng.randint(2, min(4, len(self.fldset)))
        return sorted(rng.sample(range(len(self.fldset)), n))

    def snap_arrays(self, p, v, t, ip=0):
        dims = self.dims(p, v)
        out = {}
        for i, (name, center, dt, vec) in enumerate(self.field_list(p)):
            shp = [d + (1 if center == "node" else 0) for d in dims] + ([3] if vec else [])
            n = int(np.prod(shp))
            out[name] = fld(values(p["w"], v, t, i + 6 * ip, n, dt).reshape(shp), center)
        return out

    def nodes(self, p, v, ip=0):
        ver = p["vers"][v % len(p["vers"])]
        dims = ver["dims"]
        return [np.array(ver["nc"][k][: dims[k] + 1]) for k in range(3)]

    def h5_of(self, p, v, t, crds_in_h5=True):
        arrs = self.snap_arrays(p, v, t)
        nc = self.nodes(p, v)
        opts = p.get("h5", {})

        def fill(h):
            if crds_in_h5:
                for ax, c in zip("xyz", nc):
                    h["crd/" + ax] = c
            for name in arrs:
                a = zyx(arrs[name]["data"])
                if opts.get("gzip"):
                    h.create_dataset("flds/%s/3d" % name, data=a, compression="gzip", compression_opts=1)
                elif opts.get("chunk"):
                    h.create_dataset("flds/%s/3d" % name, data=a, chunks=tuple(max(1, x // 2) for x in a.shape))
                else:
                    h["flds/%s/3d" % name] = a
            if p.get("time_str"):
                h.create_group("openggcm").attrs["time_str"] = np.string_(p["time_str"])
        return h5_bytes(fill)

    def grid_xml(self, p, v, t, h5name, gname="g"):
        nc = self.nodes(p, v)
        dims = self.dims(p, v)
        if p.get("crds") == "h5":
            tags = "".join(di_hdf("V" + ax.upper(), len(c), "%s:/crd/%s" % (h5name, ax)) for ax, c in zip("xyz", nc))
            geo, topo = "VXVYVZ", "3DRectMesh"
        elif p.get("crds") == "co":
            o = [c[0] for c in nc][::-1]
            d = [c[1] - c[0] for c in nc][::-1]
            tags = "".join('<DataItem Name="%s" Dimensions="3" Format="XML" Precision="8">%s</DataItem>\n' %
                           (k, " ".join(repr(float(x)) for x in arr)) for k, arr in (("O", o), ("D", d)))
            geo, topo = "Origin_DxDyDz", "3DCoRectMesh"
        else:
            tags = "".join(di_xml("V" + ax.upper(), c) for ax, c in zip("xyz", nc))
            geo, topo = "VXVYVZ", "3DRectMesh"
        if geo == "VXVYVZ" and p.get("geo"):
            # the other way of writing the same, axes named, in any order
            tags = tags.replace('Name="V', 'Name="').split("\n")
            tags = "\n".join(tags[:3][::-1] if p["geo"] == 2 else tags[:3]) + "\n"
            geo = "X_Y_Z"
        attrs = ""
        for i, (name, center, dt, vec) in enumerate(self.field_list(p)):
            shp = [d + (1 if center == "node" else 0) for d in dims][::-1] + ([3] if vec else [])
            if i == p.get("inl"):
                attrs += attr_xml(name, center.title(), zyx(self.snap_arrays(p, v, t)[name]["data"]), int(dt[1]),
                                  "Int" if dt[0] == "i" else "Float", vec)
                continue
            attrs += attr_hdf(name, center.title(), shp, "%s:/flds/%s/3d" % (h5name, name), int(dt[1]),
                              "Int" if dt[0] == "i" else "Float", vec,
                              '<Information Name="unit" Value="%s" />\n' % self.note(p, v, t, name) if p.get("notes") else "")
        return xdmf_grid(gname, tags, attrs, topo, [d + 1 for d in dims][::-1], geo,
                         [("note", self.note(p, v, t))] if p.get("notes") else ())

    def note(self, p, v, t, name="grid"):
        """what is said about a grid or a field of it"""
        return "%s-%d-%d-%d" % (name, p["w"], v, t)

    def gen_common(self, rng, w, nt, nvers=3):
        vers = gen_vers(rng, nvers)
        crds = rng.choice(["h5", "xml", "co"])
        for ver in vers:
            if ver["dims"] in ([2, 2, 2], [3, 3, 3]):
                ver["dims"][2] += 2         # known finding KF1: three vectors components on 3x3x3 points are ambiguous
            ver["nc"] = [axis_nodes(rng, 5, uniform=(crds == "co"), fine=True) for _ in range(3)]
        p = {"kind": self.name, "w": w, "run": rng.choice(["ra", "rb", "zz", "run1"]) + str(w), "vers": vers,
             "flds": self.gen_fields(rng), "crds": crds, "h5": rng.choice([{}, {}, {"gzip": 1}, {"chunk": 1}])}
        for ver in vers:
            ver["times"] = gen_times(rng, nt)
        p["inl"] = rng.choice([None] * 5 + [0, 1])
        p["geo"], p["notes"] = rng.choice([0, 0, 1, 2]), rng.random() < 0.4
        return p

    def times(self, p, v):
        return p["vers"][v % len(p["vers"])]["times"]

    def truth(self, p, v):
        out = [one(t, list(zip("xyz", self.nodes(p, v))), self.snap_arrays(p, v, i)) for i, t in enumerate(self.times(p, v))]
        for i, s in enumerate(out):
            if p.get("notes"):
                s["patches"][0]["note"] = self.note(p, v, i)
                for k, (n, _, _, _) in enumerate(self.field_list(p)):
                    if k != p.get("inl"):
                        s["patches"][0]["fields"][n]["note"] = self.note(p, v, i, n)
        return out


class XdmfSingle(XdmfBase):
    """one uniform grid"""
    name = "xdmf"

    def gen(self, rng, w, nt=None):
        p = self.gen_common(rng, w, 1)
        p["style"] = rng.choice(["plain", "spatial"])
        return p

    def files(self, p, v):
        h5 = "%s_p0.h5" % p["run"]
        t = self.times(p, v)[0]
        g = self.grid_xml(p, v, 0, h5)
        tm = '<Time Type="Single" Value="%r" />\n' % t
        if p["style"] == "spatial":
            body = '<Grid GridType="Collection" CollectionType="Spatial">\n%s%s</Grid>\n' % (tm, g)
        else:
            body = g.replace('GridType="Uniform">\n', 'GridType="Uniform">\n' + tm, 1)
        return {p["run"] + ".xdmf": xdmf_wrap(body), h5: self.h5_of(p, v, 0)}

    def target(self, p, d, how="list"):
        return os.path.join(d, p["run"] + ".xdmf")


class XdmfTemporal(XdmfBase):
    """a temporal collection in one index file, one h5 file per snapshot"""
    name = "xdmft"

    def gen(self, rng, w, nt=None):
        p = self.gen_common(rng, w, nt or rng.randint(2, 4))
        p["tstyle"] = rng.choice(["single", "single", "list", "slab"])
        if p["tstyle"] == "slab":
            for ver in p["vers"]:
                dt = rng.choice([0.5, 1.0, 2.25])
                ver["times"] = [ver["times"][0] + i * dt for i in range(len(ver["times"]))]
        return p

    def h5name(self, p, i):
        return "%s_%03d.h5" % (p["run"], i)

    def files(self, p, v):
        body = '<Grid Name="tc" GridType="Collection" CollectionType="Temporal">\n'
        out = {}
        ts = self.times(p, v)
        style = p.get("tstyle", "single")
        if style == "list":
            body += '<Time Type="List">\n%s</Time>\n' % di_xml("times", ts)
        elif style == "slab":
            body += '<Time Type="HyperSlab">\n%s</Time>\n' % di_xml("times", [ts[0], (ts[1] - ts[0]) if len(ts) > 1 else 1.0, len(ts)])
        for i, t in enumerate(ts):
            body += '<Grid Name="s%d" GridType="Collection" CollectionType="Spatial">\n' % i
            if style == "single":
                body += '<Time Type="Single" Value="%r" />\n' % t
            body += self.grid_xml(p, v, i, self.h5name(p, i), "g%d" % i) + "</Grid>\n"
            out[self.h5name(p, i)] = self.h5_of(p, v, i)
        out[p["run"] + ".xdmf"] = xdmf_wrap(body + "</Grid>\n")
        return out

    def target(self, p, d, how="list"):
        return os.path.join(d, p["run"] + ".xdmf")

    def snapshot_of(self, p, rel):
        return int(rel[:-3].rsplit("_", 1)[1]) if rel.endswith(".h5") else None


class XdmfSplit(XdmfTemporal):
    """an index file, each field of each snapshot in an h5 file of its own"""
    name = "xdmfs"

    def gen(self, rng, w, nt=None):
        p = self.gen_common(rng, w, nt or rng.randint(1, 3))
        p["inl"] = None
        if p["crds"] == "h5":
            p["crds"] = "xml"
        p["tstyle"] = "single"
        return p

    def fieldname(self, p, i, name):
        return "%s_%03d_%s.h5" % (p["run"], i, name)

    def files(self, p, v):
        out = {}
        body = '<Grid Name="tc" GridType="Collection" CollectionType="Temporal">\n'
        for i, t in enumerate(self.times(p, v)):
            g = self.grid_xml(p, v, i, "H5FILE", "g%d" % i)
            for name in self.snap_arrays(p, v, i):
                g = g.replace("H5FILE:/flds/%s/3d" % name, self.fieldname(p, i, name) + ":/d")
            body += '<Grid Name="s%d" GridType="Collection" CollectionType="Spatial">\n<Time Type="Single" Value="%r" />\n%s</Grid>\n' % (
                i, t, g)
            for name, x in self.snap_arrays(p, v, i).items():
                def fill(h, a=zyx(x["data"])):
                    h["d"] = a
                out[self.fieldname(p, i, name)] = h5_bytes(fill)
        out[p["run"] + ".xdmf"] = xdmf_wrap(body + "</Grid>\n")
        return out

    def snapshot_of(self, p, rel):
        return int(rel[len(p["run"]) + 1:][:3]) if rel.endswith(".h5") else None

    def part_of(self, p, rel):
        return (self.snapshot_of(p, rel), [rel[len(p["run"]) + 5:-3]], None) if rel.endswith(".h5") else (None, None, None)


class XdmfAMR(XdmfBase):
    """two or four patches side by side, one or several snapshots"""
    name = "amr"
    has_vec = False
    fldset = [("fa", "cell", "f4", False), ("fc", "cell", "f8", False), ("fd", "cell", "f8", False)]

    def gen(self, rng, w, nt=None):
        p = self.gen_common(rng, w, nt or rng.randint(1, 3))
        p["np"] = rng.choice([2, 2, 4])
        p["flds"] = [0, 1]
        p["crds"] = "xml"
        same = rng.random() < 0.5
        for ver in p["vers"]:
            ver["nc"] = [axis_nodes(rng, 5, True) for _ in range(3)]
            ver["dims"] = [rng.choice([2, 4]) for _ in range(3)]
            if same:
                ver["nc"], ver["dims"] = [list(c) for c in p["vers"][0]["nc"]], list(p["vers"][0]["dims"])
            # snapshots differ in the order of their patches and how far the outer ones reach
            ver["lay"] = [[rng.choice([0, 0, 1]), rng.choice([0, 0, 1]), rng.choice([0, 0, 1]), rng.choice([0, 0, 1])]
                          for _ in range(3)]
        return p

    def nodes(self, p, v, ip=0, i=0):
        nc = XdmfBase.nodes(self, p, v)
        L = [c[-1] - c[0] for c in nc]
        lay = p["vers"][v % len(p["vers"])]["lay"]
        turn, sx, sy, sz = lay[i % len(lay)]
        k = (ip + turn) % p["np"]
        at = [k % 2, k // 2, 0]
        outer = [at[0] == 1, at[1] == (p["np"] - 1) // 2, True]
        return [(c - c[0]) * (2.0 if s and o else 1.0) + c[0] + a * l
                for c, s, o, a, l in zip(nc, (sx, sy, sz), outer, at, L)]

    def truth(self, p, v):
        out = []
        for i, t in enumerate(self.times(p, v)):
            out.append({"time": float(t), "patches": [
                patch(list(zip("xyz", self.nodes(p, v, k, i))), self.snap_arrays(p, v, i, k)) for k in range(p["np"])]})
        return out

    def files(self, p, v):
        out = {}
        body = '<Grid Name="tc" GridType="Collection" CollectionType="Temporal">\n'
        dims = self.dims(p, v)
        for i, t in enumerate(self.times(p, v)):
            body += '<Grid GridType="Collection" CollectionType="Spatial">\n<Time Type="Single" Value="%r" />\n' % t
            h5 = "%s_%03d.h5" % (p["run"], i)
            blobs = {}
            for k in range(p["np"]):
                nc = self.nodes(p, v, k, i)
                tags = "".join(di_xml("V" + ax.upper(), c) for ax, c in zip("xyz", nc))
                attrs = ""
                arrs = self.snap_arrays(p, v, i, k)
                for name, center, dt, vec in self.field_list(p):
                    attrs += attr_hdf(name, center.title(), dims[::-1], "%s:/p%d/%s" % (h5, k, name), int(dt[1]))
                    blobs["p%d/%s" % (k, name)] = zyx(arrs[name]["data"])
                body += xdmf_grid("g%d-%d" % (i, k), tags, attrs, "3DRectMesh", [d + 1 for d in dims][::-1])
            body += "</Grid>\n"

            def fill(h):
                for k in sorted(blobs):
                    h[k] = blobs[k]
            out[h5] = h5_bytes(fill)
        out[p["run"] + ".xdmf"] = xdmf_wrap(body + "</Grid>\n")
        return out

    def target(self, p, d, how="list"):
        return os.path.join(d, p["run"] + ".xdmf")

    def snapshot_of(self, p, rel):
        return int(rel[:-3].rsplit("_", 1)[1]) if rel.endswith(".h5") else None


# ------------------------------------------------------------------ OpenGGCM
GGCM_F = [("rr", "cell", "f4", False), ("pp", "cell", "f4", False), ("vx", "cell", "f4", False),
          ("vy", "cell", "f4", False), ("vz", "cell", "f4", False), ("bx", "cell", "f4", False),
          ("by", "cell", "f4", False), ("bz", "cell", "f4", False), ("q", "cell", "f4", True), ("qn", "node", "f8", True)]


def log_values(p, v):
    """what the log file of a world says"""
    rnd = random.Random("log-%s-%d-%d" % (p["run"], p["w"], v))
    mhd = p["log"] == "mhd"
    near, far, y, z = rnd.randrange(15, 25), rnd.randrange(60, 90), rnd.choice([12, 24.5]), rnd.choice([12, 36, 7.25])
    out = {"dipoltime": "19%02d:%02d:%02d:%02d:00:00.000" % (rnd.randrange(67, 99), rnd.randrange(1, 13), rnd.randrange(1, 28), rnd.randrange(24)),
           "l": [-near + rnd.choice([0, 0.5]), -y, -z] if mhd else [-far + rnd.choice([0, 0.25]), -y, -z],
           "h": [far, y, z] if mhd else [near, y, z],
           "gamma": rnd.choice([1.66667, 1.4, 2]), "bbnorm": rnd.choice([30574, 1, 30574.5, rnd.randrange(2, 99999)]),
           "currcor": rnd.randrange(0, 9), "ic": rnd.choice(["mirdip_float", "mirdip_double"]), "mhd_type": rnd.randrange(6)}
    return out


MHD_TYPES = ["MT_PRIMITIVE", "MT_SEMI_CONSERVATIVE_GGCM", "MT_SEMI_CONSERVATIVE", "MT_FULLY_CONSERVATIVE",
             "MT_FULLY_CONSERVATIVE_CC", "MT_GKEYLL"]


def log_truth(p, v):
    """the same as a program sees it"""
    d = log_values(p, v)
    t = d["dipoltime"].split(":")
    return {"dipoletime": "-".join(t[:3]) + "T" + ":".join(t[3:]), "gamma": d["gamma"], "bbnorm": d["bbnorm"],
            "currcor": d["currcor"], "l": d["l"], "h": d["h"], "type": "ggcm", "ic": d["ic"], "mhd_type": MHD_TYPES[d["mhd_type"]],
            "crds_type": "rectilinear"}


def ggcm_log(p, v):
    """beginning of a libmrc log file; mhd: box from which the reader concludes that axes have to be flipped"""
    d = log_values(p, v)
    dash = "--------------------+-------------------------------- type -- "
    hdr = "parameter           | value\n--------------------+----------------------------------------\n"
    cls = "==================================================== class == "
    s = "some start up text\n"
    s += cls + "ggcm_dipole\n" + hdr + "dipoltime           | %s\n" % d["dipoltime"] + dash + "fortran\n\n"
    s += cls + "ggcm_diag\n" + hdr + "gamma               | 17\nrun                 | nobody\n" + dash + "c\n\n"
    s += cls + "mrc_crds\n" + hdr + "l                   | %s\nh                   | %s\n" % tuple(
        ", ".join("%g" % x for x in d[k]) for k in "lh") + dash + "rectilinear\n\n"
    s += cls + "ggcm_mhd\n" + hdr + "gamma               | %s\nbbnorm              | %s\n" % (d["gamma"], d["bbnorm"]) + dash + "ggcm\n\n"
    s += cls + "ggcm_mhd_ic\n" + hdr + "currcor             | %d\n" % d["currcor"] + dash + d["ic"] + "\n\n"
    s += cls + "ggcm_mhd_fld\n" + hdr + "mhd_type            | %d\n" % d["mhd_type"] + dash + "float\n\n"
    s += " cp=  0  step=1\nlater text that is not read | 1\n"
    s += cls + "ggcm_mhd\n" + hdr + "gamma               | 99\n" + dash + "ggcm\n\n"
    return s


class GgcmXdmf(XdmfBase):
    """run.3d.NNNNNN.xdmf + _p000000.h5, a log file, optionally the index run.3d.xdmf"""
    name = "ggcm"
    multi = True
    fldset = GGCM_F
    has_vec = False

    def gen(self, rng, w, nt=None):
        nt = nt or rng.randint(1, 4)
        p = self.gen_common(rng, w, nt)
        p["flds"] = sorted(rng.sample(range(8), rng.randint(2, 4)))
        if rng.random() < 0.3:
            p["flds"] = [0, 2, 3, 4]
        p["crds"] = rng.choice(["h5", "h5", "xml"])
        p["log"] = rng.choice(["mhd", "mhd", "gse", "none"])
        p["index"] = rng.random() < 0.4
        p["assume"] = rng.random() < 0.2
        p["ft"] = rng.choice(["3d", "3df", "3d", "3d", "3d", "py_0", "topo"])
        if p["ft"] in ("3d", "3df") and rng.random() < 0.25:
            p["flds"] = p["flds"][:3] + [rng.choice([8, 8, 9])]
        if rng.random() < 0.7:
            p["time_str"] = "time= 10 8.2e7 2008:06:11:00:00:10.000 300c"
        steps = gen_times(rng, nt, True, rng.randint(1, 20) * 5)
        for ver in p["vers"]:
            ver["times"] = [s + rng.choice([0.0, 0.03, 0.25]) for s in steps]
        p["steps"] = steps
        return p

    def flips(self, p):
        return (p["log"] == "mhd" or bool(p["assume"])) and not self.unflippable(p)

    def unflippable(self, p):
        """files that hold no MHD quantities: their axes are never changed"""
        return p["ft"] in ("topo", "iof")

    def stem(self, p, i):
        return "%s.%s.%06d" % (p["run"], p["ft"], p["steps"][i])

    def files(self, p, v):
        out = {}
        for i, t in enumerate(self.times(p, v)):
            h5 = self.stem(p, i) + "_p000000.h5"
            body = ('<Grid GridType="Collection" CollectionType="Spatial">\n<Time Type="Single" Value="%r" />\n%s</Grid>\n'
                    % (t, self.grid_xml(p, v, i, ".//" + h5, "mesh")))
            out[self.stem(p, i) + ".xdmf"] = xdmf_wrap(body)
            out[h5] = self.h5_of(p, v, i)
        if p["log"] != "none":
            out[p["run"] + ".log"] = ggcm_log(p, v)
        if p["index"]:
            inc = "".join("<xi:include href='.//%s.xdmf' xpointer='xpointer(//Xdmf/Domain/Grid)'/>\n" % self.stem(p, i)
                          for i in range(len(p["steps"])))
            out["%s.%s.xdmf" % (p["run"], p["ft"])] = xdmf_wrap(
                "<Grid GridType='Collection' CollectionType='Temporal'>\n%s</Grid>\n" % inc)
        return out

    def truth(self, p, v):
        out = XdmfBase.truth(self, p, v)
        if self.flips(p):
            for s in out:
                pa = s["patches"][0]
                pa["crds"] = [(n, -c[::-1] if n in "xy" else c) for n, c in pa["crds"]]
                for name in pa["fields"]:
                    pa["fields"][name] = fld(flip_field(name, pa["fields"][name]["data"]), pa["fields"][name]["center"])
        return out

    def target(self, p, d, how="list"):
        if p["index"] and how != "parts":
            return os.path.join(d, "%s.%s.xdmf" % (p["run"], p["ft"]))
        names = [os.path.join(d, self.stem(p, i) + ".xdmf") for i in range(len(p["steps"]))]
        if len(names) == 1:
            return names[0]
        if how == "glob":
            return os.path.join(d, "%s.%s.*.xdmf" % (p["run"], p["ft"]))
        return names

    def kwargs(self, p):
        return {"assume_mhd_crds": True} if p["assume"] else {}

    def snapshot_of(self, p, rel):
        for i in range(len(p["steps"])):
            if rel.startswith(self.stem(p, i)):
                return i
        return None


class GgcmIof(GgcmXdmf):
    """ionosphere files on a sphere"""
    name = "iof"

    def gen(self, rng, w, nt=None):
        p = GgcmXdmf.gen(self, rng, w, nt)
        p["ft"] = "iof"
        p["log"] = rng.choice(["mhd", "none"])
        p["assume"] = False
        p["flds"] = [0, 1]
        for ver in p["vers"]:
            ver["dims"] = [rng.randint(3, 7), rng.randint(3, 6)]      # nphi, ntheta (nodes)
        return p

    names = ["pot", "fac"]

    def snap_arrays(self, p, v, t, ip=0):
        nphi, nth = self.dims(p, v)
        return {n: fld(values(p["w"], v, t, i, nphi * nth, "f4").reshape(nphi, nth), "node")
                for i, n in enumerate(self.names)}

    def nodes(self, p, v, ip=0):
        nphi, nth = self.dims(p, v)
        return [np.linspace(0.0, 360.0, nphi), np.linspace(0.0, 180.0, nth)]

    def truth(self, p, v):
        return [one(t, list(zip(["phi", "theta"], self.nodes(p, v))), self.snap_arrays(p, v, i))
                for i, t in enumerate(self.times(p, v))]

    def h5_of(self, p, v, t, crds_in_h5=True):
        arrs = self.snap_arrays(p, v, t)
        nphi, nth = self.dims(p, v)

        def fill(h):
            h["crd/xyz"] = np.zeros((nphi * nth * 3,), "f4")
            for n in arrs:
                h["flds/%s/3d" % n] = np.ascontiguousarray(arrs[n]["data"].T)
            if p.get("time_str"):
                h.create_group("openggcm").attrs["time_str"] = np.string_(p["time_str"])
        return h5_bytes(fill)

    def grid_xml(self, p, v, t, h5name, gname="g"):
        nphi, nth = self.dims(p, v)
        tags = di_hdf("XYZ", nphi * nth * 3, "%s:/crd/xyz" % h5name, 4)
        attrs = "".join(attr_hdf(n, "Node", [nth, nphi], "%s:/flds/%s/3d" % (h5name, n), 4) for n in self.names)
        return xdmf_grid(gname, tags, attrs, "2DSMesh", [nth, nphi], "XYZ")


class AthXdmf(XdmfBase):
    name = "athx"
    multi = True
    fldset = [("d", "cell", "f8", False), ("M1", "cell", "f8", False), ("M2", "cell", "f8", False),
              ("P", "cell", "f4", False)]
    has_vec = False

    def gen(self, rng, w, nt=None):
        nt = nt or rng.randint(1, 4)
        p = self.gen_common(rng, w, nt)
        p["steps"] = gen_times(rng, nt, True, rng.randint(0, 9))
        return p

    def stem(self, p, i):
        return "%s.%04d" % (p["run"], p["steps"][i])

    def files(self, p, v):
        out = {}
        for i, t in enumerate(self.times(p, v)):
            h5 = self.stem(p, i) + ".ath.h5"
            g = self.grid_xml(p, v, i, h5)
            out[self.stem(p, i) + ".ath.xdmf"] = xdmf_wrap(
                '<Grid GridType="Collection" CollectionType="Spatial">\n<Time Type="Single" Value="%r" />\n%s</Grid>\n' % (t, g))
            out[h5] = self.h5_of(p, v, i)
        return out

    def target(self, p, d, how="list"):
        names = [os.path.join(d, self.stem(p, i) + ".ath.xdmf") for i in range(len(p["steps"]))]
        if len(names) == 1:
            return names[0]
        return os.path.join(d, p["run"] + ".*.ath.xdmf") if how == "glob" else names

    def snapshot_of(self, p, rel):
        return [i for i in range(len(p["steps"])) if rel.startswith(self.stem(p, i))][0]


class Psc(XdmfBase):
    name = "psc"
    fldset = [("hx", "cell", "f4", False), ("hy", "cell", "f4", False), ("hz", "cell", "f4", False),
              ("jx", "cell", "f4", False), ("ne", "cell", "f8", False)]
    has_vec = False

    def gen(self, rng, w, nt=None):
        p = self.gen_common(rng, w, 1)
        p["run"] = "p" + str(w)
        p["steps"] = gen_times(rng, 1, True)
        return p

    def files(self, p, v):
        stem = "%sfd.%06d" % (p["run"], p["steps"][0])
        t = self.times(p, v)[0]
        g = self.grid_xml(p, v, 0, stem + "_p000000.h5")
        return {stem + ".xdmf": xdmf_wrap('<Grid GridType="Collection" CollectionType="Spatial">\n'
                                          '<Time Type="Single" Value="%r" />\n%s</Grid>\n' % (t, g)),
                stem + "_p000000.h5": self.h5_of(p, v, 0)}

    def target(self, p, d, how="list"):
        return os.path.join(d, "%sfd.%06d.xdmf" % (p["run"], p["steps"][0]))


# ------------------------------------------------------------------ OpenGGCM fortran formats
class GgcmFort(Kind):
    multi = True
    flds = ["rr", "pp", "vx", "vy", "vz", "bx", "by", "bz"]

    def gen(self, rng, w, nt=None):
        nt = nt or rng.randint(1, 4)
        vers = gen_vers(rng, 3, 2, 6)
        for ver in vers:
            ver["cc"] = []
            for k in range(3):
                nd = axis_nodes(rng, 7)
                ver["cc"].append(nd[:ver["dims"][k]])
        steps = gen_times(rng, nt, True, rng.randint(1, 20) * 5)
        p = {"kind": self.name, "w": w, "run": rng.choice(["fr", "run", "q"]) + str(w), "vers": vers, "steps": steps,
             "nf": rng.randint(1, 4), "f0": rng.choice([0, 0, 1, 2, 3, 5]), "log": rng.choice(["mhd", "none", "none"]),
             "assume": rng.random() < 0.7, "sect": "3df"}
        r = rng.random()
        if r < 0.2:         # a plane: 2d records, the place of the plane is in the name
            ax = rng.choice([0, 1, 2, 2] if self.flips(p) else [2])
            at = rng.choice(vers[0]["cc"][ax])
            for ver in vers:
                ver["dims"][ax] = 1
            p["sect"] = "p%s_%d" % ("xyz"[ax], abs(int(round(10 * at))))
        elif r < 0.3:       # the ionosphere
            p["sect"] = "iof"
            for ver in vers:
                ver["dims"] = [rng.randint(3, 7), rng.randint(3, 6)]
        return p

    def names(self, p):
        return self.flds[p["f0"]:p["f0"] + p["nf"]]

    def times(self, p, v):
        return [float(s) for s in p["steps"]]

    def grid2(self, p, v):
        s = ""
        ver = p["vers"][v % len(p["vers"])]
        for k in range(3):
            cc = self.centres(p, ver, k)
            s += "%d\n" % len(cc) + "".join("%14.6f\n" % x for x in cc)
        return s

    def plane(self, p):
        """axis across a plane, and where it is, in the coordinates of the grid file"""
        if not p["sect"].startswith("p"):
            return None, None
        ax = "xyz".index(p["sect"][1])
        return ax, float(p["sect"][3:]) / 10 * (-1 if ax < 2 else 1)

    def centres(self, p, ver, k):
        return ver["cc"][k] if self.plane(p)[0] == k else ver["cc"][k][:ver["dims"][k]]

    def record_dims(self, p, v):
        ax = self.plane(p)[0]
        return [d for k, d in enumerate(self.dims(p, v)) if k != ax]

    def timestr(self, s):
        return "time= %d 8.2e7 2008:06:11:%02d:%02d:%02d.000 300c" % (s, s // 3600, s // 60 % 60, s % 60)

    def flips(self, p):
        return (bool(p["assume"]) or p["log"] == "mhd") and not self.unflippable(p)

    def unflippable(self, p):
        return p["sect"] == "iof"

    def kwargs(self, p):
        return {"assume_mhd_crds": bool(p["assume"])}

    def raw(self, p, v, i):
        dims = self.record_dims(p, v)
        n = int(np.prod(dims))
        return {name: values(p["w"], v, i, k, n, "f4").reshape(dims, order="F") for k, name in enumerate(self.names(p))}

    def truth(self, p, v):
        ver = p["vers"][v % len(p["vers"])]
        out = []
        if p["sect"] == "iof":
            crds = list(zip(["phi", "theta"], [np.linspace(0.0, 360.0, ver["dims"][0]), np.linspace(0.0, 180.0, ver["dims"][1])]))
            for i, t in enumerate(self.times(p, v)):
                raw = self.decoded(p, v, i)
                out.append(one(t, crds, {n: fld(raw[n], "node") for n in raw}))
            return out
        nc = [cc2nc(self.centres(p, ver, k), "f4") for k in range(3)]
        ax, at = self.plane(p)
        if ax is not None:
            i = int(np.argmin(np.abs(np.array(self.centres(p, ver, ax), "f4") - at)))
            nc[ax] = nc[ax][i:i + 2]
        for i, t in enumerate(self.times(p, v)):
            raw = self.decoded(p, v, i)
            raw = {n: raw[n].reshape(self.dims(p, v)) for n in raw}
            if self.flips(p):
                flds = {n: fld(flip_field(n, raw[n]), "cell") for n in raw}
                crds = [("x", -nc[0][::-1]), ("y", -nc[1][::-1]), ("z", nc[2])]
            else:
                flds = {n: fld(raw[n], "cell") for n in raw}
                crds = list(zip("xyz", nc))
            out.append(one(t, crds, flds))
        return out

    def decoded(self, p, v, i):
        return self.raw(p, v, i)

    def common_files(self, p, v):
        out = {} if p["sect"] == "iof" else {p["run"] + ".grid2": self.grid2(p, v)}
        if p["log"] != "none":
            out[p["run"] + ".log"] = ggcm_log(p, v)
        return out

    def fname(self, p, i):
        raise NotImplementedError

    def target(self, p, d, how="list"):
        names = [os.path.join(d, self.fname(p, i)) for i in range(len(p["steps"]))]
        if len(names) == 1:
            return names[0]
        return os.path.join(d, self.globname(p)) if how == "glob" else names

    def snapshot_of(self, p, rel):
        for i in range(len(p["steps"])):
            if rel == self.fname(p, i):
                return i
        return None


class Fortbin(GgcmFort):
    name = "fortbin"

    def fname(self, p, i):
        return "%s.%s.%06d.b" % (p["run"], p["sect"], p["steps"][i])

    def globname(self, p):
        return "%s.%s.*.b" % (p["run"], p["sect"])

    def files(self, p, v):
        out = self.common_files(p, v)
        end = "<" if p["w"] % 2 == 0 else ">"
        for i, s in enumerate(p["steps"]):
            b = b""
            raw = self.raw(p, v, i)
            for name in self.names(p):
                a = raw[name]
                b += struct.pack(end + "ii", 2, s) + struct.pack(end + "%di" % (a.ndim + 1), a.ndim, *a.shape)
                b += name.ljust(80).encode() + self.timestr(s).ljust(80).encode()
                b += a.astype(end + "f4").tobytes(order="F")
            out[self.fname(p, i)] = b
        return out


_jr_cache = {}


class Jrrle(GgcmFort):
    """run length encoded text, written by the library's own Fortran encoder; truth comes from the decoder below"""
    name = "jrrle"
    lossy = True
    textual = True

    def fname(self, p, i):
        return "%s.%s.%06d" % (p["run"], p["sect"], p["steps"][i])

    def globname(self, p):
        return "%s.%s.*" % (p["run"], p["sect"])

    def raw(self, p, v, i):
        dims = self.record_dims(p, v)
        n = int(np.prod(dims))
        out = {}
        for k, name in enumerate(self.names(p)):
            base = float(values(p["w"], v, i, k, 1, "f8")[0])
            a = base * (1.0 + np.arange(n) / 216.0) * np.where(np.arange(n) % 5 == 4, -1.0, 1.0)
            if p["w"] % 3 == 2 and k == 0:
                a[:] = base
            out[name] = a.astype("f4").reshape(dims, order="F")
        return out

    def encode(self, p, v, i):
        key = (repr(sorted(p.items(), key=str)), v, i)
        if key not in _jr_cache:
            import tempfile
            from sim import jrrle_codec
            s = p["steps"][i]
            blobs = b""
            raw = self.raw(p, v, i)
            for name in self.names(p):
                blobs += jrrle_codec.encode(raw[name], name, self.timestr(s), s)
            _jr_cache[key] = blobs
        return _jr_cache[key]

    def files(self, p, v):
        out = self.common_files(p, v)
        for i in range(len(p["steps"])):
            out[self.fname(p, i)] = self.encode(p, v, i)
        return out

    def decoded(self, p, v, i):
        from sim import jrrle_codec
        return jrrle_codec.decode(self.encode(p, v, i))


# ------------------------------------------------------------------ Athena
class AthBin(Kind):
    name = "athb"
    multi = True

    def gen(self, rng, w, nt=None):
        nt = nt or rng.randint(1, 4)
        vers = gen_vers(rng, 3, 2, 6)
        for ver in vers:
            ver["cc"] = [axis_nodes(rng, 7)[:ver["dims"][k]] for k in range(3)]
            ver["times"] = gen_times(rng, nt)
        return {"kind": self.name, "w": w, "run": rng.choice(["ath", "b"]) + str(w), "vers": vers,
                "steps": gen_times(rng, nt, True, rng.randint(0, 9)), "nvar": rng.choice([4, 5, 7, 8, 8]),
                "f4": rng.random() < 0.3, "var": rng.choice(["cons", "cons", "prim"])}

    def names(self, p):
        allf = ['d', 'M1', 'M2', 'M3', 'E', "B1", "B2", "B3"] if p["var"] == "cons" else \
            ['d', 'V1', 'V2', 'V3', 'P', "B1c", "B2c", "B3c"]
        n = allf[:4]
        if p["nvar"] in (5, 8):
            n.append(allf[4])
        if p["nvar"] in (7, 8):
            n.extend(allf[5:8])
        return n

    def dt(self, p):
        return "f4" if p["f4"] else "f8"

    def arrays(self, p, v, i):
        dims = self.dims(p, v)
        return {n: values(p["w"], v, i, k, int(np.prod(dims)), self.dt(p)).reshape(dims)
                for k, n in enumerate(self.names(p))}

    def fname(self, p, i):
        return "%s.%04d.bin" % (p["run"], p["steps"][i])

    def files(self, p, v):
        out = {}
        ver = p["vers"][v % len(p["vers"])]
        dt = self.dt(p)
        for i in range(len(p["steps"])):
            b = struct.pack("<i", -1) + struct.pack("<5i", *(ver["dims"] + [p["nvar"], 0])) + struct.pack("<2i", 0, 0)
            b += np.array([0.66, 0.0], "<" + dt).tobytes() + np.array([ver["times"][i], 0.1], "<" + dt).tobytes()
            for k in range(3):
                b += np.array(ver["cc"][k][:ver["dims"][k]], "<" + dt).tobytes()
            arrs = self.arrays(p, v, i)
            for n in self.names(p):
                b += arrs[n].transpose(2, 1, 0).astype("<" + dt).tobytes()
            out[self.fname(p, i)] = b
        return out

    def truth(self, p, v):
        ver = p["vers"][v % len(p["vers"])]
        nc = [cc2nc(ver["cc"][k][:ver["dims"][k]], self.dt(p)) for k in range(3)]
        return [one(ver["times"][i], list(zip("xyz", nc)), {n: fld(a, "cell") for n, a in self.arrays(p, v, i).items()})
                for i in range(len(p["steps"]))]

    def kwargs(self, p):
        k = {"var_type": p["var"]}
        if p["f4"]:
            k["float_type_name"] = "f4"
        return k

    def target(self, p, d, how="list"):
        names = [os.path.join(d, self.fname(p, i)) for i in range(len(p["steps"]))]
        if len(names) == 1:
            return names[0]
        return os.path.join(d, p["run"] + ".*.bin") if how == "glob" else names

    def snapshot_of(self, p, rel):
        return [i for i in range(len(p["steps"])) if rel == self.fname(p, i)][0]


class AthTab(AthBin):
    name = "atht"
    textual = True

    def gen(self, rng, w, nt=None):
        p = AthBin.gen(self, rng, w, nt)
        p["run"] = rng.choice(["tab", "t"]) + str(w)
        p["f4"] = True
        p["var"] = "cons"
        p["nvar"] = 5
        return p

    def fname(self, p, i):
        return "%s.%04d.tab" % (p["run"], p["steps"][i])

    def kwargs(self, p):
        return {}

    def files(self, p, v):
        out = {}
        ver = p["vers"][v % len(p["vers"])]
        nx, ny, nz = ver["dims"]
        for i in range(len(p["steps"])):
            arrs = self.arrays(p, v, i)
            names = self.names(p)
            s = ""
            for k, n in enumerate(ver["dims"]):
                s += "# Nx%d = %d\n# x%d-size = %g\n" % (k + 1, n, k + 1, 1.0)
            s += "# CONSERVED vars at Time= %s, level= 0, domain= 0\n" % repr(float(ver["times"][i]))
            cols = ["i-zone", "j-zone", "k-zone", "x1", "x2", "x3"] + names
            s += "# " + "     ".join("[%d]=%s" % (c + 1, n) for c, n in enumerate(cols)) + "\n"
            for kz in range(nz):
                for jy in range(ny):
                    for ix in range(nx):
                        s += " %d %d %d" % (ix, jy, kz) + "".join(" %.8e" % ver["cc"][d][q] for d, q in
                                                                 enumerate((ix, jy, kz)))
                        s += "".join(" %.8e" % arrs[n][ix, jy, kz] for n in names) + "\n"
            out[self.fname(p, i)] = s
        return out

    def truth(self, p, v):
        out = AthBin.truth(self, p, v)
        ver = p["vers"][v % len(p["vers"])]
        for s in out:
            s["patches"][0]["crds"] = list(zip("xyz", [cc2nc(ver["cc"][k][:ver["dims"][k]], "f8") for k in range(3)]))
        return out

    def target(self, p, d, how="list"):
        names = [os.path.join(d, self.fname(p, i)) for i in range(len(p["steps"]))]
        if len(names) == 1:
            return names[0]
        return os.path.join(d, p["run"] + ".*.tab") if how == "glob" else names


# ------------------------------------------------------------------ gkeyll
GK5 = ['rho_e', 'rhoux_e', 'rhouy_e', 'rhouz_e', 'e_e', 'rho_i', 'rhoux_i', 'rhouy_i', 'rhouz_i', 'e_i',
       'Ex', 'Ey', 'Ez', 'Bx', 'By', 'Bz']


class Gkeyll(Kind):
    name = "gkeyll"
    multi = True

    def gen(self, rng, w, nt=None):
        nt = nt or rng.randint(1, 3)
        nd = rng.choice([2, 3, 3])
        vers = gen_vers(rng, 3, 2, 4, nd)
        for ver in vers:
            ver["times"] = gen_times(rng, nt)
            ver["lo"] = [rng.randint(-9, 3) for _ in range(nd)]
            ver["h"] = [rng.choice([0.5, 1.0, 0.25]) for _ in range(nd)]
        return {"kind": self.name, "w": w, "run": rng.choice(["gk", "g"]) + str(w), "vers": vers,
                "steps": gen_times(rng, nt, True, rng.randint(0, 9)), "nf": rng.choice([5, 18, 16, 3, 7]), "nd": nd}

    def names(self, p):
        hy = ['rho', 'rhoux', 'rhouy', 'rhouz', 'e']
        return {5: hy, 7: hy + ["phi_E", "phi_B"], 16: GK5, 18: GK5 + ["phi_E", "phi_B"]}.get(
            p["nf"], ["Q%d" % i for i in range(p["nf"])])

    def arrays(self, p, v, i):
        dims = self.dims(p, v)
        n = int(np.prod(dims))
        out = {}
        for k, nm in enumerate(self.names(p)):
            out[nm] = (values(p["w"], v, i, k % 13, n, "f8") + (0.5 if k >= 13 else 0.0)).reshape(dims)
        return out

    def fname(self, p, i):
        return "%s_q_%d.h5" % (p["run"], p["steps"][i])

    def files(self, p, v):
        out = {}
        ver = p["vers"][v % len(p["vers"])]
        for i in range(len(p["steps"])):
            arrs = self.arrays(p, v, i)
            a = np.stack([arrs[n] for n in self.names(p)], axis=-1)

            def fill(h):
                h["StructGridField"] = a
                g = h.create_group("StructGrid")
                g.attrs["vsKind"] = np.string_("uniform")
                g.attrs["vsLowerBounds"] = np.array(ver["lo"], "f8")
                g.attrs["vsUpperBounds"] = np.array([l + hh * n for l, hh, n in zip(ver["lo"], ver["h"], ver["dims"])], "f8")
                g.attrs["vsNumCells"] = np.array(ver["dims"], "i4")
                t = h.create_group("timeData")
                t.attrs["vsStep"] = p["steps"][i]
                t.attrs["vsTime"] = float(ver["times"][i])
            out[self.fname(p, i)] = h5_bytes(fill)
        return out

    def truth(self, p, v):
        ver = p["vers"][v % len(p["vers"])]
        nc = [np.linspace(l, l + hh * n, n + 1) for l, hh, n in zip(ver["lo"], ver["h"], ver["dims"])]
        return [one(ver["times"][i], list(zip("xyz", nc)), {n: fld(a, "cell") for n, a in self.arrays(p, v, i).items()})
                for i in range(len(p["steps"]))]

    def target(self, p, d, how="list"):
        names = [os.path.join(d, self.fname(p, i)) for i in range(len(p["steps"]))]
        if len(names) == 1:
            return names[0]
        return os.path.join(d, p["run"] + "_q_*.h5") if how == "glob" else names

    def snapshot_of(self, p, rel):
        return [i for i in range(len(p["steps"])) if rel == self.fname(p, i)][0]


# ------------------------------------------------------------------ npz, nda
class Npz(Kind):
    name = "npz"

    def gen(self, rng, w, nt=None):
        nd = rng.choice([1, 2, 3, 3])
        vers = gen_vers(rng, 3, 2, 5, nd)
        for ver in vers:
            ver["nc"] = [axis_nodes(rng, 5, fine=True) for _ in range(nd)]
        p = {"kind": self.name, "w": w, "run": "np" + str(w), "vers": vers, "nd": nd,
             "flds": sorted(rng.sample(range(4), rng.randint(1, 3)))}
        # as other programs write it: without lists of names, packed, in Fortran order
        p["bare"], p["pack"], p["order"] = rng.choice([0, 0, 0, 1, 2]), rng.random() < 0.3, rng.choice("CCF")
        if p["bare"] == 2:
            p["flds"] = sorted(rng.sample([1, 3, 4], rng.randint(1, 3)))
        return p
    SET = [("fa", "cell", "f4"), ("fb", "node", "f8"), ("fc", "cell", "f8"), ("fi", "node", "i4"), ("fg", "node", "f8")]

    def arrays(self, p, v):
        dims = self.dims(p, v)
        out = {}
        for k, i in enumerate(p["flds"]):
            n, c, dt = self.SET[i]
            shp = [d + (c == "node") for d in dims]
            out[n] = fld(values(p["w"], v, 0, k, int(np.prod(shp)), dt).reshape(shp), c)
        return out

    def files(self, p, v):
        ver = p["vers"][v % len(p["vers"])]
        d = {}
        axes = list("xyz"[:p["nd"]])
        for k, ax in enumerate(axes):
            d[ax] = np.array(ver["nc"][k][:ver["dims"][k] + 1])
        if not p.get("bare"):
            d["crd_names"] = np.array(axes)
        arrs = self.arrays(p, v)
        for c, key in (("node", "field_names_nc"), ("cell", "field_names_cc"), ("face", "field_names_fc"),
                       ("edge", "field_names_ec")):
            if p.get("bare") != 2 and (p.get("bare") != 1 or c in ("node", "cell")):
                d[key] = np.array([n for n in arrs if arrs[n]["center"] == c])
        for n in arrs:
            d[n] = np.array(arrs[n]["data"], order=p.get("order", "C"))
        # zip entries carry a time stamp: use a fixed one so that the bytes are a function of the plan
        import zipfile
        bio = io.BytesIO()
        with zipfile.ZipFile(bio, "w", zipfile.ZIP_DEFLATED if p.get("pack") else zipfile.ZIP_STORED) as z:
            for n in d:
                b = io.BytesIO()
                np.lib.format.write_array(b, np.asanyarray(d[n]))
                z.writestr(zipfile.ZipInfo(n + ".npy", (2010, 1, 1, 0, 0, 0)), b.getvalue(), z.compression)
        return {p["run"] + ".npz": bio.getvalue()}

    def truth(self, p, v):
        ver = p["vers"][v % len(p["vers"])]
        nc = [(ax, np.array(ver["nc"][k][:ver["dims"][k] + 1])) for k, ax in enumerate("xyz"[:p["nd"]])]
        return [{"time": None, "patches": [patch(nc, self.arrays(p, v))]}]

    def target(self, p, d, how="list"):
        return os.path.join(d, p["run"] + ".npz")


class Nda(Kind):
    name = "nda"
    textual = True
    lazy = False

    def gen(self, rng, w, nt=None):
        nd = rng.choice([1, 2, 3])
        vers = gen_vers(rng, 3, 2, 5, nd)
        for ver in vers:
            ver["nc"] = [axis_nodes(rng, 5, fine=True) for _ in range(nd)]
        return {"kind": self.name, "w": w, "run": "nd" + str(w), "vers": vers, "nd": nd, "nf": rng.randint(1, 3)}

    def arrays(self, p, v):
        shp = self.dims(p, v)
        return {"f%d" % k: fld(values(p["w"], v, 0, k, int(np.prod(shp)), ["f8", "f4"][k % 2]).reshape(shp), "node")
                for k in range(p["nf"])}

    def files(self, p, v):
        ver = p["vers"][v % len(p["vers"])]
        s = "NDim: %d\nNfields: %d\n" % (p["nd"], p["nf"])
        for k, ax in enumerate("xyz"[:p["nd"]]):
            s += "%s f8\n%s\n" % (ax, " ".join(repr(float(x)) for x in ver["nc"][k][:ver["dims"][k]]))
        arrs = self.arrays(p, v)
        for n in arrs:
            a = arrs[n]["data"]
            s += "%s %s\n%s\n" % (n, {"f8": "f8", "f4": "f4"}[a.dtype.str[1:]],
                                  " ".join(repr(float(x)) for x in a.reshape(-1)))
        return {p["run"] + ".nda": s}

    def truth(self, p, v):
        ver = p["vers"][v % len(p["vers"])]
        nc = [(ax, np.array(ver["nc"][k][:ver["dims"][k]])) for k, ax in enumerate("xyz"[:p["nd"]])]
        return [{"time": None, "patches": [patch(nc, self.arrays(p, v))]}]

    def target(self, p, d, how="list"):
        return os.path.join(d, p["run"] + ".nda")


class Hst(Nda):
    """an Athena history file: a table of scalars over time"""
    name = "hst"

    def gen(self, rng, w, nt=None):
        vers = [{"dims": [rng.choice([4, 5, 7])]} for _ in range(3)]
        for ver in vers:
            ver["nc"] = [axis_nodes(rng, 8, fine=True)]
        return {"kind": self.name, "w": w, "run": "hi" + str(w), "vers": vers, "nf": rng.randint(1, 4)}

    def arrays(self, p, v):
        n = self.dims(p, v)[0]
        return {k: fld(values(p["w"], v, 0, i, n, "f8"), "node")
                for i, k in enumerate(["dt", "mass", "total E", "x1 Mom."][:p["nf"]])}

    def files(self, p, v):
        ver = p["vers"][v % len(p["vers"])]
        arrs = self.arrays(p, v)
        s = "# Athena history dump for level=0 domain=0 volume=1.0e+00\n#"
        s += "".join("   [%d]=%s" % (k + 1, n) for k, n in enumerate(["time"] + list(arrs))) + "\n"
        for i in range(ver["dims"][0]):
            s += " ".join(repr(float(x)) for x in [ver["nc"][0][i]] + [arrs[n]["data"][i] for n in arrs]) + "\n"
        return {p["run"] + ".hst": s}

    def truth(self, p, v):
        ver = p["vers"][v % len(p["vers"])]
        return [one(0.0, [("t", np.array(ver["nc"][0][:ver["dims"][0]]))], self.arrays(p, v))]

    def target(self, p, d, how="list"):
        return os.path.join(d, p["run"] + ".hst")


# ------------------------------------------------------------------ vpic
class Vpic(Kind):
    name = "vpic"

    def gen(self, rng, w, nt=None):
        nt = nt or rng.randint(1, 3)
        vers = [{"dims": [rng.randint(2, 4) for _ in range(3)]}]
        for _ in range(2):
            vers.append({"dims": list(vers[0]["dims"])})
        for ver in vers:
            ver["lo"] = [rng.randint(-9, 3) for _ in range(3)]
            ver["h"] = [rng.choice([0.5, 1.0, 2.0]) for _ in range(3)]
        return {"kind": self.name, "w": w, "run": "vp" + str(w), "vers": vers, "steps": gen_times(rng, nt, True),
                "topo": rng.choice([[1, 1, 1], [2, 1, 1], [1, 2, 1]]), "species": rng.random() < 0.4}

    def names(self, p):
        n = [("fields", "fields", ["Electric Field X", "Electric Field Y", "Electric Field Z", "Charge Density"])]
        if p["species"]:
            n.append(("hydro", "ehydro", ["Charge Density (ehydro)"]))
        return n

    def arrays(self, p, v, i, rank):
        dims = self.dims(p, v)
        out = {}
        k = 0
        for _, _, ns in self.names(p):
            for n in ns:
                out[n] = values(p["w"], v, i, k + 5 * rank, int(np.prod(dims)), "f4").reshape(dims)
                k += 1
        return out

    def files(self, p, v):
        ver = p["vers"][v % len(p["vers"])]
        s = "VPIC_HEADER_VERSION 1.0.0\nDATA_HEADER_SIZE 123\nGRID_DELTA_T 0.36\nGRID_CVAC 1.0\nGRID_EPS0 1.0\n"
        for k, ax in enumerate("XYZ"):
            s += "GRID_EXTENTS_%s %r %r\n" % (ax, float(ver["lo"][k]), float(ver["lo"][k] + ver["h"][k] * ver["dims"][k]))
        for k, ax in enumerate("XYZ"):
            s += "GRID_DELTA_%s %r\n" % (ax, ver["h"][k])
        for k, ax in enumerate("XYZ"):
            s += "GRID_TOPOLOGY_%s %d\n" % (ax, p["topo"][k])
        s += 'FIELD_DATA_DIRECTORY fields\nFIELD_DATA_BASE_FILENAME fields\nFIELD_DATA_VARIABLES 2\n'
        s += '"Electric Field" VECTOR 3 FLOATING_POINT 4\n"Charge Density" SCALAR 1 FLOATING_POINT 4\n'
        s += "NUM_OUTPUT_SPECIES %d\n" % (1 if p["species"] else 0)
        if p["species"]:
            s += ('SPECIES_DATA_DIRECTORY hydro\nSPECIES_DATA_BASE_FILENAME ehydro\nHYDRO_DATA_VARIABLES 1\n'
                  '"Charge Density" SCALAR 1 FLOATING_POINT 4\n')
        out = {p["run"] + "/global.vpc": s}
        nr = int(np.prod(p["topo"]))
        g = [d + 2 for d in ver["dims"]]
        for i, st in enumerate(p["steps"]):
            for rank in range(nr):
                arrs = self.arrays(p, v, i, rank)
                for di, base, ns in self.names(p):
                    b = struct.pack("=5b", 8, 2, 4, 4, 8) + struct.pack("=HIfd", 0xcafe, 0xdeadbeef, 1.0, 1.0)
                    b += struct.pack("=6i10f", 0, 1, st, *(ver["dims"] + [0.36] + ver["h"] + [0.0] * 6))
                    b += struct.pack("=3i1f5i", rank, nr, 0, 0.0, 4, 3, *g)
                    for n in ns:
                        a = np.full(g, -7.0, "f4")
                        a[1:-1, 1:-1, 1:-1] = arrs[n]
                        b += a.tobytes(order="F")
                    out["%s/%s/T.%d/%s.%d.%d" % (p["run"], di, st, base, st, rank)] = b
        return out

    def truth(self, p, v):
        ver = p["vers"][v % len(p["vers"])]
        out = []
        for i, st in enumerate(p["steps"]):
            pats = []
            rank = 0
            for k in range(p["topo"][2]):
                for j in range(p["topo"][1]):
                    for ii in range(p["topo"][0]):
                        nc = []
                        for d, q in enumerate((ii, j, k)):
                            n = ver["dims"][d]
                            nc.append(np.linspace(ver["lo"][d] + n * q * ver["h"][d],
                                                  ver["lo"][d] + n * (q + 1) * ver["h"][d], n + 1))
                        pats.append(patch(list(zip("xyz", nc)), {n: fld(a, "cell") for n, a in
                                                                 self.arrays(p, v, i, rank).items()}))
                        rank += 1
            out.append({"time": float(st), "patches": pats})
        return out

    def target(self, p, d, how="list"):
        return os.path.join(d, p["run"], "global.vpc")

    def snapshot_of(self, p, rel):
        for i, st in enumerate(p["steps"]):
            if "/T.%d/" % st in rel:
                return i
        return None

    def part_of(self, p, rel):
        i = self.snapshot_of(p, rel)
        if i is None:
            return None, None, None
        ns = [n for di, _, n in self.names(p) if "/%s/" % di in rel][0]
        return i, ns, int(rel.rsplit(".", 1)[1])


KINDS = {k.name: k() for k in (XdmfSingle, XdmfTemporal, XdmfSplit, XdmfAMR, GgcmXdmf, GgcmIof, AthXdmf, Psc, Fortbin, Jrrle,
                               AthBin, AthTab, Gkeyll, Npz, Nda, Hst, Vpic)}


def gen_world(rng, w, kinds=None, nt=None):
    name = rng.choice(kinds or sorted(KINDS))
    return KINDS[name].gen(rng, w, nt)


# ------------------------------------------------------------------ looking at what the library shows
def grid_patches(g):
    """the patches of a grid or AMR grid: list of plain grids"""
    src = getattr(g, "_src_grids", None)
    return list(src) if src is not None else [g]


def nearest_values(viscid, f, truth, name, kind, rnd):
    """(interpolated, stored) values at some cell centres of an AMR field, patches in any order"""
    pts, exp = [], []
    order = list(range(len(truth["patches"]))) * 2
    rnd.shuffle(order)
    for k in order:
        q = truth["patches"][k]
        cc = [0.5 * (np.asarray(c)[1:] + np.asarray(c)[:-1]) for _, c in q["crds"]]
        ix = tuple(rnd.randrange(len(c)) for c in cc)
        pts.append([c[x] for c, x in zip(cc, ix)])
        exp.append(q["fields"][name]["data"][ix])
    fn = viscid.interp_nearest if kind == "nearest" else viscid.interp_trilin
    return np.array(fn(f, viscid.Point(np.array(pts).T), wrap=False)).reshape(-1), np.array(exp)


def same_axis(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9)


def same_data(a, b, lossy=False):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if lossy:
        return bool(np.allclose(a, b, rtol=2e-5, atol=0.0))
    return bool(np.array_equal(a, b))


def diff_text(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return "shape %s instead of %s" % (a.shape, b.shape)
    bad = np.argwhere(a != b)
    i = tuple(bad[0]) if len(bad) else ()
    return "%d of %d values wrong, first at %s: %r instead of %r" % (len(bad), a.size, i, a[i] if len(bad) else None,
                                                                     b[i] if len(bad) else None)

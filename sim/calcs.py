"""Calculations on fields made from exact arrays, used where a property speaks of calculations."""
import numpy as np

from sim import core


def vec_field(viscid, seed, shape=(5, 4, 6), center="cell", dtype="f8", layout="interlaced"):
    """a smooth vector field without symmetric coincidences, a function of `seed` only"""
    n = [s + 1 for s in shape]
    rs = [((seed * (k + 3)) % 17) * 0.01 for k in range(3)]
    crds = [np.linspace(-2.0 - r, 2.0 + r, m) for r, m in zip(rs, n)]
    B = viscid.empty(crds, crd_names="xyz", nr_comps=3, center=center, name="B", dtype=dtype, layout=layout)
    X, Y, Z = B.get_crds(shaped=True)
    a = 0.3 + 0.1 * (seed % 5)
    B["x"] = 1.0 + a * Y + 0.0 * X + 0.0 * Z
    B["y"] = 0.5 - a * X + 0.2 * Z
    B["z"] = 0.3 + 0.4 * np.sin(X + seed) + 0.0 * Y + 0.0 * Z
    return B


def scalar_field(viscid, seed, shape=(5, 4, 6), center="cell"):
    n = [s + 1 for s in shape]
    crds = [np.linspace(-2.0, 2.0, m) for m in n]
    f = viscid.zeros(crds, crd_names="xyz", center=center, name="f")
    X, Y, Z = f.get_crds(shaped=True)
    f.data[...] = np.sin(X + 0.1 * seed) + Y * Z
    return f


def seeds(viscid, seed, n=6):
    k = (seed % 7) * 0.05
    return viscid.Line((-1.5 + k, -0.5, -0.9), (1.4, 0.8 - k, 1.1), n)


def streams(viscid, seed, **kw):
    B = vec_field(viscid, seed)
    o = dict(ds0=0.2, maxit=40, max_length=6.0)
    o.update(kw)
    return B, seeds(viscid, seed), o


def run(viscid, what, seed):
    """digest of one calculation"""
    if what == "streams":
        B, s, o = streams(viscid, seed)
        lines, topo = viscid.calc_streamlines(B, s, **o)
        return core.digest(*([np.asarray(x) for x in lines] + [np.asarray(topo)]))
    if what == "mag":
        return core.digest(np.array(viscid.magnitude(vec_field(viscid, seed)).data))
    if what == "div":
        return core.digest(np.array(viscid.div(vec_field(viscid, seed)).data))
    if what == "curl":
        return core.digest(np.array(viscid.curl(vec_field(viscid, seed)).data))
    if what == "grad":
        return core.digest(np.array(viscid.grad(scalar_field(viscid, seed)).data))
    if what == "interp":
        return core.digest(np.array(viscid.interp_trilin(scalar_field(viscid, seed), seeds(viscid, seed))))
    if what == "arith":
        f = scalar_field(viscid, seed)
        return core.digest(np.array((2 * f + f ** 2 - 1).data))
    if what == "slice":
        f = scalar_field(viscid, seed)
        return core.digest(np.array(f["x=0.5j, y=1:3"].data))
    if what == "center":
        return core.digest(np.array(scalar_field(viscid, seed).as_centered("node").data))
    raise ValueError(what)


WHAT = ["streams", "mag", "div", "curl", "grad", "interp", "arith", "slice", "center"]

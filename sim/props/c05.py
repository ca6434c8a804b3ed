"""C05: lazily loaded values do not depend on how and when they are reached."""
import numpy as np

from sim import core, formats, session, simio
from sim.formats import KINDS, diff_text, same_axis, same_data
from sim.session import Disk, gen_fault, match_time, seeded

ID = "C05"
RUNS = {"quick": 4000, "thorough": 100000}
RULE = ("a run counts when its history of accesses and results differs from every other run's and at least two routes to the "
        "same field were compared with the truth")
REAL = ["viscid readers of all formats, dataset, grid, field, sliceutil, coordinate, evaluator (numexpr)", "h5py/HDF5, numpy, "
        "libgfortran, libc stdio above the system call layer"]
STUB = ["system calls on files below the run's directory pass a layer that injects faults; numexpr runs with one thread"]
STATE_MEASURE = "format x access route x what was in memory before x caching and layout configuration"
PROBES = ["reads", "slices", "lazy_slices", "copies", "equations", "writes", "held", "clears", "centring", "components",
          "layouts", "faulted", "aborted_with", "crds",
          "derived", "amr"]

ROUTES = ["item", "get_field", "get_field_time", "root_item", "root_get", "root_time", "with", "withgrid", "iter", "iter_items",
          "dict", "array", "flat", "resolve", "longterm", "gen_times"]
SLICES = ["lazy", "loaded", "get", "keep", "twice", "loc", "string", "reduce"]


AMR = ["item", "item", "reduce", "keep", "get", "inds", "arith", "inplace", "ufunc", "stats", "with", "extent", "nearest", "trilin",
       "order", "badslice"]


def prepare():
    session.import_viscid()


def generate(rng, tier):
    nw = rng.choice([1, 1, 1, 2])
    worlds = [formats.gen_world(rng, w, ["amr"] if rng.random() < 0.05 else None) for w in range(nw)]
    ops = []
    for _ in range(rng.randint(6, 16 if tier == "quick" else 32)):
        w, i, j, s = rng.randrange(nw), rng.randint(0, 5), rng.randint(0, 5), rng.randint(0, 9999)
        r = rng.random()
        if r < 0.22:
            ops.append(["read", w, i, j, rng.choice(ROUTES), s])
        elif r < 0.37 and worlds[w]["kind"] == "amr":
            ops.append(["amr", w, i, j, rng.choice(AMR), s])
        elif r < 0.44:
            ops.append(["slice", w, i, j, rng.choice(SLICES), s])
        elif r < 0.50:
            ops.append(["copy", w, i, j, rng.choice(["shell", "times1", "plus", "neg", "deepwith", "astype", "contig", "wrap"]), s])
        elif r < 0.56:
            ops.append(["layout", w, i, j, rng.choice(["flat", "interlaced"]), s])
        elif r < 0.61:
            ops.append(["comps", w, i, j, rng.choice(["fields", "views", "index", "name"]), s])
        elif r < 0.645:
            ops.append(["derived", w, i, j, rng.choice(["data", "twice", "with", "longterm", "time", "slice", "written", "clear"]), s])
        elif r < 0.68:
            ops.append(["center", w, i, j, rng.choice(["node", "cell"]), s])
        elif r < 0.72:
            ops.append(["equation", w, i, j, rng.choice(["a+b", "2*a", "a-b*a", "sqrt", "slc"]), s])
        elif r < 0.78:
            ops.append(["write", w, i, j, rng.choice(["result", "copydata", "attrs", "slice", "rename", "wrapped", "crds"]), s])
        elif r < 0.84:
            ops.append(["hold", w, i, j, rng.choice(["item", "iter", "dict", "slice", "center", "longterm"]), s])
        elif r < 0.90:
            ops.append(["held", rng.randint(0, 9), rng.choice(["read", "slice", "shape", "read", "clear"]), s])
        elif r < 0.94:
            ops.append(["clear", w, i, j, rng.choice(["field", "grid", "root", "fieldnoread"]), s])
        elif r < 0.96:
            ops.append(["abort", w, i, j, rng.choice(["field", "grid", "iter"]), s])
        elif r < 0.98:
            ops.append(["crds", w, i, j, "", s])
        else:
            ops.append(["fault", w, i, j, rng.choice(["item", "get_field", "iter", "with"]), s, [gen_fault(rng)]])
    return {"worlds": worlds, "ops": ops, "longterm": rng.random() < 0.4,
            "transform": rng.choice([None, False, True]),
            "layout": rng.choice(["none", "none", "flat", "interlaced"]), "one_object": rng.random() < 0.5}


def derived(kind, flds):
    """what the grids of some formats offer by other names: {name: (values, names it is made of)}"""
    d = {n: np.asarray(y["data"], "f8") for n, y in flds.items()}
    out = {}

    def put(name, needs, fn):
        if all(n in d for n in needs) and name not in d:
            out[name] = (fn(*[d[n] for n in needs]), needs)

    def vec(*a):
        return np.stack(a, axis=-1)

    def mag(*a):
        return np.sqrt(sum(x ** 2 for x in a))

    if kind in ("ggcm", "fortbin", "jrrle"):
        put("v", ["vx", "vy", "vz"], vec)
        put("speed", ["vx", "vy", "vz"], mag)
        put("b", ["bx", "by", "bz"], vec)
        put("bmag", ["bx", "by", "bz"], mag)
        put("T", ["pp", "rr"], lambda p, r: p / r)
        put("j", ["jx", "jy", "jz"], vec)
    elif kind in ("athb", "atht", "athx"):
        put("rr", ["d"], lambda x: x)
        put("p", ["P"], lambda x: x)
        put("pp", ["P"], lambda x: x)
        for i, c in ((1, "x"), (2, "y"), (3, "z")):
            put("v" + c, ["M%d" % i, "d"], lambda m, r: m / r)
            put("v" + c, ["V%d" % i], lambda x: x)
            put("m" + c, ["V%d" % i, "d"], lambda x, r: x * r)
            put("m" + c, ["M%d" % i], lambda x: x)
            put("b" + c, ["B%d" % i], lambda x: x)
            put("b" + c, ["B%dc" % i], lambda x: x)
        put("v", ["M1", "M2", "M3", "d"], lambda a, b, c, r: vec(a / r, b / r, c / r))
        put("v", ["V1", "V2", "V3"], vec)
        put("speed", ["V1", "V2", "V3"], mag)
        for x in ("", "c"):
            put("b", ["B1" + x, "B2" + x, "B3" + x], vec)
            put("bmag", ["B1" + x, "B2" + x, "B3" + x], mag)
    elif kind == "gkeyll":
        for x in "ei":
            r = "rho_" + x
            for c in "xyz":
                put("u%s_%s" % (c, x), ["rhou%s_%s" % (c, x), r], lambda a, b: a / b)
        put("b", ["Bx", "By", "Bz"], vec)
    elif kind == "psc":
        for c in "xyz":
            put("b" + c, ["h" + c], lambda x: x)
        put("b", ["hx", "hy", "hz"], vec)
        put("h", ["hx", "hy", "hz"], vec)
    elif kind == "vpic":
        for c in "xyz":
            put("e" + c, ["Electric Field " + c.upper()], lambda x: x)
        put("e", ["Electric Field X", "Electric Field Y", "Electric Field Z"], vec)
        put("n_q", ["Charge Density"], lambda x: x)
    return out


def plain(world):
    """files whose grids offer nothing beyond what they hold: ionosphere and topology"""
    p = world.get("p", world)
    return p.get("ft") in ("topo", "iof") or p.get("sect") == "iof"


def comps_last(a, layout):
    a = np.asarray(a)
    return np.moveaxis(a, 0, -1) if layout == "flat" else a


def ambiguous(lens):
    """vectors on these points: the library can't tell the components' axis from the others (known finding KF1)"""
    return all(x == 3 for x in lens)


def amr(env, viscid, K, q, looked, g, n, how, s, judge):
    """fields of several patches against what is stored of each of them"""
    _, tr, _, i, _ = looked
    rnd = seeded(s)
    tp = tr["patches"]
    wants = [t["fields"][n]["data"] for t in tp]
    what = "%s field %s of snapshot %d on %d patches (%s)" % (K.name, n, i, len(tp), how)
    errs = np.geterr()

    def whole(f, wants, what, names=True):
        if type(f).__name__ != "AMRField" or f.nr_patches != len(wants) or len(f.patches) != len(wants):
            env.bad("patches-differ", "%s is a %s with %s patches" % (what, type(f).__name__, getattr(f, "nr_patches", None)))
        for k, (p, v, t) in enumerate(zip(f.patches, wants, tp)):
            judge(K, p, v, "%s patch %d" % (what, k), t["crds"], t["fields"][n]["center"], n if names else None, tr["time"])

    f = g[n]
    if how in ("item", "reduce", "keep", "get", "inds"):
        # nowhere near an edge of a cell
        sel, box = [], []
        for a in range(3):
            lo = min(t["crds"][a][1][0] for t in tp)
            hi = max(t["crds"][a][1][-1] for t in tp)
            r = rnd.random()
            at = sorted(lo + (hi - lo) * (rnd.randrange(64) + 0.37) / 64.0 for _ in range(2))
            ax = tp[0]["crds"][a][0]
            if r < 0.4:
                box.append((-np.inf, np.inf))
            elif r < 0.65:
                sel.append("%s=%.17gj" % (ax, at[0]))
                box.append((at[0], at[0]))
            else:
                if rnd.random() < 0.3:
                    at = [-np.inf, at[1]]
                sel.append("%s=%s:%.17gj" % (ax, "" if at[0] == -np.inf else "%.17gj" % at[0], at[1]))
                box.append((at[0], at[1]))
        sel = ",".join(sel)
        if not sel:
            return
        inside = [k for k, t in enumerate(tp) if all(c[0] < hi and c[-1] > lo for (_, c), (lo, hi) in zip(t["crds"], box))]
        what += " at %s" % sel
        if how == "inds":
            got = f.patch_indices(sel)
            got = [got] if isinstance(got, (int, np.integer)) else list(got)
            if got != inside:
                env.bad("patches-differ", "%s: patches %s instead of %s" % (what, got, inside))
        else:
            fn = {"item": "slice", "reduce": "slice_reduce"}.get(how, "slice_and_keep")
            # plain patches of a grid of their own
            exp = []
            for k in inside:
                c = np.asarray(tp[k]["crds"][0][1]), np.asarray(tp[k]["crds"][1][1]), np.asarray(tp[k]["crds"][2][1])
                o = viscid.wrap_field(wants[k].copy(), viscid.arrays2crds(list(c), crd_names="xyz"), center=tp[k]["fields"][n]["center"], name=n)
                try:
                    o = getattr(o, fn)(sel)
                except (AssertionError, IndexError, ValueError):
                    return
                if not isinstance(o, viscid.field.Field) or not np.asarray(o).size:
                    return              # nothing or single numbers of a patch
                exp.append(o)
            r = f[sel] if how == "item" else g.get_field(n, slc=sel) if how == "get" else getattr(f, fn)(sel)
            rs = list(r.patches) if type(r).__name__ == "AMRField" else [r]
            if len(rs) != len(exp):
                env.bad("patches-differ", "%s has %d patches instead of %d" % (what, len(rs), len(exp)))
            for a, b in zip(rs, exp):
                va, vb = np.array(a.data), np.array(b.data)
                if va.squeeze().shape != vb.squeeze().shape or not np.array_equal(va.squeeze(), vb.squeeze()):
                    env.bad("slice-differs", "%s: %s" % (what, diff_text(va.squeeze(), vb.squeeze())))
                for ax in b.crds.axes:
                    if not same_axis(a.get_crd_nc(ax), b.get_crd_nc(ax)):
                        env.bad("coordinates-differ", "%s axis %s: %s" % (what, ax, a.get_crd_nc(ax)))
                if not match_time(a.time, tr["time"]):
                    env.bad("time-differs", "%s has time %r" % (what, a.time))
            env.sig("amr", how, len(inside), len(exp), len(tp))
    elif how == "arith":
        other = sorted(tp[0]["fields"])[-1]
        h = g[other]
        ow = [t["fields"][other]["data"] for t in tp]
        for fn in (lambda a, b: a + b, lambda a, b: 2 - a, lambda a, b: -a, lambda a, b: abs(a) * 0.5, lambda a, b: a - b * 2,
                   lambda a, b: b * a):
            r = fn(f, h)
            whole(r, [fn(a, b) for a, b in zip(wants, ow)], what, False)
        r = f > h
        for p, a, b in zip(r.patches, wants, ow):
            if not np.array_equal(np.asarray(p.data, bool), a > b):
                env.bad("data-differs", "%s compared with %s" % (what, other))
        whole(h, ow, what + " other", False)
    elif how == "inplace":
        r = f * 1
        r = r + 3
        whole(r, [x + 3 for x in wants], what, False)
        for p in r.patches:
            p.data[...] = -5
        whole(f, wants, what + " source")
    elif how == "ufunc":
        if len(set(x.shape for x in wants)) == 1:
            r = np.negative(f)
            whole(r, [-x for x in wants], what, False)
            r = np.maximum(f, 0.25)
            whole(r, [np.maximum(x, np.asarray(0.25, x.dtype)) for x in wants], what, False)
    elif how == "stats":
        for m in ("max", "min"):
            v, e = getattr(f, m)(), getattr(np.array([getattr(x, m)() for x in wants]), m)()
            if v != e:
                env.bad("data-differs", "%s: %s is %r instead of %r" % (what, m, v, e))
        if f.name != n or str(f.center).lower() != tp[0]["fields"][n]["center"] or not match_time(f.time, tr["time"]):
            env.bad("attribute-differs", "%s: %s, %s, %s" % (what, f.name, f.center, f.time))
    elif how == "with":
        with f as r:
            whole(r, wants, what)
        with g as r:
            whole(r[n], wants, what)
    elif how == "extent":
        lo = np.min([[c[0] for _, c in t["crds"]] for t in tp], axis=0)
        hi = np.max([[c[-1] for _, c in t["crds"]] for t in tp], axis=0)
        for x, lab in ((f, "field"), (g, "grid")):
            a, b = (x.xl, x.xh) if lab == "field" else (x.xl_nc, x.xh_nc)
            if not same_axis(a, lo) or not same_axis(b, hi):
                env.bad("extent-differs", "%s: the %s reaches from %s to %s instead of %s to %s" % (what, lab, a, b, lo, hi))
    elif how in ("nearest", "trilin"):
        v, e = formats.nearest_values(viscid, f, tr, n, how, rnd)
        if not (np.array_equal(v, e) if how == "nearest" else np.allclose(v, e, rtol=1e-5, atol=1e-12)):
            env.bad("interpolation-differs", "%s: %s" % (what, diff_text(v, e)))
    elif how == "order":
        ks = list(range(len(tp)))
        rnd.shuffle(ks)
        for k in ks:
            judge(K, f.patches[k], wants[k], "%s patch %d" % (what, k), tp[k]["crds"], tp[k]["fields"][n]["center"], n, tr["time"])
    elif how == "badslice":
        for sel in ("x=1", "x=1j:2", "x=nothing", "x=99999j", "q=1j"):
            try:
                f[sel]
            except Exception:       # pylint: disable=broad-except
                continue
        whole(f, wants, what + " afterwards")
    if np.geterr() != errs:
        env.bad("setting-left-changed", "%s: numpy reports errors as %s now instead of %s" % (what, np.geterr(), errs))
    env.hit("amr")
    env.sig("amr", how, len(tp), i > 0)


def values_of(f):
    """values with the components last, and whether it is a vector"""
    d = np.array(f.data)
    if tuple(f.shape) != d.shape:
        raise core.Violation("shape-wrong", "field %s says its shape is %s but its data has %s" % (f.name, f.shape, d.shape))
    if f.dtype != d.dtype:
        raise core.Violation("type-wrong", "field %s says its type is %s but its data has %s" % (f.name, f.dtype, d.dtype))
    if f.nr_comps:
        if f.layout not in ("flat", "interlaced"):
            raise core.Violation("layout-wrong", "vector field %s has layout %s" % (f.name, f.layout))
        return comps_last(d, f.layout)
    return d


def gen_index(rnd, dims, ints=True):
    """a selection of a node or cell array with these dims"""
    out = []
    for n in dims:
        r = rnd.random()
        if r < 0.3 or n < 2:
            out.append(slice(None))
        elif r < 0.5 and ints:
            out.append(rnd.randrange(-n, n))
        else:
            a = rnd.randrange(0, n - 1)
            b = rnd.randrange(a + 1, n + 1)
            st = rnd.choice([None, None, None, 2])
            out.append(slice(rnd.choice([a, a, a - n]), b if b < n or rnd.random() < 0.5 else None, st))
    if rnd.random() < 0.2 and len(out) > 1:
        out = out[:rnd.randint(1, len(out) - 1)]
    return tuple(out)


def execute(plan, env):
    import viscid
    import viscid.readers
    from viscid.calculator import evaluator
    evaluator.enabled = True
    viscid.grid.Grid.longterm_field_caches = bool(plan["longterm"])
    if plan.get("transform") is not None:
        viscid.readers.openggcm.GGCMGrid.copy_on_transform = plan["transform"]
    if plan["layout"] != "none":
        viscid.grid.Grid.force_vector_layout = plan["layout"]
    disk = Disk(env, plan["worlds"])
    nw = len(plan["worlds"])
    simio.set_root(env.root)
    roots = []
    for w in range(nw):
        disk.put(w, 0)
        roots.append(env.must("load-fails", "load", session.load, viscid, disk, w))
    held = []               # [field, K, truth entry, what, expected values]
    state = {}

    def snap(w, i, how=0):
        """(grid patch, its truth, K, snapshot number)"""
        K = disk.kind(w)
        tr = disk.truth(w)
        i = i % len(tr)
        f = roots[w]
        nt = f.nr_times()
        if nt != len(tr):
            env.bad("number-of-times", "%s shows %d times instead of %d" % (K.name, nt, len(tr)))
        g = f.get_grid(time=i) if len(tr) > 1 else f.get_grid()
        ps = formats.grid_patches(g)
        if len(ps) != len(tr[i]["patches"]):
            env.bad("number-of-patches", "%s shows %d patches" % (K.name, len(ps)))
        return ps, tr[i], K, i, len(tr)

    def pick(w, i, j):
        ps, t, K, i, nt = snap(w, i)
        k = j % len(ps)
        names = sorted(t["patches"][k]["fields"])
        n = names[j % len(names)]
        return ps[k], n, t["patches"][k], K, i, nt, t, len(ps)

    def same(K, a, b):
        return same_data(a, b, K.lossy)

    def judge(K, f, want, what, crds=None, center=None, name=None, time=None):
        v = values_of(f)
        if not same(K, v, want):
            env.bad("values-differ", "%s: %s" % (what, diff_text(v, want)))
        if center and str(f.center).lower() != center:
            env.bad("centring-differs", "%s is %s centred instead of %s" % (what, f.center, center))
        if crds is not None:
            axes = [a for a, _ in crds]
            if list(f.crds.axes) != axes:
                env.bad("axes-differ", "%s has axes %s instead of %s" % (what, list(f.crds.axes), axes))
            for a, c in crds:
                x = np.array(f.get_crd_nc(a))
                if not same_axis(x, c):
                    env.bad("coordinates-differ", "%s axis %s: %s instead of %s" % (what, a, x, c))
        if name is not None and f.name != name:
            env.bad("name-differs", "%s is called %s" % (what, f.name))
        if time is not None and not match_time(f.time, time):
            env.bad("time-differs", "%s has time %r instead of %r" % (what, f.time, time))

    def get(route, w, q, n, i, nt, npatch):
        """the field by one route; may be a generator that keeps a with-block open while it is judged"""
        f = roots[w]
        if npatch > 1 and route in ("root_item", "root_get", "root_time", "gen_times", "get_field_time"):
            route = "item"
        if nt > 1 and route == "root_item":
            f.activate_time(i)
            yield f[n]
        elif route == "root_item":
            yield f[n]
        elif route == "root_get":
            if nt > 1:
                f.activate_time(i)
            yield f.get_field(n)
        elif route == "root_time":
            yield f.get_field(n, time=i) if nt > 1 else f.get_field(n)
        elif route == "get_field_time":
            yield q.get_field(n, time=None)
        elif route == "get_field":
            yield q.get_field(n)
        elif route == "with":
            with q.get_field(n) as x:
                yield x
        elif route == "withgrid":
            with q as x:
                yield x[n]
        elif route == "iter":
            for x in q.iter_fields():
                if x.name == n:
                    yield x
        elif route == "iter_items":
            for m, x in q.iter_field_items():
                if m == n:
                    yield x
        elif route == "dict":
            yield q.field_dict()[n]
        elif route == "longterm":
            yield q.get_field(n, force_longterm_caches=True)
        elif route == "resolve":
            yield q[n].resolve()
        elif route == "gen_times":
            for k, g in enumerate(f.iter_times()):
                if k == i:
                    yield formats.grid_patches(g)[0][n]
        else:
            yield q[n]

    def work(op):
        name = op[0]
        w, how, s = op[1], op[4], op[5]
        q, n, tp, K, i, nt, t, npatch = pick(w, op[2], op[3])
        y = tp["fields"][n]
        want, center, crds, time = y["data"], y["center"], tp["crds"], t["time"]
        nsd = len(crds)
        vec = want.ndim > nsd
        what = "%s field %s (%s)" % (K.name, n, how)
        rnd = seeded(s)
        if name == "read":
            c = 0
            for f in get(how, w, q, n, i, nt, npatch):
                was = f.is_loaded
                if how == "array":
                    a = np.array(f)
                    if vec:
                        a = comps_last(a, f.layout)
                    if not same(K, a, want):
                        env.bad("values-differ", "%s by numpy: %s" % (what, diff_text(a, want)))
                if how == "flat":
                    a = np.array(f.flat_data).reshape(f.shape)
                    if vec:
                        a = comps_last(a, f.layout)
                    if not same(K, a, want):
                        env.bad("values-differ", "%s by flat_data" % what)
                judge(K, f, want, what, crds, center, n, time)
                env.sig(K.name, "read", how, was, plan["longterm"], plan["layout"] if vec else 0)
                c += 1
            if c != 1:
                env.bad("found-n-times", "%s found %d times" % (what, c))
            env.hit("reads")
        elif name == "slice":
            idx = gen_index(rnd, want.shape[:nsd])
            f = q[n]
            was = f.is_loaded
            full = tuple(idx) + (slice(None),) * (nsd - len(idx))
            exp = want[full]
            ints = [k for k, x in enumerate(full) if not isinstance(x, slice)]
            lens = [exp.shape[k] for k in range(exp.ndim - (1 if vec else 0))]
            if not lens or min(lens) < 2 and how != "keep":
                return      # single points and axes of one point become numbers or are reduced away
            if min(lens) < 1 or vec and ambiguous(lens):
                return
            env.ev("index", idx, "of", want.shape)
            if how == "loaded":
                _ = f.data
                r = f[idx]
            elif how == "get":
                r = q.get_field(n, slc=idx)
            elif how == "keep":
                r = f.slice_and_keep(idx)
            elif how == "reduce":
                r = f.slice_and_reduce(idx)
            elif how == "twice":
                idx2 = gen_index(rnd, lens, ints=False)
                r = f[idx]
                if vec and ambiguous(lens):
                    return
                full2 = tuple(idx2) + (slice(None),) * (len(lens) - len(idx2))
                exp = exp[full2]
                if min(exp.shape) < 2 or vec and ambiguous(exp.shape[:-1]):
                    return
                r = r[idx2]
            elif how == "loc":
                r = f.iloc[idx]
            elif how == "string":
                axes = [a for a, _ in crds]
                parts = []
                for a, x in zip(axes, idx):
                    if isinstance(x, slice):
                        parts.append("%s=%s:%s:%s" % (a, "" if x.start is None else x.start, "" if x.stop is None else x.stop,
                                                      "" if x.step is None else x.step))
                    else:
                        parts.append("%s=%d" % (a, x))
                rnd.shuffle(parts)
                r = f[", ".join(parts)]
            else:
                r = f[idx]
            env.hit("slices")
            if not was and how in ("lazy", "string", "get"):
                env.hit("lazy_slices")
            env.sig(K.name, "slice", how, was, len(ints), plan["layout"] if vec else 0)
            if not hasattr(r, "data") or not hasattr(r, "nr_comps"):
                if np.size(r) == 1 and exp.size == 1:
                    return
                env.bad("slice-no-field", "%s%s gives %r instead of a field" % (what, idx, type(r)))
            v = values_of(r)
            if how in ("keep", "get"):
                if v.size == exp.size:
                    v = v.reshape(exp.shape)
            if not same(K, v, exp):
                env.bad("slice-differs", "%s[%s], loaded before: %s: %s" % (what, idx, was, diff_text(v, exp)))
            if r.time != f.time:
                env.bad("time-differs", "%s[%s] has time %r" % (what, idx, r.time))
            # coordinates of contiguous selections
            if how != "twice" and all(not isinstance(x, slice) or x.step is None for x in full):
                for (a, c), x in zip(crds, full):
                    if not isinstance(x, slice):
                        continue
                    st, sp, _ = x.indices(len(c) - (1 if center == "cell" else 0))
                    wc = np.asarray(c)[st:sp + (1 if center == "cell" else 0)]
                    xc = np.array(r.get_crd_nc(a))
                    if not same_axis(xc, wc):
                        env.bad("slice-coordinates-differ", "%s[%s] axis %s: %s instead of %s" % (what, idx, a, xc, wc))
            judge(K, q[n], want, what + " after slicing", crds, center)
        elif name == "copy":
            f = q[n]
            if how == "shell":
                r = f.shell_copy(force=True)
                judge(K, r, want, what, crds, center, n, time)
            elif how == "astype":
                r = f.astype("f8")
                if r.dtype != np.dtype("f8") or not same(K, values_of(r), want.astype("f8")):
                    env.bad("copy-differs", what)
            elif how == "deepwith":
                with f.shell_copy(force=True) as r:
                    judge(K, r, want, what, crds, center)
                judge(K, r, want, what + " after the with block", crds, center)
            elif how == "contig":
                r = f.as_c_contiguous()
                judge(K, r, want, what, crds, center)
            elif how == "wrap":
                r = f.wrap(np.array(f.data))
                judge(K, r, want, what, crds, center)
            else:
                r = {"times1": lambda: f * 1, "plus": lambda: f + 0, "neg": lambda: -f}[how]()
                judge(K, r, -want if how == "neg" else want, what, crds, center)
            judge(K, f, want, what + " source", crds, center, n, time)
            env.hit("copies")
            env.sig(K.name, "copy", how)
        elif name == "layout":
            f = q[n]
            was = f.is_loaded
            r = f.as_flat() if how == "flat" else f.as_interlaced()
            if vec and (r.layout != how or r.data.shape != (((3,) + want.shape[:-1]) if how == "flat" else want.shape)):
                env.bad("layout-differs", "%s has layout %s and shape %s" % (what, r.layout, r.data.shape))
            judge(K, r, want, what, crds, center)
            judge(K, f, want, what + " source", crds, center, n, time)
            env.hit("layouts")
            env.sig(K.name, "layout", how, vec, was)
        elif name == "comps":
            if not vec:
                return
            f = q[n]
            was = f.is_loaded
            if how == "fields":
                r = f.component_fields()
            elif how == "views":
                r = f.component_views()
            elif how == "name":
                r = [f[c] for c in "xyz"]
            else:
                sl = (slice(None),) * nsd
                r = [f[("%s" % c,) + sl if f.layout == "flat" else sl + (c,)] for c in "xyz"]
            if len(r) != want.shape[-1]:
                env.bad("components", "%s has %d components" % (what, len(r)))
            for c, x in enumerate(r):
                a = np.array(x) if how == "views" else values_of(x)
                if not same(K, a, want[..., c]):
                    env.bad("component-differs", "%s component %d, loaded before: %s: %s" % (what, c, was, diff_text(a, want[..., c])))
            judge(K, f, want, what + " source", crds, center, n, time)
            env.hit("components")
            env.sig(K.name, "comps", how, was, plan["layout"])
        elif name == "center":
            f = q[n]
            was = f.is_loaded
            r = f.as_centered(how)
            a = values_of(r)
            if str(r.center).lower() != how or not same(K, a, want):
                env.bad("centred-copy-differs", "%s loaded before: %s: %s" % (what, was, diff_text(a, want)))
            if rnd.random() < 0.5:
                r.clear_cache()
            judge(K, f, want, what + " source", crds, center, n, time)
            if not same(K, values_of(r), want):
                env.bad("centred-copy-differs", "%s read again" % what)
            env.hit("centring")
            env.sig(K.name, "center", how, center, was)
        elif name == "equation":
            ok = [m for m in sorted(tp["fields"]) if tp["fields"][m]["data"].ndim == nsd and
                  tp["fields"][m]["center"] == center and m.isidentifier()]
            if vec or n not in ok:
                return
            m = ok[s % len(ok)]
            a, b = want.astype("f8"), tp["fields"][m]["data"].astype("f8")
            eqn, exp = {"a+b": ("%s + %s" % (n, m), a + b), "2*a": ("2*%s" % n, 2 * a), "a-b*a": ("%s - %s*%s" % (n, m, n), a - b * a),
                        "sqrt": ("sqrt(%s**2)" % n, np.sqrt(a ** 2)), "slc": ("%s + %s" % (n, m), a + b)}[how]
            if "i" in (want.dtype.kind, tp["fields"][m]["data"].dtype.kind):
                return      # integers overflow as integers do
            if how == "slc":
                idx = gen_index(rnd, want.shape[:nsd], ints=False)
                full = tuple(idx) + (slice(None),) * (nsd - len(idx))
                exp = exp[full]
                if min(exp.shape) < 2:
                    return
                r = q.get_field("res = " + eqn, slc=idx)
            else:
                r = q["res = " + eqn]
            v = values_of(r)
            big = max(np.abs(exp).max(), np.abs(a).max(), np.abs(b).max()) + 1e-30
            tol = 2e-4 if K.lossy else 1e-5
            if v.shape != exp.shape or not np.allclose(v, exp, rtol=tol, atol=tol * big):
                env.bad("equation-differs", "%s '%s': %s" % (what, eqn, diff_text(v, exp)))
            judge(K, q[n], want, what + " source", crds, center, n, time)
            env.hit("equations")
            env.sig(K.name, "equation", how)
        elif name == "write":
            f = q[n]
            if how == "result":
                r = f * 1
                r.data[...] = -7
            elif how == "wrapped":
                r = f.wrap(np.array(f.data))
                r[...] = -7
            elif how == "copydata":
                r = f.shell_copy(force=True)
                r.data = np.zeros_like(f.data) - 7
            elif how == "attrs":
                r = f.shell_copy(force=True)
                r.time = -77.0
                r.meta["made"] = "up"
                r.deep_meta["force_layout"] = "interlaced"
                r.set_info("made", "up")
                if f.find_info("made", None) is not None and f.has_info("made"):
                    env.bad("info-shared", what)
            elif how == "rename":
                r = f * 1
                r.name = "other"
                r.pretty_name = "other"
                r.time = -5.0
            elif how == "slice":
                sl = tuple(slice(0, max(2, x - 1)) for x in want.shape[:nsd])
                if vec and ambiguous(want[sl].shape[:-1]):
                    return
                r = f[sl] * 1
                r.data[...] = -7
            else:
                r = f.as_centered("node" if center == "cell" else "cell") * 1
                for a, _ in crds:
                    r.get_crd_nc(a).flags.writeable and None
                r.data[...] = -7
            judge(K, q[n], want, what + " read again", crds, center, n, time)
            judge(K, f, want, what + " source", crds, center, n, time)
            env.hit("writes")
            env.sig(K.name, "write", how)
        elif name == "hold":
            if how == "iter":
                f = [x for x in q.iter_fields()][sorted(range(1))[0]]
                f = [x for x in q.iter_fields() if x.name == n][0]
            elif how == "dict":
                f = q.field_dict()[n]
            elif how == "longterm":
                f = q.get_field(n, force_longterm_caches=True)
            elif how == "center":
                f = q[n].as_centered("node" if center == "cell" else "cell")
            else:
                f = q[n]
            exp = want
            if how == "slice":
                sl = tuple(slice(0, max(2, x - 1)) for x in want.shape[:nsd])
                if vec and ambiguous(want[sl].shape[:-1]):
                    return
                f, exp = f[sl], want[sl]
            held.append([f, K, exp, what, str(f.center).lower()])
            env.hit("held")
        elif name == "clear":
            f = q[n]
            if how != "fieldnoread":
                judge(K, f, want, what, crds, center)
            if how == "grid":
                q.clear_cache()
            elif how == "root":
                roots[w].clear_cache()
            else:
                f.clear_cache()
            judge(K, f, want, what + " after clearing", crds, center, n, time)
            env.hit("clears")
            env.sig(K.name, "clear", how)
        elif name == "abort":
            try:
                if how == "field":
                    with q[n] as f:
                        _ = f.data
                        raise KeyboardInterrupt
                elif how == "grid":
                    with q as g:
                        f = g[n]
                        _ = f.data
                        raise KeyboardInterrupt
                else:
                    for f in q.iter_fields():
                        _ = f.data
                        raise KeyboardInterrupt
            except KeyboardInterrupt:
                pass
            judge(K, q[n], want, what + " after an aborted block", crds, center, n, time)
            env.hit("aborted_with")
        elif name == "amr":
            amr(env, viscid, K, q, snap(w, i), roots[w].get_grid(time=i) if nt > 1 else roots[w].get_grid(), n, how, s, judge)
        elif name == "derived":
            offers = derived(K.name, tp["fields"])
            if not offers or plain(plan["worlds"][w]):
                return
            dn = sorted(offers)[s % len(offers)]
            exp, needs = offers[dn]
            if exp.ndim > nsd and ambiguous(exp.shape[:-1]):
                return
            # layouts are settled by shapes in some of these
            what = "%s field %s made of %s (%s)" % (K.name, dn, "+".join(needs), how)

            def look(f, exp, what):
                v = values_of(f)
                if v.shape != exp.shape or not np.allclose(v, exp, rtol=1e-4 if K.lossy else 2e-6, atol=1e-30):
                    env.bad("derived-differs", "%s: %s" % (what, diff_text(v, exp)))
                if how != "slice":
                    for a, c in crds:
                        if not same_axis(np.array(f.get_crd_nc(a)), c):
                            env.bad("coordinates-differ", "%s axis %s: %s" % (what, a, f.get_crd_nc(a)))
                if str(f.center).lower() != center:
                    env.bad("centring-differs", "%s is %s centred instead of %s" % (what, f.center, center))
                if not match_time(f.time, time):
                    env.bad("time-differs", "%s has time %r instead of %r" % (what, f.time, time))

            if how == "with":
                with q as g:
                    look(g[dn], exp, what)
            elif how == "longterm":
                look(q.get_field(dn, force_longterm_caches=True), exp, what)
            elif how == "time" and npatch == 1:
                look(roots[w].get_field(dn, time=i) if nt > 1 else roots[w].get_field(dn), exp, what)
            elif how == "slice":
                sl = tuple(slice(0, max(2, x - 1)) for x in exp.shape[:nsd])
                if min(exp[sl].shape) < 2 or exp.ndim > nsd and ambiguous(exp[sl].shape[:-1]):
                    return
                look(q[dn][sl], exp[sl], what)
            elif how == "written":
                f = q[dn] * 1
                look(f, exp, what)
                f.data[...] = -7
                look(q[dn], exp, what + " after one was written to")
            else:
                f = q[dn]
                look(f, exp, what)
                if how == "clear":
                    f.clear_cache()
                    look(f, exp, what + " cleared")
                    q.clear_cache()
                    look(q[dn], exp, what + " with everything cleared")
            for m in needs:
                judge(K, q[m], tp["fields"][m]["data"], "%s field %s that %s was made of" % (K.name, m, dn), crds, center, m, time)
            look(q[dn], exp, what + " again") if how != "slice" else None
            env.hit("derived")
            env.sig(K.name, "derived", dn, how)
        elif name == "crds":
            f = q[n]
            for k, (a, c) in enumerate(crds):
                c = np.asarray(c)
                cc = 0.5 * (c[1:] + c[:-1])
                for x, y2, lab in [(f.get_crd_nc(a), c, "get_crd_nc"), (f.get_crd_nc(k), c, "get_crd_nc(i)"),
                                   (q.get_crd_nc(a), c, "grid.get_crd_nc") if True else None,
                                   (f.get_crds_nc()[k], c, "get_crds_nc"), (f.crds.get_nc(a), c, "crds.get_nc"),
                                   (f.crds[a + "nc"], c, "crds[..nc]"), (f.get_crds_nc(shaped=True)[k].reshape(-1), c, "shaped"),
                                   (f.get_crd(a), c if center == "node" else None, "get_crd"),
                                   (f.get_crd_cc(a), None if len(c) < 2 else cc, "get_crd_cc"),
                                   (f.get_crd(a), cc if center == "cell" else None, "get_crd")]:
                    if y2 is None:
                        continue
                    x = np.array(x)
                    if x.shape != y2.shape or not np.allclose(x, y2, rtol=1e-5, atol=1e-6):
                        env.bad("coordinates-differ", "%s axis %s by %s: %s instead of %s" % (what, a, lab, x, y2))
            env.hit("crds")
        elif name == "fault":
            def read():
                for f in get(how, w, q, n, i, nt, npatch):
                    return np.array(f.data), f
            with core.Faults(env, op[6], read) as fl:
                ok, r = env.call("faulty read", read)
            if fl.fired:
                env.hit("faulted")
            if ok:
                v = r[0] if not vec else comps_last(r[0], r[1].layout)
                if not same(K, v, want):
                    env.bad("values-differ", "%s under a fault: %s" % (what, diff_text(v, want)))
            # what a failure leaves behind may take one more attempt (C02); values are judged all the same
            for m in sorted(tp["fields"]):
                z = tp["fields"][m]["data"]
                ok, v = env.call("settle", lambda: values_of(q[m]))
                if ok and not same(K, v, z):
                    env.bad("values-differ", "%s after a fault" % what)
            judge(K, q[n], want, what + " after a fault", crds, center, n, time)

    def do_held(op):
        if not held:
            return
        f, K, exp, what, center = held[op[1] % len(held)]
        what += " held"
        if op[2] == "clear":
            f.clear_cache()
        if op[2] == "shape":
            nv = exp.ndim
            s = tuple(f.shape)
            if len(s) == nv and f.nr_comps and f.layout == "flat":
                s = s[1:] + s[:1]
            if s != exp.shape:
                env.bad("shape-wrong", "%s says its shape is %s instead of %s" % (what, s, exp.shape))
        if op[2] == "slice":
            nsd = exp.ndim - (1 if f.nr_comps else 0)
            sl = tuple(slice(0, max(2, x - 1)) for x in exp.shape[:nsd])
            if min(exp.shape) > 1 and not (f.nr_comps and ambiguous(exp[sl].shape[:-1])):
                v = values_of(f[sl])
                if not same(K, v, exp[sl]):
                    env.bad("slice-differs", "%s: %s" % (what, diff_text(v, exp[sl])))
        v = values_of(f)
        if not same(K, v, exp):
            env.bad("values-differ", "%s: %s" % (what, diff_text(v, exp)))
        env.sig(K.name, "held", op[2])

    for op in plan["ops"]:
        env.step(*op[:6])
        if op[0] == "held":
            env.must("access-fails", "%s" % (op[:4],), do_held, op)
            continue
        if op[1] >= nw:
            continue
        env.must("access-fails", "%s" % (op[:6],), work, op)
    for k in range(len(held)):
        env.must("access-fails", "held %d" % k, do_held, ["held", k, "read", 0])

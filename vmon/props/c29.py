"""C29 housekeeping utilities."""
import re

import numpy as np
import xarray as xr

from vmon import gen as G

CASES = {"quick": 7500, "thorough": 75000}
RULE = (
    "random datasets with random variable names, coordinates, encodings and attributes; name maps with every subset of keys; staggered grids "
    "with random names; results compared entry by entry with the untouched originals; distinct by feature tuple"
)
ASSUMPTIONS = []


def fingerprint(ds, enc=True):
    out = {}
    for v in ds.variables:
        x = ds[v]
        out[v] = (x.dims, str(x.dtype), x.values.tolist(), dict(x.attrs), dict(x.encoding) if enc else None, v in ds.coords)
    return out, dict(ds.attrs), dict(ds.encoding) if enc else None


def rand_ds(ctx):
    rng = ctx.rng
    names = G.perm(rng, ["b", "a", "Z", "z_l2", "thetao", "so", "X1", "x1", "_u", "areacello", "10m", "time_bnds"])
    ds = xr.Dataset()
    k = int(rng.integers(0, 8))
    for v in names[:k]:
        d = [(), ("xh",), ("time", "yh"), ("yh", "xh")][int(rng.integers(4))]
        ds[v] = (d, rng.normal(size=tuple({"xh": 3, "time": 2, "yh": 4}[q] for q in d)), {"units": str(rng.choice(["m", "K"]))})
    for c in ("xh", "yh", "time", "nv", "Area"):
        if rng.random() < 0.5:
            ds = ds.assign_coords({c: ((c,) if c != "Area" else ("xh",), np.arange({"xh": 3, "time": 2, "yh": 4, "nv": 2, "Area": 3}[c]) * 1.5)})
            ds[c].attrs = {"long_name": c}
    ds.attrs = {"title": "t", "chunks": "an attribute that is not an encoding"}
    ctx.note(nvars=len(ds.variables))
    return ds


KEYS = ["chunks", "preferred_chunks", "dtype", "_FillValue", "chunksizes", "zlib", "units"]


def case(ctx):
    from momlevel import util as U
    rng = ctx.rng
    part = ctx.pick("part", ["sort", "encoding", "coords", "grid", "colormap", "eos"], p=[0.25, 0.3, 0.2, 0.15, 0.03, 0.07])
    if part == "sort":
        ds = rand_ds(ctx)
        for v in ds.variables:
            if rng.random() < 0.4:
                ds[v].encoding = {"dtype": "float32"}
        f0 = fingerprint(ds)
        r = ctx.call(U.alphabetize_dataset, ds)
        f1 = fingerprint(r)
        ctx.check(set(f0[0]) == set(f1[0]), "variables after sorting", lambda: f"{sorted(map(str, f0[0]))} {sorted(map(str, f1[0]))}")
        for v in f0[0]:
            ctx.check(f0[0][v] == f1[0][v], "a variable changed by sorting", str(v))
        ctx.check(f0[1] == f1[1], "dataset attributes after sorting")
        ctx.check(list(r.data_vars) == sorted(r.data_vars), "alphabetical order", lambda: str(list(r.data_vars)))
        ctx.check(dict(r.sizes) == dict(ds.sizes) or set(r.sizes) <= set(ds.sizes), "dimensions after sorting")
        ctx.check(fingerprint(ds) == f0, "sorting changed its input")
    elif part == "encoding":
        form = ctx.pick("form", ["dataset", "array"])
        ds = rand_ds(ctx)
        ds["mainvar"] = (("xh",), np.arange(3.0))
        for v in ds.variables:
            e = {}
            for k in KEYS:
                if rng.random() < 0.4:
                    e[k] = {"chunks": (1,), "preferred_chunks": {"xh": 1}, "dtype": "float32", "_FillValue": -9.0, "chunksizes": (3,), "zlib": True, "units": "days since 2000-01-01"}[k]
            ds[v].encoding = e
        ds.encoding = {"source": "file.nc", "chunks": 3, "unlimited_dims": {"time"}}
        attrs = ctx.pick("attrs", ["default", "list", "one", "empty", "absent"])
        kw = {}
        gone = ["chunks", "preferred_chunks"]
        if attrs == "list":
            gone = [str(k) for k in rng.choice(KEYS, 3, replace=False)]
            kw["attrs"] = list(gone)
        elif attrs == "one":
            gone = [str(rng.choice(KEYS + ["source"]))]
            kw["attrs"] = list(gone)
        elif attrs == "empty":
            gone = []
            kw["attrs"] = []
        elif attrs == "absent":
            gone = ["not_there"]
            kw["attrs"] = list(gone)
        obj = ds if form == "dataset" else ds["mainvar"]
        strip = lambda d: {k: v for k, v in d.items() if k not in gone}  # noqa: E731
        if form == "dataset":
            f0 = fingerprint(ds)
            r = ctx.call(U.reset_encoding, obj, **kw)
            f1 = fingerprint(r)
            ctx.check(set(f0[0]) == set(f1[0]), "variables after resetting")
            for v in f0[0]:
                a, b = f0[0][v], f1[0][v]
                ctx.check(a[:4] == b[:4] and a[5] == b[5], "data or attributes changed by resetting", str(v))
                ctx.check(strip(a[4]) == b[4], "encoding after resetting", lambda: f"{v}: {a[4]} -> {b[4]} removing {gone}")
            ctx.check(f0[1] == f1[1] and strip(f0[2]) == f1[2], "dataset attributes and encoding after resetting", lambda: f"{f0[2]} -> {f1[2]}")
        else:
            e0, v0, a0 = dict(obj.encoding), obj.values.copy(), dict(obj.attrs)
            r = ctx.call(U.reset_encoding, obj, **kw)
            ctx.check(dict(r.encoding) == strip(e0), "encoding of the array", lambda: f"{e0} -> {r.encoding}")
            ctx.check(np.array_equal(r.values, v0) and dict(r.attrs) == a0 and r.name == "mainvar", "array changed by resetting")
        if rng.random() < 0.1:
            ctx.rejects(U.reset_encoding, np.zeros(3))
    elif part == "coords":
        keys = {"t": "time", "z": "z_l", "zbounds": "z_i"}
        kind = ctx.pick("kind", ["none", "dict", "empty"], p=[0.15, 0.75, 0.1])
        cn = None
        if kind == "dict":
            cn = {}
            for k in G.perm(rng, ["t", "z", "zbounds", "x", "y", "xbounds", "tbounds", "depth", "time", "lev", "bounds", "T", "Z", "z_l", "z_i", "zcoord", "tcoord", "zi", "level"]):
                if rng.random() < 0.35:
                    cn[k] = f"{k}_{int(rng.integers(100))}"
            ctx.note(keys=",".join(sorted(cn)))
        elif kind == "empty":
            cn = {}
        snap = None if cn is None else dict(cn)
        got = ctx.call(U.default_coords, cn) if kind != "none" or rng.random() < 0.5 else ctx.call(U.default_coords)
        exp = tuple((cn or {}).get(k, d) for k, d in keys.items())
        ctx.check(tuple(got) == exp, "default coordinate names", lambda: f"{got} expected {exp}")
        ctx.check(cn == snap, "the map was changed")
        if rng.random() < 0.1:
            ctx.rejects(U.default_coords, [("t", "time")])
    elif part == "grid":
        sym = ctx.flip("symmetric")
        nm = ctx.pick("names", [("xh", "yh", "xq", "yq"), ("a", "b", "c", "d"), ("xq", "yq", "xh", "yh")])
        n, m = int(rng.integers(2, 6)), int(rng.integers(2, 6))
        ds = xr.Dataset(coords={nm[0]: np.arange(n), nm[1]: np.arange(m), nm[2]: np.arange(n + sym), nm[3]: np.arange(m + sym), "z_l": np.arange(3)})
        ds["v"] = ((nm[1], nm[0]), rng.normal(size=(m, n)))
        kw = {}
        if nm[0] != "xh" or rng.random() < 0.3:
            kw["coord_dict"] = dict(zip(G.perm(rng, [0]) and ["xcenter", "ycenter", "xcorner", "ycorner"], nm))
        if sym or rng.random() < 0.3:
            kw["symmetric"] = sym
        g = ctx.call(U.get_xgcm_grid, ds, **kw)
        pos = "outer" if sym else "right"
        ctx.check(set(g.axes) == {"X", "Y"}, "axes of the grid", lambda: str(set(g.axes)))
        for ax, c, q in (("X", nm[0], nm[2]), ("Y", nm[1], nm[3])):
            got = dict(g.axes[ax].coords)
            ctx.check(got == {"center": c, pos: q}, "coordinates of the grid", lambda: f"{ax}: {got} expected center={c}, {pos}={q}")
        a = g.interp(ds["v"], "X", boundary="fill")
        ctx.check(nm[2] in a.dims and nm[1] in a.dims and a.sizes[nm[2]] == n + sym, "interpolation lands on the corners")
    elif part == "colormap":
        lv, co = ctx.call(U.get_pv_colormap)
        if rng.random() < 0.5:
            # a caller may edit what it got
            for seq in (lv, co):
                if isinstance(seq, list):
                    seq.append(1)
                    seq.reverse()
            lv, co = ctx.call(U.get_pv_colormap)
        ctx.check(len(lv) == len(co), "levels match colours", lambda: f"{len(lv)} {len(co)}")
        ctx.check(bool((np.diff(np.array(lv, dtype=float)) > 0).all()), "levels increase")
        ctx.check(all(re.fullmatch(r"#[0-9a-fA-F]{6}", c) for c in co), "colours are valid")
    else:
        name = ctx.pick("eos", ["Wright", "wright", "WRIGHT", "linear", "Linear", "LiNeAr"])
        fn = ctx.pick("fn", ["default", "density", "drho_dtemp", "drho_dsal", "alpha", "beta"])
        f = ctx.call(U.eos_func_from_str, name) if fn == "default" else ctx.call(U.eos_func_from_str, name, func_name=fn)
        import importlib

        mod = importlib.import_module("momlevel.eos." + name.lower())
        t, s, p = float(rng.uniform(0, 30)), float(rng.uniform(30, 38)), float(rng.uniform(0, 1e7))
        ctx.close(f(t, s, p), getattr(mod, "density" if fn == "default" else fn)(t, s, p), "function of the named equation of state", rtol=1e-12)
        if rng.random() < 0.3:
            ctx.rejects(U.eos_func_from_str, str(rng.choice(["unesco", "", "wrigh", "linear2"])))

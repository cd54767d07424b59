"""C27 netCDF round trips of results."""
import os

import netCDF4
import numpy as np
import xarray as xr

from vmon import catalogue as K
from vmon import gen as G
from vmon import oracle as O

CASES = {"quick": 900, "thorough": 9000}
RULE = (
    "results of steric (variant x domain x dtype x annual x equation of state x calendar), averages, trends, seasonal fits and tide gauges, "
    "computed from in-memory, lazy and file-backed inputs (with encodings), written to netCDF in a scratch directory and read back: labels, missing pattern, "
    "values to the stored precision, stored data type; distinct by feature tuple"
)
ASSUMPTIONS = ["netCDF4 files written by xarray; site names are valid netCDF variable names"]


def to_file(ctx, o, enc=None):
    n = ctx.extra_n = getattr(ctx, "extra_n", 0) + 1
    path = os.path.join(ctx.tmpdir(), f"f{n}.nc")
    o.to_netcdf(path, encoding=enc or {})
    return path


def from_file(ctx, o):
    """the same object, as a file delivers it"""
    rng = ctx.rng
    name = None
    if isinstance(o, xr.DataArray):
        if not o.dims or (len(o.dims) == 1 and o.name == o.dims[0]):
            return o
        name = o.name
        ds = o.to_dataset()
    else:
        ds = o
    enc = {}
    for v in ds.data_vars:
        if ds[v].dtype.kind == "f" and ds[v].ndim:
            e = {"_FillValue": 1e20}
            if rng.random() < 0.4:
                e.update(zlib=True, complevel=1, shuffle=True, chunksizes=tuple(ds[v].shape))
            enc[v] = e
    with xr.open_dataset(to_file(ctx, ds, enc), use_cftime=True if any(ds[c].dtype == object for c in ds.coords) else None) as f:
        out = f.load()
    return out[name] if name else out


def written(ctx, res, what, dtype=None, tol=None):
    """writes a result, reads it back and compares"""
    if isinstance(res, xr.DataArray):
        res = res.to_dataset(name=res.name or "result")
    n = ctx.extra_n = getattr(ctx, "extra_n", 0) + 1
    path = os.path.join(ctx.tmpdir(), f"r{n}.nc")
    ctx.ncalls += 1
    try:
        res.to_netcdf(path)
    except Exception as e:  # noqa: BLE001
        ctx.fail(f"{what}: cannot be written to netCDF ({type(e).__name__})", str(e)[:800])
    obj = any(res[c].dtype == object and len(res[c]) and hasattr(np.ravel(res[c].values)[0], "calendar") for c in res.coords if res[c].ndim)
    with xr.open_dataset(path, use_cftime=True if obj else None) as f:
        back = f.load()
    stored = {}
    with netCDF4.Dataset(path) as f:
        for v in f.variables:
            stored[v] = f.variables[v].dtype
    ctx.count("files written")
    ctx.count("bytes written", os.path.getsize(path))
    os.remove(path)
    ctx.check(set(back.data_vars) == set(res.data_vars), f"{what}: variables after the round trip", lambda: f"{list(back.data_vars)} {list(res.data_vars)}")
    ref = res.compute()
    for v in res.data_vars:
        st = stored[str(v)]
        if dtype is not None:
            ctx.check(st == np.dtype(dtype), f"{what}: {v} is not stored in the requested type", lambda: f"{st} instead of {dtype}")
        a, b = back[v], ref[v]
        eps = 1e-12 if st == np.float64 else 2e-7 if st == np.float32 else 0.0
        if b.dtype.kind == "f" and st not in (np.float32, np.float64):
            ctx.fail(f"{what}: {v} stored as {st}")
        ctx.check(tuple(a.dims) == tuple(b.dims), f"{what}: dimensions of {v}", lambda: f"{a.dims} {b.dims}")
        if b.dtype == np.float64 and dtype is None:
            ctx.check(st == np.float64, f"{what}: {v} lost precision", lambda: str(st))
        ctx.equal_xr(a.astype(float) if a.dtype.kind == "f" else a, b, f"{what}: {v} after the round trip", rtol=eps, atol=1e-40)
    for c in ref.coords:
        if ref[c].dtype.kind in "fiO":
            ctx.check(c in back.coords or c in back.variables, f"{what}: coordinate {c} after the round trip")


def steric_case(ctx):
    import momlevel as ml
    rng = ctx.rng
    fn = getattr(ml, ctx.pick("variant", ["steric", "thermosteric", "halosteric"]))
    dom = ctx.pick("domain", ["local", "global"])
    dtype = ctx.pick("dtype", ["float32", "float64", "default"])
    annual = ctx.flip("annual", 0.5)
    eos = ctx.pick("eos", ["Wright", "linear"])
    cal = ctx.pick("calendar", O.CALENDARS)
    cs = K.grid(ctx)
    cs["time"] = G.obj_time(G.monthly_axis(rng, 1999, int(rng.integers(1, 3)), cal))
    ds = K.ocean_ds(ctx, cs)
    src = ctx.pick("source", ["memory", "file", "lazy", "lazy file"])
    if "file" in src:
        ds = from_file(ctx, ds)
    if "lazy" in src:
        ds = ds.chunk({"time": 5})
    kw = {"domain": dom, "equation_of_state": eos}
    if dtype != "default":
        kw["dtype"] = dtype
    if annual:
        kw["annual"] = True
    pa = ctx.pick("patm", ["default", "scalar", "field"], p=[0.5, 0.2, 0.3])
    if pa == "scalar":
        kw["patm"] = float(rng.uniform(0, 2e5)) if rng.random() < 0.5 else np.float64(rng.uniform(0, 2e5))
    elif pa == "field":
        kw["patm"] = xr.full_like(ds["areacello"], 0.0) + rng.uniform(9e4, 1.1e5, ds["areacello"].shape)
    if rng.random() < 0.3:
        kw["rhozero"] = np.float32(1025.0) if rng.random() < 0.3 else 1025
    if rng.random() < 0.3:
        kw["strict"] = bool(rng.random() < 0.5)
    if rng.random() < 0.2:
        kw["verbose"] = True
    how = ctx.pick("reference", ["none", "given", "given file"])
    if how != "none":
        _, ref = ctx.call(fn, ds.isel(time=slice(0, 12)), domain=dom, equation_of_state=eos)
        kw["reference"] = from_file(ctx, ref.compute()) if how == "given file" else ref
    res, ref = ctx.call(fn, ds, **kw)
    written(ctx, res, fn.__name__, dtype="float32" if dtype == "default" else dtype)
    if rng.random() < 0.5:
        written(ctx, ref, fn.__name__ + " reference")


def other_case(ctx):
    rng = ctx.rng
    b = [K.b_average, K.b_trend, K.b_season, K.b_gauge][int(rng.integers(4))]
    c = b(ctx)
    if c.names:
        c = K.vary(ctx, c, skip=("ints", "layout", "single", "noname", "curvilinear"))
    ctx.note(call=c.name)
    for k, v in c.kwargs.items():
        if isinstance(v, (str, bool)) and k != "csv":
            ctx.note(**{"kw_" + k: v})
    src = ctx.pick("source", ["memory", "file", "lazy"], p=[0.4, 0.4, 0.2])
    if src == "file":
        c = c.mapped(lambda o: from_file(ctx, o))
    elif src == "lazy" and c.name != "broadcast_trend":
        c = c.mapped(lambda o: o.chunk() if isinstance(o, xr.Dataset) or o.ndim > 1 else o)
    res = ctx.call(c)
    for i, r in enumerate(res if isinstance(res, tuple) else (res,)):
        if isinstance(r, (xr.DataArray, xr.Dataset)):
            written(ctx, r, c.name)


def bundled_case(ctx):
    """the tide gauges that come with the package"""
    import momlevel as ml
    rng = ctx.rng
    which = ctx.pick("csv", ["us", "global"])
    n, m = 9, 18
    la = xr.DataArray(np.linspace(-80, 80, n)[:, None] + np.zeros((n, m)), dims=("yh", "xh"), coords={"yh": np.arange(n) * 1.0, "xh": np.arange(m) * 1.0}, name="geolat")
    lo = xr.DataArray(np.linspace(-180, 160, m)[None, :] + np.zeros((n, m)), dims=("yh", "xh"), coords=la.coords, name="geolon")
    tv = G.obj_time(G.monthly_axis(rng, 1999, 1, "noleap"))
    a = xr.DataArray(rng.normal(size=(12, n, m)), dims=("time", "yh", "xh"), coords={"time": tv, "yh": la.yh, "xh": la.xh}, name="ssh", attrs={"units": "m", "long_name": "sea level"})
    with_t = ctx.flip("threshold", 0.5)
    res = ctx.call(ml.extract_tidegauge, a, xcoord=lo, ycoord=la, csv=which, **({"threshold": 800.0} if with_t else {}))
    written(ctx, res, "extract_tidegauge " + which)


def case(ctx):
    fam = ctx.pick("family", ["steric", "other", "bundled"], p=[0.5, 0.48, 0.02])
    {"steric": steric_case, "other": other_case, "bundled": bundled_case}[fam](ctx)

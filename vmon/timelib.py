"""Random time series objects (arrays and datasets) with their plain arrays, time first."""
import numpy as np
import xarray as xr

from vmon import gen as G

TNAMES = ["time", "Time", "t", "year_axis", "month_axis"]


def build(ctx, tvals, kinds=("f8", "f4", "i4", "bool"), nan=True, tname=None, lazy=None, static=True):
    """returns (xobj, plain, tname); plain maps name (None for an array) to (array, dims)."""
    rng = ctx.rng
    nt = len(tvals)
    tn = tname or ctx.pick("tname", TNAMES, p=[0.6, 0.1, 0.1, 0.1, 0.1])
    form = ctx.pick("form", ["array", "dataset"])
    permute = ctx.flip("permute", 0.4)
    lazy = ctx.flip("lazy", 0.15) if lazy is None else lazy
    ctx.features["lazy"] = lazy
    ny, nx = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    if nt <= 60 and ctx.flip("many points", 0.02):
        ny, nx = int(rng.integers(20, 40)), int(rng.integers(30, 60))
    elif nt <= 60 and ctx.flip("long", 0.03):
        ny, nx = G.perm(rng, [G.long_size(rng), int(rng.integers(1, 3))])
    nm = int(rng.integers(1, 4))
    yl, xl = G.labels(rng, ny), G.labels(rng, nx)
    wc = ctx.flip("coords", 0.7)

    def one(name, forced=None):
        dims = [(tn,), (tn, "yh", "xh"), (tn, "xh"), (tn, "member", "yh", "xh")][int(rng.choice(4, p=[0.3, 0.3, 0.3, 0.1]))] if forced is None else forced
        shp = tuple({tn: nt, "yh": ny, "xh": nx, "member": nm}[d] for d in dims)
        k = kinds[int(rng.choice(len(kinds), p=([0.6] + [0.4 / (len(kinds) - 1)] * (len(kinds) - 1)) if len(kinds) > 1 else [1.0]))]
        a = rng.normal(float(rng.choice([0.0, 10.0, 300.0])), float(rng.choice([1.0, 1e-4, 50.0])), shp)
        if k in ("f8", "f4") and rng.random() < 0.12:
            a = a * float(rng.choice([1e21, 1e-15, 1e12] if k == "f8" else [1e13, 1e-10]))  # total masses, heat contents, tiny rates
        if k == "i4":
            a = np.round(a).astype("i4" if rng.random() < 0.6 else "i8")
        elif k == "bool":
            a = a > np.median(a)
        else:
            if nan:
                m = rng.integers(4)
                if m == 1:
                    a[rng.random(shp) < 0.1] = np.nan
                elif m == 2:
                    a[rng.random(shp) < 0.5] = np.nan
                elif m == 3 and len(dims) > 1:
                    a[:, rng.random(shp[1:]) < 0.4] = np.nan
                if rng.random() < 0.1 and nt >= 12:
                    a[:12] = np.nan
            a = a.astype(k)
        c = {}
        if tn in dims:
            c[tn] = tvals
        if wc:
            c.update({d: {"yh": yl, "xh": xl}[d] for d in dims if d in ("yh", "xh")})
        da = xr.DataArray(a, dims=dims, coords=c, name=name)
        da.attrs = {"units": "K", "long_name": f"field {name}", "missing": int(rng.integers(9))}
        for d in c:
            da[d].attrs = {"long_name": f"axis {d}", "axis": str(d)[0].upper()}
        if permute:
            da = da.transpose(*G.perm(rng, dims))
        if lazy and dims:
            da = G.chunk(rng, da)
        return da, a, dims

    if form == "array":
        da, a, dims = one(ctx.rng.choice(["zos", "thetao", None]))
        if rng.random() < 0.2:
            da = da.assign_coords(scalar=3.5)
        return da, {None: (a, dims)}, tn, (wc, yl, xl)
    ds, plain = xr.Dataset(), {}
    for n in G.perm(rng, ["zos", "tos", "Alpha", "b2"])[: int(rng.integers(1, 5))]:
        da, a, dims = one(n)
        ds[n] = da
        plain[n] = (a, dims)
    if tn not in ds.dims:
        da, a, dims = one("zz", (tn,))
        ds["zz"] = da
        plain["zz"] = (a, dims)
    if static and rng.random() < 0.3:
        da, a, dims = one("static", ("yh", "xh"))
        ds["static"] = da
        plain["static"] = (a, dims)
        if a.dtype == bool or a.dtype.kind == "i":
            pass
    if rng.random() < 0.35:
        ds["text"] = ((tn,), np.array(["a"] * nt, dtype=object))
        ctx.features["text"] = True
    if rng.random() < 0.3:
        ds["bnds"] = ((tn, "nv"), np.stack([tvals, tvals], axis=1))
        ctx.features["bnds"] = True
    ds.attrs = {"title": "record", "n": 4}
    return ds, plain, tn, (wc, yl, xl)


def result_coords(da_dims, info, tn, newt):
    wc, yl, xl = info
    c = {tn: newt}
    if wc:
        if "yh" in da_dims:
            c["yh"] = yl
        if "xh" in da_dims:
            c["xh"] = xl
    return c

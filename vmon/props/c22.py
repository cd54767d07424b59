"""C22 inputs are not modified."""
import numpy as np
import pandas as pd
import xarray as xr

from vmon import catalogue as K
from vmon import gen as G

CASES = {"quick": 4000, "thorough": 40000}
RULE = (
    "every public calculation with random arguments (in memory and lazy, permuted, with attributes and encodings on variables and "
    "coordinates), valid and rejected calls; deep fingerprints of all arguments compared around each call; distinct by feature tuple"
)
ASSUMPTIONS = ["reset_encoding is exempt: it edits in place by design"]


def fp(o):
    if isinstance(o, xr.Dataset):
        return ("ds", tuple((str(k), fp_var(o.variables[k])) for k in o.variables), tuple(map(str, o.coords)), freeze(o.attrs), freeze(o.encoding), tuple(o.dims.items()))
    if isinstance(o, xr.DataArray):
        return ("da", str(o.name), fp_var(o.variable), tuple((str(k), fp_var(o.coords[k].variable)) for k in o.coords))
    if isinstance(o, pd.DataFrame):
        return ("df", tuple(map(str, o.columns)), repr(list(o.index)), tuple(map(str, o.dtypes)), repr(o.values.tolist()), freeze(o.attrs), str(o.index.names))
    if isinstance(o, np.ndarray):
        return ("np", str(o.dtype), o.shape, arr_bytes(o), o.flags.writeable)
    if isinstance(o, dict):
        return ("dict", tuple((repr(k), fp(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(fp(v) for v in o))
    return repr(o)


def freeze(d):
    return tuple((repr(k), repr(v)) for k, v in d.items())


def arr_bytes(a):
    return repr(a.tolist()) if a.dtype == object else a.tobytes()


def fp_var(v):
    chunks = repr(v.chunks)
    val = v.data
    if v.chunks is not None:
        val = np.asarray(val.compute())
    else:
        val = v.values
    return (v.dims, str(v.dtype), v.shape, chunks, arr_bytes(np.asarray(val)), freeze(v.attrs), freeze(v.encoding))


ENC = {"zlib": True, "complevel": 3, "_FillValue": 1e20, "units": "days since 1900-01-01", "calendar": "noleap", "dtype": "float64", "chunksizes": (1,), "preferred_chunks": {"time": 1},
       "source": "in.nc", "original_shape": (3,), "scale_factor": 2.0, "add_offset": 1.0, "coordinates": "geolon geolat", "missing_value": 1e20, "shuffle": False}


def dress(rng):
    """adds attributes and encodings everywhere, or removes them all"""
    bare = rng.random() < 0.25

    def f(o):
        o = o.copy(deep=True)
        if bare:
            for v in [o] if isinstance(o, xr.DataArray) else [o[k] for k in o.variables]:
                v.attrs = {}
                v.encoding = {}
                for c in v.coords:
                    v[c].attrs = {}
            o.attrs = {}
            return o
        if isinstance(o, xr.DataArray):
            o.attrs.setdefault("history", "made here")
            if rng.random() < 0.5:
                o.attrs["standard_name"] = "some_name"
            o.encoding["dtype"] = "float32"
            for c in o.coords:
                o[c].attrs["comment"] = "coordinate " + str(c)
                o[c].encoding.update(ENC)
            if rng.random() < 0.5:
                o.encoding.update(ENC)
        else:
            for v in o.variables:
                o[v].attrs.setdefault("history", "made here")
                o[v].encoding.update(ENC)
            o.encoding.update(source="mem.nc", unlimited_dims={"time"})
            o.attrs.setdefault("history", "made here")
        return o

    return f


def diff(a, b, path=""):
    if type(a) is not type(b) or (isinstance(a, tuple) and len(a) != len(b)):
        return f"{path}: {str(a)[:120]} -> {str(b)[:120]}"
    if isinstance(a, tuple):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f"{path}/{i if not isinstance(x, str) else x}")
    return f"{path}: {str(a)[:120]} -> {str(b)[:120]}"


def case(ctx):
    rng = ctx.rng
    c = K.draw(ctx, f4=True).mapped(dress(rng))
    if not c.fixed_order and c.names and ctx.flip("permute", 0.35):
        c = c.mapped(lambda o: o.transpose(*G.perm(rng, o.dims)) if isinstance(o, xr.DataArray) or c.name != "extract_tidegauge" else o) if c.name != "extract_tidegauge" else c
    lazy = c.names and ctx.flip("lazy", 0.15)
    if lazy:
        from vmon.props import c23
        c = c23.chunked(ctx, c)
    bad = c.bad is not None and ctx.flip("rejected", 0.25)
    if bad:
        c.kwargs.update(c.bad)
    before = fp([c.args, c.kwargs])
    if bad:
        ctx.attempt(c)
    elif lazy:
        ok, out = ctx.attempt(c)
        if ok:
            ctx.attempt(lambda: K.computed(out))
    else:
        out = ctx.call(c)
    after = fp([c.args, c.kwargs])
    ctx.count("objects fingerprinted", len(c.args) + len(c.kwargs))
    ctx.check(before == after, f"{c.name} modified its input", lambda: diff(before, after))
    if not bad and not lazy and rng.random() < 0.3:
        # a second call on the same objects, after the result of the first was used
        ctx.attempt(lambda: K.computed(out))
        ctx.call(c)
        ctx.check(fp([c.args, c.kwargs]) == before, f"{c.name} modified its input (second call)", lambda: diff(before, fp([c.args, c.kwargs])))

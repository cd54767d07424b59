"""C16 time units and broadcasting of trends."""
import itertools

import numpy as np
import xarray as xr

from vmon import gen as G
from vmon import oracle as O
from vmon import trendlib as L

CASES = {"quick": 4800, "thorough": 48000}
RULE = (
    "every pair and triple of units with random month and year lengths; slopes of random dims, units texts and dtypes broadcast on cftime, "
    "datetime64 and numeric axes of any name, compared with slope times converted axis; trends in every unit broadcast back to one line; "
    "distinct by feature tuple"
)
ASSUMPTIONS = ["the units text of a slope names at most one inverse unit (others are rejected by the shipped code)"]


def case(ctx):
    from momlevel import trend as TR
    rng = ctx.rng
    part = ctx.pick("part", ["factor", "broadcast", "roundtrip"], p=[0.35, 0.4, 0.25])
    if part == "factor":
        kw, dpm, dpy = {}, 30.417, 365.0
        if ctx.flip("dpm", 0.4):
            dpm = float(rng.choice([28.0, 30.0, 30.4375, 31.0, rng.uniform(25, 35)]))
            kw["days_per_month"] = dpm if rng.random() < 0.7 or dpm != int(dpm) else int(dpm)
        if ctx.flip("dpy", 0.4):
            dpy = float(rng.choice([360.0, 365.25, 366.0, 365.2425, rng.uniform(300, 700)]))
            kw["days_per_year"] = dpy if rng.random() < 0.7 or dpy != int(dpy) else int(dpy)
        a, b, c = (ctx.pick(k, L.UNITS) for k in ("a", "b", "c"))
        f = lambda u, v: ctx.call(TR.time_conversion_factor, u, v, **kw)  # noqa: E731
        fab = f(a, b)
        exp = O.unit_ns(a, dpm, dpy) / O.unit_ns(b, dpm, dpy)
        ctx.close(fab, exp, "factor", rtol=1e-13)
        ctx.close(fab * f(b, a), 1.0, "reciprocal", rtol=1e-13)
        ctx.close(fab * f(b, c), f(a, c), "transitive", rtol=1e-13)
        ctx.close(f(a, a), 1.0, "identity", rtol=1e-14)
        if ctx.flip("bad", 0.3):
            u = ctx.pick("badunit", ["year", "years", "sec", "d", "h", "month", "NS", "", "Day", "ms", "us", " yr"])
            if rng.random() < 0.5:
                ctx.rejects(TR.time_conversion_factor, u, b, **kw)
            else:
                ctx.rejects(TR.time_conversion_factor, a, u, **kw)
        return
    nt = G.size(ctx, "nt", (2, 20), (50, 300), 0.1)
    vals, x, kind = L.axis(ctx, nt, fast=part == "broadcast")
    isT = kind in ("cftime", "datetime64")
    dim = ctx.pick("dim", ["time", "Time", "z_l"], p=[0.5, 0.25, 0.25])
    ax = xr.DataArray(vals, dims=(dim,), coords={dim: vals}, name=dim)
    if part == "broadcast":
        od = [(), ("xh",), ("yh", "xh"), ("member", "yh", "xh")][int(rng.choice(4, p=[0.3, 0.3, 0.3, 0.1]))]
        os_ = tuple(int(rng.integers(1, 5)) for _ in od)
        if od and nt < 20 and rng.random() < 0.04:
            os_ = tuple(G.perm(rng, [G.long_size(rng)] + [2] * (len(od) - 1)))
        s = rng.normal(0, 1, os_)
        if rng.random() < 0.3 and od:
            s[rng.random(os_) < 0.3] = np.nan
        dt = ctx.pick("dtype", ["f8", "f4", "i4", "i8"], p=[0.75, 0.1, 0.08, 0.07])
        if dt in ("i4", "i8"):
            s = np.round(np.nan_to_num(s) * 5)
        sr = s.astype(dt)
        s = sr.astype(float)
        c = {d: G.labels(rng, n) for d, n in zip(od, os_) if rng.random() < 0.7}
        sl = xr.DataArray(sr, dims=od, coords=c, name=str(rng.choice(["slope", "zos_slope"])))
        u = ctx.pick("unit", L.UNITS + ["none", "plain"])
        if u == "plain":
            sl.attrs["units"] = str(rng.choice(["m", "", "degC"]))
        elif u != "none":
            sl.attrs["units"] = str(rng.choice([f"m {u}-1", f"{u}-1", f"K  {u}-1", f"{u}-1 m"]))
        if rng.random() < 0.4:
            sl.attrs["long_name"] = "a slope"
        kw = {}
        z = ctx.flip("zero", 0.5)
        if z:
            kw["subtract_time_zero"] = True
        if rng.random() < 0.12:
            sl = G.chunk(rng, sl)
        f = 1.0
        if isT and u in L.UNITS:
            f = 1.0 / O.unit_ns(u)
        got = ctx.call(TR.broadcast_trend, sl, ax, **kw)
        xs = (x - x[0] if z else x).reshape((-1,) + (1,) * len(od))
        e = s * f * xs
        ctx.same(got, e, (dim,) + od, "broadcast trend", rtol=1e-5 if dt == "f4" else 1e-10,
                 atol=np.nan_to_num(np.abs(s) * f * np.abs(x).max()) * (1e-6 if dt == "f4" else 1e-13) * np.ones_like(e), coords={dim: vals, **c})
        if ctx.flip("bad", 0.1):
            w = ctx.pick("how", ["type", "ndim", "axis", "two", "unknown"])
            if w == "type":
                ctx.rejects(TR.broadcast_trend, 3.0, ax)
            elif w == "ndim":
                ctx.rejects(TR.broadcast_trend, sl, xr.DataArray(np.zeros((2, 2)), dims=("a", "b"), coords={"a": [0, 1], "b": [0, 1]}))
            elif w == "axis":
                ctx.rejects(TR.broadcast_trend, sl, np.asarray(vals))
            elif isT:
                ctx.rejects(TR.broadcast_trend, sl.assign_attrs(units="m day-1 yr-1" if w == "two" else "m fortnight-1"), ax)
        return
    # a trend computed in any unit is the same line
    da, plain, od, cs = L.field(ctx, dim, vals, x, nan=False)
    da.attrs["units"] = "m"
    ref = None
    us = G.perm(rng, L.UNITS)[:3] if isT else [None]
    ss, bb, ok, xm = L.fit(x, plain)
    scale = max(np.abs(plain).max(), 1e-12)
    far = max(1.0, np.abs(x).max() / (x[-1] - x[0]))
    e = ss * x.reshape((-1,) + (1,) * len(od))
    tol = scale * far * min(1e-10 * far if da.dtype != np.float32 else 1e-5 * far, 0.05) + 1e-300
    for u in us:
        kw = {"dim": dim}
        if u is not None:
            kw["time_units"] = u
        ds = ctx.call(TR.calc_linear_trend, da, **kw)
        line = ctx.call(TR.broadcast_trend, ds[f"{da.name}_slope"], da[dim])
        ctx.same(line, e, (dim,) + od, "line rebuilt from a trend", rtol=1e-6, atol=tol)
        v = line.transpose(dim, *od).values
        if ref is not None:
            ctx.close(v, ref, "lines from two units", rtol=1e-9, atol=scale * 1e-12)
        ref = v

"""Axes and arrays for trend checks."""
import numpy as np
import xarray as xr

from vmon import gen as G
from vmon import oracle as O

UNITS = ["ns", "s", "min", "hr", "day", "mon", "yr"]


def ns_since_1970(t):
    """cftime object -> exact nanoseconds since 1970-01-01 of its own calendar (float)"""
    d = t - O.cf(1970, 1, 1, cal=t.calendar)
    return (d.days * 86400 + d.seconds) * 1e9 + d.microseconds * 1e3


def axis(ctx, nt, name="axis", fast=False):
    """returns (values for the coordinate, index as floats, kind)"""
    rng = ctx.rng
    kind = ctx.pick(name, ["cftime", "datetime64", "float", "int"], p=[0.5, 0.2, 0.2, 0.1])
    if kind == "cftime":
        cal = ctx.pick("calendar", O.CALENDARS)
        y0 = G.start_year(ctx, cal)
        if cal in ("standard", "gregorian", "proleptic_gregorian", "julian") and y0 < 1600:
            y0 = 1650
        step = ctx.pick("step", ["monthly", "daily", "irregular", "hourly"] + (["fast"] if fast else []))
        if step == "monthly":
            v = G.monthly_axis(rng, y0, nt // 12 + 1, cal, str(rng.choice(["mid", "first", "any"])))[:nt]
        else:
            import datetime

            base = O.cf(y0, int(rng.integers(1, 13)), 1, cal=cal)
            if step == "daily":
                secs = 86400 * np.arange(nt)
            elif step == "hourly":
                secs = 3600 * np.arange(nt)
            else:
                secs = np.cumsum(rng.integers(3600, 86400 * 40, nt))
            if step == "fast":
                secs = np.cumsum(rng.integers(20, 900, nt)) / 1000
            v = [base + datetime.timedelta(milliseconds=int(round(s * 1000))) for s in secs]
        v = G.obj_time(v)
        return v, np.array([ns_since_1970(t) for t in v]), kind
    if kind == "datetime64":
        start = np.datetime64(str(rng.choice(["1700-01-01", "1969-12-01", "1970-01-01", "1993-02-03", "2100-06-01"])), "ns")
        step = ctx.pick("step", ["daily", "irregular", "hourly"] + (["fast"] if fast else []))
        if step == "daily":
            secs = 86400 * np.arange(nt)
        elif step == "hourly":
            secs = 3600 * np.arange(nt)
        else:
            secs = np.cumsum(rng.integers(3600, 86400 * 40, nt))
        if step == "fast":
            v = start + np.cumsum(rng.integers(20, 900, nt)).astype("timedelta64[ms]").astype("timedelta64[ns]")
            return v, v.astype("int64").astype(float), kind
        v = start + secs.astype("timedelta64[s]").astype("timedelta64[ns]")
        return v, v.astype("int64").astype(float), kind
    if kind == "float":
        v = np.cumsum(rng.uniform(0.1, 5.0, nt)) + float(rng.choice([0.0, -20.0, 1000.0]))
        return v, v, kind
    v = np.arange(nt) + int(rng.choice([0, 1, -5, 1990]))
    return v, v.astype(float), kind


def field(ctx, dim, vals, x, nan=True, name="auto", lazy=None):
    """array with trend plus noise; returns (DataArray, plain array with dim first, other dims)"""
    rng = ctx.rng
    nt = len(vals)
    od = [(), ("xh",), ("yh", "xh"), ("xh", "lev"), ("member", "yh", "xh")][int(rng.choice(5, p=[0.2, 0.2, 0.35, 0.15, 0.1]))]
    od = tuple(d for d in od if d != dim)
    os_ = tuple(int(rng.integers(1, 5)) for _ in od)
    if od and nt <= 60 and ctx.flip("many points", 0.02):
        os_ = tuple(int(rng.integers(40, 70)) for _ in od)
    elif od and nt <= 60 and ctx.flip("long", 0.03):
        os_ = tuple(G.perm(rng, [G.long_size(rng)] + [2] * (len(od) - 1)))
    s = (x - x[0]) / max(x[-1] - x[0], 1e-300)
    amp = float(rng.choice([1.0, 1e-3, 1e3, 1e20, 1e-12], p=[0.35, 0.25, 0.25, 0.1, 0.05]))
    a = amp * (rng.normal(0, 3, os_) * s.reshape((-1,) + (1,) * len(od)) + rng.normal(0, 1, os_) * 5 + rng.normal(0, 0.3, (nt,) + os_))
    m = ctx.pick("data", ["noise", "exact", "const", "zero"], p=[0.7, 0.15, 0.1, 0.05])
    if m == "exact":
        a = amp * (rng.normal(0, 3, os_) * s.reshape((-1,) + (1,) * len(od)) + rng.normal(0, 5, os_))
    elif m == "const":
        a = np.broadcast_to(rng.normal(0, 5, os_), (nt,) + os_).copy()
    elif m == "zero":
        a = np.zeros((nt,) + os_)
    dt = ctx.pick("dtype", ["f8", "f4", "i4"], p=[0.75, 0.15, 0.1])
    nn = ctx.pick("missing", ["none", "some", "many", "columns"], p=[0.4, 0.25, 0.15, 0.2]) if nan else "none"
    if dt != "f8" and amp > 1e6:
        a = a / 1e14  # within the range of the type
    if dt == "i4":
        a = np.round(a).astype("i4" if rng.random() < 0.6 else "i8")
    else:
        if nn == "some":
            a[rng.random(a.shape) < 0.1] = np.nan
        elif nn == "many":
            a[rng.random(a.shape) < 0.6] = np.nan
        elif nn == "columns" and od:
            a[:, rng.random(os_) < 0.4] = np.nan
        a = a.astype(dt)
    nm = {"auto": rng.choice(["zos", "tos", "my_var"])}.get(name, name)
    c = {dim: vals}
    for d, n in zip(od, os_):
        if rng.random() < 0.7:
            c[d] = G.labels(rng, n)
    da = xr.DataArray(a, dims=(dim,) + od, coords=c, name=None if nm is None else str(nm))
    if rng.random() < 0.75:
        da.attrs["units"] = str(rng.choice(["m", "K", "degC", "kg m-2", "m s-1", "1"]))
    da.attrs["long_name"] = "a field"
    plain = a.astype(float)
    lz = ctx.flip("lazy", 0.12) if lazy is None else lazy
    if od and ctx.flip("permute", 0.4):
        da = da.transpose(*G.perm(rng, da.dims))
    if lz:
        da = G.chunk(rng, da)
    return da, plain, od, c


def fit(x, plain):
    """slope and intercept (at x = 0), mask of the well-defined points"""
    nt = len(x)
    y = plain.reshape(nt, -1)
    s, b, ok = np.full(y.shape[1], np.nan), np.full(y.shape[1], np.nan), np.zeros(y.shape[1], bool)
    mid = np.full(y.shape[1], np.nan)
    for j in range(y.shape[1]):
        g = ~np.isnan(y[:, j])
        if g.sum() >= 2:
            xm, ym = x[g].mean(), y[g, j].mean()
            dx = x[g] - xm
            s[j] = (dx * (y[g, j] - ym)).sum() / (dx * dx).sum()
            b[j] = ym - s[j] * xm
            mid[j] = xm
            ok[j] = True
    sh = plain.shape[1:]
    return s.reshape(sh), b.reshape(sh), ok.reshape(sh), mid.reshape(sh)

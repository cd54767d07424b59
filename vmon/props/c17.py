"""C17 seasonal models."""
import numpy as np
import xarray as xr

from vmon import gen as G
from vmon.core import Skip
from vmon import oracle as O

CASES = {"quick": 3000, "thorough": 30000}
RULE = (
    "monthly, daily and irregular records of 1-12 years in every calendar and on datetime64 axes, series made of the six model terms, noise "
    "or both, missing points, any time name and position, f8/f4/integer, lazy with any chunking; models, residuals and coefficients compared with an "
    "independent QR fit, orthogonality and exact-reproduction checked; distinct by feature tuple"
)
ASSUMPTIONS = [
    "daily form: contiguous daily data on a cftime axis (the routine counts days)",
    "decimal year of seasonal_model is year + (day of year - 1 + hour/24)/365, as shipped, in every calendar",
    "records of at least half a year, so that the six terms are independent",
]


def lsq(A, y):
    """QR fit; y (n, m)"""
    sc = np.sqrt((A * A).sum(axis=0))
    q, r = np.linalg.qr(A / sc)
    c = np.linalg.solve(r, q.T @ y)
    return (c.T / sc).T, np.linalg.cond(A / sc)


def data(ctx, A, dims, shp):
    rng = ctx.rng
    nt = len(A)
    m = int(np.prod(shp)) if shp else 1
    kind = ctx.pick("data", ["noise", "exact", "both"], p=[0.3, 0.3, 0.4])
    y = np.zeros((nt, m))
    if kind != "noise":
        y = y + A @ rng.normal(0, 3, (6, m))
    if kind != "exact":
        y = y + rng.normal(float(rng.choice([0.0, 20.0])), 1, (nt, m))
    if ctx.flip("magnitude", 0.12):
        y = y * float(rng.choice([1e20, 1e-12, 1e8]))
    nn = ctx.pick("missing", ["none", "columns", "points"], p=[0.6, 0.25, 0.15])
    if nn == "columns":
        y[:, rng.random(m) < 0.4] = np.nan
    elif nn == "points":
        for j in range(m):
            if rng.random() < 0.4:
                y[int(rng.integers(nt)), j] = np.nan
    return y, kind


def case(ctx):
    from momlevel import trend as TR
    rng = ctx.rng
    routine = ctx.pick("routine", ["seasonal_model", "deseason", "cycle"], p=[0.45, 0.4, 0.15])
    cal = ctx.pick("calendar", O.CALENDARS)
    y0 = G.start_year(ctx, cal)
    if routine == "cycle":
        n = int(rng.integers(150, 1500))
        dk = ctx.pick("daysinyear", ["default", "float", "int", "array"])
        kw = {}
        if dk == "default":
            td = np.arange(n) / 365.0
        elif dk in ("float", "int"):
            d = float(rng.choice([360, 365, 366])) if dk == "int" else float(rng.choice([365.0, 365.25, 360.0]))
            kw["daysinyear"] = int(d) if dk == "int" else d
            td = np.arange(n) / d
        else:
            ax = G.daily_axis(y0, n // 350 + 1, cal)[:n]
            n = len(ax)
            d = np.array([O.year_days(t.year, cal) for t in ax])
            kw["daysinyear"] = d
            td = np.concatenate([[0.0], np.cumsum(1.0 / d[1:])])
        A = O.harmonic_matrix(td)
        y, kind = data(ctx, A, (), ())
        out = ctx.call(TR.seasonal_cycle_model, y[:, 0], **kw)
        ctx.check(isinstance(out, tuple) and len(out) == 3, "three results")
        c, r, m = out
        verify(ctx, A, y, c[:, None], np.asarray(m)[:, None], np.asarray(r)[:, None], kind, 1e-11)
        return
    tn = ctx.pick("tname", ["time", "Time", "t"], p=[0.6, 0.2, 0.2])
    od = [(), ("xh",), ("yh", "xh"), ("z_l", "xh"), ("member", "yh", "xh")][int(rng.choice(5, p=[0.25, 0.25, 0.3, 0.12, 0.08]))]
    shp = tuple(int(rng.integers(1, 4)) for _ in od)
    many = bool(od) and ctx.flip("many points", 0.02)
    if many:
        shp = (int(rng.integers(100, 150)),) + (1,) * (len(od) - 1) if routine == "deseason" else tuple(int(rng.integers(30, 60)) for _ in od)
    if routine == "deseason":
        ny = int(rng.choice([1, 2, 3, 5], p=[0.5, 0.3, 0.15, 0.05]))
        if cal in ("standard", "gregorian") and y0 < 1583 and y0 + ny > 1582:
            ny = 1
        ax = G.daily_axis(y0, ny, cal, int(rng.choice([0, 12])))
        if ctx.flip("partial", 0.4):
            a = int(rng.integers(0, 100))
            if ny > 1 and rng.random() < 0.35:
                # from the last (or first) days of a year on
                a = O.year_days(ax[0].year, cal) + int(rng.integers(-2, 2))
            b = int(rng.integers(0, 80))
            ax = ax[a: len(ax) - b]
        d = np.array([O.year_days(t.year, cal) for t in ax])
        td = np.concatenate([[0.0], np.cumsum(1.0 / d[1:])])
        tv = G.obj_time(ax)
    else:
        ny = int(rng.choice([1, 2, 4, 12], p=[0.25, 0.35, 0.3, 0.1]))
        if cal in ("standard", "gregorian") and y0 < 1583 and y0 + ny > 1582:
            ny = 1
        src = ctx.pick("source", ["monthly", "daily", "irregular", "datetime64"], p=[0.5, 0.15, 0.2, 0.15]) if not many else "monthly"
        if src == "monthly":
            ax = G.monthly_axis(rng, y0, ny, cal, str(rng.choice(["mid", "first", "any"])))
        elif src == "daily":
            ax = G.daily_axis(y0, min(ny, 2), cal, int(rng.choice([0, 6, 12])))
        elif src == "irregular":
            ax = G.daily_axis(y0, ny, cal, 12)
            keep = np.sort(rng.choice(len(ax), max(60, len(ax) // 9), replace=False))
            ax = [ax[i] for i in keep]
        if src in ("monthly", "daily", "irregular") and ctx.flip("short", 0.3):
            # pieces of a year, in which the terms are nearly collinear
            k = int(rng.integers(7, 12)) if src == "monthly" else int(rng.integers(30, 300))
            a = int(rng.integers(0, max(1, len(ax) - k)))
            ax = ax[a: a + k]
        if src == "datetime64":
            cal = "proleptic_gregorian"
            st = np.datetime64(str(rng.choice(["1999-01-01T12", "1959-03-01T00", "2080-07-15T06"])), "ns")
            nd = int(rng.integers(250, 800))
            tv = st + np.arange(nd).astype("timedelta64[D]").astype("timedelta64[ns]")
            import pandas as pd

            ix = pd.DatetimeIndex(tv)
            ymdh = list(zip(ix.year, ix.month, ix.day, ix.hour))
        else:
            tv = G.obj_time(ax)
            ymdh = [(t.year, t.month, t.day, t.hour) for t in ax]
        doy = np.array([sum(O.month_days(y, cal)[: m - 1]) + dd for y, m, dd, _ in ymdh])
        td = np.array([y + (k - 1 + h / 24) / 365 for (y, m, dd, h), k in zip(ymdh, doy)])
    A = O.harmonic_matrix(td)
    y, kind = data(ctx, A, od, shp)
    f4 = ctx.flip("f4", 0.12)
    raw = y.astype("f4") if f4 else y
    if not f4 and not np.isnan(y).any() and np.abs(y).max() < 1e7 and ctx.flip("integers", 0.1):
        # whole numbers, as packed tide gauge records (mm) have
        raw = np.round(y * 10).astype(str(rng.choice(["i4", "i8"])))
        kind = "noise"
    y = raw.astype(float)
    nt = len(A)
    c = {tn: tv}
    for dname, n in zip(od, shp):
        if rng.random() < 0.75:
            c[dname] = G.labels(rng, n)
    da = xr.DataArray(raw.reshape((nt,) + shp), dims=(tn,) + od, coords=c, name=str(rng.choice(["zos", "tos"])), attrs={"units": "m", "long_name": "sea level"})
    if rng.random() < 0.15 and od:
        da = da.assign_coords(aux=((od[0],), np.arange(shp[0])))
    if od and ctx.flip("permute", 0.45):
        da = da.transpose(*G.perm(rng, da.dims))
    if ctx.flip("lazy", 0.3):
        da = G.chunk(rng, da)
    flat = lambda r: r.transpose(tn, *od).values.astype(float).reshape(nt, -1)  # noqa: E731
    if routine == "seasonal_model":
        kw = {} if tn == "time" and rng.random() < 0.7 else {"tcoord": tn}
        if ctx.flip("return_model", 0.6):
            out = ctx.call(TR.seasonal_model, da, return_model=True, **kw)
            ctx.check(isinstance(out, tuple) and len(out) == 2, "model and residuals")
            m, r = out
        else:
            m, r = None, ctx.call(TR.seasonal_model, da, **kw)
        for o in (m, r):
            if o is None:
                continue
            ctx.check(set(o.dims) == set(da.dims), "dimensions", lambda: f"{o.dims}")
            labels(ctx, o, c)
        verify(ctx, A, y, None, None if m is None else flat(m), flat(r), kind, 3e-6 if f4 else 1e-11)
        return
    kw = {} if tn == "time" and rng.random() < 0.7 else {"tdim": tn}
    if ctx.flip("bad", 0.05):
        if rng.random() < 0.5:
            ctx.rejects(TR.deseason, da, **{**kw, "output_format": str(rng.choice(["residual", "Model", "", "both"]))})
        else:
            ctx.rejects(TR.deseason, da, tdim="nowhere")
        return
    first = ctx.pick("format", ["default", "residuals"])
    r = ctx.call(TR.deseason, da, **kw, **({} if first == "default" else {"output_format": "residuals"}))
    m = ctx.call(TR.deseason, da, output_format="model", **kw)
    co = ctx.call(TR.deseason, da, output_format="coeff", **kw)
    for o in (r, m):
        ctx.check(set(o.dims) == set(da.dims), "dimensions", lambda: f"{o.dims}")
        labels(ctx, o, c)
    ctx.check(set(co.dims) == set(od) | {"coeff"} and co.sizes["coeff"] == 6, "dimensions of the coefficients", lambda: str(co.dims))
    ctx.check((r.chunks is not None) == (da.chunks is not None), "laziness follows the input")
    names = ["constant", "trend", "sin_annual", "cos_annual", "sin_semiannual", "cos_semiannual"]
    cc = co.sel(coeff=names).transpose("coeff", *od).values.astype(float).reshape(6, -1)
    verify(ctx, A, y, cc, flat(m), flat(r), kind, 3e-6 if f4 else 1e-11)


def labels(ctx, o, c):
    for d, v in c.items():
        ctx.check(d in o.coords and o[d].shape == np.shape(v) and bool((o[d].values == np.asarray(v)).all()), f"labels of a dimension after fitting")


def verify(ctx, A, y, c, m, r, kind, eps):
    bad = np.isnan(y).any(axis=0)
    good = ~bad
    scale = max(float(np.nanmax(np.abs(y))) if np.isfinite(y).any() else 1.0, 1e-300)
    allnan = np.isnan(y).all(axis=0)
    for o in (m, r):
        if o is not None and allnan.any():
            ctx.check(bool(np.isnan(o[:, allnan]).all()), "an empty point gives a value")
    if c is not None and allnan.any():
        ctx.check(bool(np.isnan(c[:, allnan]).all()), "an empty point has coefficients")
    if not good.any():
        ctx.ncompared += 1
        return
    coef, cond = lsq(A, y[:, good])
    if cond > 1e6:
        raise Skip()
    ctx.note(ill_conditioned=bool(cond > 100))
    tol = scale * eps * max(1.0, cond) * 10
    fit = A @ coef
    ctx.close(r[:, good], y[:, good] - fit, "residual", rtol=1e-7, atol=tol)
    if m is not None:
        ctx.close(m[:, good], fit, "model", rtol=1e-7, atol=tol)
        ctx.close((m + r)[:, good], y[:, good], "model plus residual", rtol=1e-6, atol=tol)
    if c is not None:
        ctx.close(c[:, good], coef, "coefficients", rtol=1e-6, atol=tol * max(1.0, cond))
    # orthogonality to the six terms
    An = A / np.sqrt((A * A).sum(axis=0))
    ctx.close(An.T @ r[:, good], np.zeros((6, int(good.sum()))), "residual is orthogonal to the terms", atol=tol * np.sqrt(len(A)))
    if kind == "exact":
        ctx.close(r[:, good], np.zeros_like(r[:, good]), "a series of model terms leaves no residual", atol=tol)

"""C15 trends and detrending."""
import numpy as np
import xarray as xr

from vmon import gen as G
from vmon import oracle as O
from vmon import trendlib as L

CASES = {"quick": 4000, "thorough": 40000}
RULE = (
    "random series on cftime (all calendars), datetime64, float and integer axes, regular and irregular, 2-200 samples, any dimension name "
    "and position, missing values, dtypes, lazy; slope, intercept, residual and correction compared with a centred plain least-squares fit; "
    "distinct by feature tuple"
)
ASSUMPTIONS = [
    "the axis increases (the array library requires it)",
    "points with fewer than two values have no line and are only required to be missing where the data are",
]


def case(ctx):
    from momlevel import trend as TR
    rng = ctx.rng
    nt = G.size(ctx, "nt", (3, 30), (60, 200), 0.1) if not ctx.flip("two samples", 0.04) else 2
    vals, x, kind = L.axis(ctx, nt)
    dim = ctx.pick("dim", ["time", "Time", "z_l", "n"], p=[0.6, 0.15, 0.15, 0.1])
    isT = kind in ("cftime", "datetime64")
    da, plain, od, cs = L.field(ctx, dim, vals, x)
    kw = {} if dim == "time" and rng.random() < 0.7 else {"dim": dim}
    s, b, ok, xm = L.fit(x, plain)
    span = x[-1] - x[0]
    far = max(1.0, np.abs(x).max() / span)
    scale = np.nanmax(np.abs(plain)) if np.isfinite(plain).any() else 1.0
    scale = max(scale, 1e-25)
    f4 = da.dtype == np.float32
    eps = (3e-6 if f4 else 1e-11) * far
    if eps > 0.02:
        eps = 0.02
    # fewer than three well-spread points magnify rounding
    few = np.zeros(ok.shape)
    y2 = plain.reshape(nt, -1)
    sp = np.array([np.ptp(x[~np.isnan(y2[:, j])]) / span if (~np.isnan(y2[:, j])).sum() > 1 else 1.0 for j in range(y2.shape[1])]).reshape(ok.shape)
    few = 1.0 / np.maximum(sp, 1e-6)
    if (few.max() if few.size else 1) > 1e3 and eps * 1e3 > 1e-3:
        eps = min(eps, 0.02)
    # ---- slope and intercept
    tu = ctx.pick("time_units", ["default"] + L.UNITS) if isT else ctx.pick("time_units", ["default", "yr"], p=[0.85, 0.15])
    tk = dict(kw)
    if tu != "default":
        tk["time_units"] = tu
    fac = O.unit_ns("ns" if tu == "default" else tu) if isT else 1.0
    ds = ctx.call(TR.calc_linear_trend, da, **tk)
    nm = da.name
    ctx.check(set(ds.data_vars) == {f"{nm}_slope", f"{nm}_intercept"}, "names of slope and intercept", lambda: str(list(ds.data_vars)))
    sl, ic = ds[f"{nm}_slope"], ds[f"{nm}_intercept"]
    ctx.check(set(sl.dims) == set(od) and set(ic.dims) == set(od), "dimensions of the trend")
    g = sl.transpose(*od).values if od else sl.values
    h = ic.transpose(*od).values if od else ic.values
    ctx.check(bool(np.isnan(np.asarray(g)[~np.isfinite(plain).any(axis=0)]).all()), "slope of an empty point")
    tol_s = scale / span * eps * few * fac
    ctx.close(np.asarray(g)[ok], (s * fac)[ok], "slope", rtol=1e-7 if not f4 else 1e-3, atol=tol_s[ok] if np.ndim(tol_s) else tol_s)
    tol_b = scale * eps * few * far
    ctx.close(np.asarray(h)[ok], b[ok], "intercept", rtol=1e-7 if not f4 else 1e-3, atol=tol_b[ok] if np.ndim(tol_b) else tol_b)
    for d in od:
        if d in cs:
            ctx.check((sl[d].values == cs[d]).all(), "labels of the slope")
    # ---- detrend
    mode = ctx.pick("mode", ["default", "remove", "correct"])
    dk = dict(kw)
    if mode != "default":
        dk["mode"] = mode
    form = ctx.pick("form", ["array", "dataset"])
    if form == "array":
        obj = da
        res = r = ctx.call(TR.linear_detrend, da, **dk)
    else:
        obj = xr.Dataset({nm: da})
        obj["static"] = xr.DataArray(rng.normal(size=3), dims=("q",), attrs={"units": "m"})
        if rng.random() < 0.5:
            obj["second"] = da * 2.0
        if rng.random() < 0.3:
            obj["label"] = xr.DataArray(np.array(["a", "b", "c"], dtype=object), dims=("q",))
        res = ctx.call(TR.linear_detrend, obj, **dk)
        ctx.check(set(res.data_vars) == set(obj.data_vars), "variables after detrending", lambda: str(list(res.data_vars)))
        ctx.check(bool(res["static"].identical(obj["static"])), "variable without the dimension")
        r = res[nm]
    ctx.check(r.name == nm, "name after detrending", lambda: str(r.name))
    ctx.check(set(r.dims) == set(da.dims), "dimensions after detrending", lambda: str(r.dims))
    rv = r.transpose(dim, *od).values.astype(float)
    for d in cs:
        ctx.check((r[d].values == cs[d]).all(), "labels after detrending")
    xx = x.reshape((-1,) + (1,) * len(od))
    tol = scale * eps * few * far * 3 + 1e-300
    tolb = np.broadcast_to(tol, plain.shape)
    sel = np.broadcast_to(ok, plain.shape)
    if mode != "correct":
        # written about the mean, so that the oracle does not cancel
        e = plain - (s * (xx - xm) + (b + s * xm))
        e = np.where(np.isnan(plain), np.nan, e)
        ctx.close(rv[sel], e[sel], "residual", rtol=1e-6, atol=tolb[sel])
    else:
        # the same line up to the choice of the time that counts as zero
        with np.errstate(all="ignore"):
            off = plain - s * xx - rv
            e0 = s * 0.0
            spread = np.where(sel & ~np.isnan(plain), off, np.nan)
            ctx.check(bool((np.isnan(rv) == np.isnan(plain))[sel].all()), "correction: missing values")
            for idx in np.ndindex(*ok.shape):
                if not ok[idx]:
                    continue
                o = spread[(slice(None),) + idx]
                o = o[~np.isnan(o)]
                tj = float(tolb[(0,) + idx])
                ctx.check(np.ptp(o) <= 4 * tj, "correction is not the fitted line up to a constant", lambda: f"{o[:5]} tol {tj}")
                c = float(np.mean(o))
                # c == -slope * anchor for some anchor in the record, or zero (anchor at the axis origin)
                lo, hi = sorted([-s[idx] * x[0], -s[idx] * x[-1]])
                if lo - 4 * tj <= c <= hi + 4 * tj:
                    continue
                ctx.check(abs(c) <= 4 * tj, "correction anchored outside the record", lambda: f"offset {c}, slope {s[idx]}, axis {x[0]}..{x[-1]}")
                ctx.known_finding("KF-DETREND-ANCHOR", f"axis {x[0]:.4g}..{x[-1]:.4g}, slope {s[idx]:.4g}")
    ctx.ncompared += 1
    # ---- rejections
    if rng.random() < 0.08:
        bad = ctx.pick("bad", ["mode", "order", "type", "unit"])
        if bad == "mode":
            ctx.rejects(TR.linear_detrend, da if rng.random() < 0.5 else xr.Dataset({nm: da}), **{**kw, "mode": str(rng.choice(["Remove", "fix", ""]))})
        elif bad == "order":
            ctx.rejects(TR.linear_detrend, da if rng.random() < 0.5 else xr.Dataset({nm: da}), **{**kw, "order": int(rng.choice([0, 2, 3]))})
        elif bad == "type":
            ctx.rejects(TR.linear_detrend, plain, **kw)
        elif isT:
            ctx.rejects(TR.calc_linear_trend, da, **{**kw, "time_units": str(rng.choice(["years", "month", "d", "NS", ""]))})

"""C13 annual averages."""
import numpy as np
import xarray as xr

from vmon import gen as G
from vmon import oracle as O
from vmon import timelib as TL

CASES = {"quick": 3750, "thorough": 37500}
RULE = (
    "monthly records of 1-40 whole years in every cftime calendar starting in years 1-5000 (leap, century, switch years), stamped anywhere in "
    "the month and in any time order, arrays and datasets with any time name, missing months, dtypes, static and non-numeric variables, lazy; "
    "compared with day-weighted sums from an independent calendar; partial years must be rejected; distinct by feature tuple"
)
ASSUMPTIONS = ["time axes hold cftime objects (the routine reads their calendar)"]


def case(ctx):
    from momlevel import util as U
    rng = ctx.rng
    cal = ctx.pick("calendar", O.CALENDARS)
    y0 = G.start_year(ctx, cal)
    n = G.size(ctx, "nyears", (1, 5), (10, 41), 0.06)
    if cal in ("standard", "gregorian") and y0 < 1583 and y0 + n > 1582:
        n = 1
    stamp = ctx.pick("stamp", ["mid", "first", "last", "any"])
    ylist = list(range(y0, y0 + n))
    if n > 1 and ctx.flip("gap years", 0.15):
        # whole years are absent from the record
        keep = [0] + [k for k in range(1, n) if rng.random() < 0.6]
        if cal not in ("standard", "gregorian") or y0 > 1583:
            ylist = [y0 + k + (int(rng.choice([0, 3, 100])) if k else 0) for k in keep]
            ylist = sorted(set(ylist))
        else:
            ylist = [y0 + k for k in keep]
        n = len(ylist)
    tv = G.obj_time([t for y in ylist for t in G.monthly_axis(rng, y, 1, cal, stamp)])
    years = np.repeat(ylist, 12)
    w = np.concatenate([O.month_days(y, cal) for y in ylist]).astype(float)
    if ctx.flip("shuffled", 0.15):
        p = rng.permutation(len(tv))
        tv, years, w = tv[p], years[p], w[p]
    obj, plain, tn, info = TL.build(ctx, tv)
    kw = {} if tn == "time" and rng.random() < 0.7 else {"tcoord": tn}
    if ctx.flip("partial", 0.1):
        # a year without exactly twelve values
        how = ctx.pick("how", ["drop", "drop_year_end", "repeat", "twice", "one"])
        if how == "drop":
            k = int(rng.integers(len(tv)))
            bad = obj.isel({tn: [i for i in range(len(tv)) if i != k]})
        elif how == "drop_year_end":
            bad = obj.isel({tn: slice(0, -int(rng.integers(1, 12)))})
        elif how == "twice":
            # every year holds a multiple of twelve values
            bad = obj.isel({tn: np.repeat(np.arange(len(tv)), int(rng.choice([2, 3])))})
        elif how == "one":
            bad = obj.isel({tn: slice(0, None, 12)})
        else:
            k = int(rng.integers(len(tv)))
            bad = obj.isel({tn: list(range(len(tv))) + [k]})
        ctx.rejects(U.annual_average, bad, **kw)
        return
    res = ctx.call(U.annual_average, obj, **kw)
    newt = G.obj_time([O.mid_year(y, cal) for y in ylist])
    ctx.check(len(res[tn]) == n, "one value per year", lambda: f"{len(res[tn])} for {n} years")
    got_t = [(t.year, t.month, t.day, t.hour, t.minute, t.second, t.calendar) for t in res[tn].values]
    exp_t = [(t.year, t.month, t.day, t.hour, t.minute, t.second, t.calendar) for t in newt]
    ctx.check(got_t == exp_t, "mid-year stamps", lambda: f"{got_t[:3]} {exp_t[:3]}")
    if isinstance(obj, xr.Dataset):
        ctx.check(set(res.data_vars) == set(plain), "variables of the annual average", lambda: f"{sorted(map(str, res.data_vars))} from {sorted(plain)}")
        ctx.check(res.attrs == obj.attrs, "dataset attributes")
    for name, (a, dims) in plain.items():
        r = res if name is None else res[name]
        ctx.check(r.attrs == (obj if name is None else obj[name]).attrs, "attributes of the variable", lambda: f"{name}: {r.attrs}")
        x = a.astype(float)
        if tn not in dims:
            e = np.broadcast_to(x, (n,) + x.shape)
            dd = (tn,) + dims
            if tn not in r.dims:
                dd, e = dims, x
        else:
            e = np.empty((n,) + x.shape[1:])
            for i, y in enumerate(ylist):
                m = years == y
                ww = w[m].reshape((12,) + (1,) * (x.ndim - 1))
                ok = ~np.isnan(x[m])
                den = (ww * ok).sum(axis=0)
                with np.errstate(all="ignore"):
                    e[i] = np.where(den > 0, (ww * np.where(ok, x[m], 0)).sum(axis=0) / den, np.nan)
            dd = dims
        sc = np.nanmax(np.abs(x)) if np.isfinite(x).any() else 0.0
        f4 = a.dtype == np.float32
        ctx.same(r, e, dd, f"annual average of {'the array' if name is None else 'a variable'}", rtol=1e-5 if f4 else 1e-11, atol=sc * (2e-6 if f4 else 1e-13),
                 coords={k: v for k, v in TL.result_coords(dd, info, tn, newt).items() if k != tn})
        if tn in r.dims:
            ctx.check(r.dims[0] == tn, "time first", lambda: str(r.dims))
            ctx.check(r[tn].attrs == obj[tn].attrs, "attributes of the time coordinate", lambda: str(r[tn].attrs))

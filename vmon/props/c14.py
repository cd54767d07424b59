"""C14 monthly averages and annual cycles."""
import numpy as np
import xarray as xr

from vmon import gen as G
from vmon import oracle as O
from vmon import timelib as TL

CASES = {"quick": 2750, "thorough": 27500}
RULE = (
    "daily records of whole years (1-4) and monthly or irregular multi-year records (also in descending or no order) in every cftime calendar, arrays and datasets with any "
    "time name, missing values, dtypes, lazy, gaps in days; every month and statistic compared with a plain group-by of an independent "
    "calendar; unknown statistics must be rejected; distinct by feature tuple"
)
ASSUMPTIONS = [
    "time axes hold cftime objects (the routines read their calendar)",
    "every month occurs: monthly averages of partial years are rejected by the shipped code",
]


def stamps(tv):
    return [(t.year, t.month, t.day, t.hour, t.minute, t.second, t.calendar) for t in tv]


def reduce_(x, func):
    """nan-aware reduction over the first axis"""
    ok = ~np.isnan(x)
    n = ok.sum(axis=0)
    z = np.where(ok, x, 0.0)
    with np.errstate(all="ignore"):
        if func == "mean":
            r = z.sum(axis=0) / n
        elif func == "min":
            r = np.where(ok, x, np.inf).min(axis=0)
        elif func == "max":
            r = np.where(ok, x, -np.inf).max(axis=0)
        else:
            m = z.sum(axis=0) / n
            r = np.sqrt((np.where(ok, x - m, 0.0) ** 2).sum(axis=0) / n)
    return np.where(n > 0, r, np.nan)


def compare(ctx, res, obj, plain, tn, info, groups, newt, func, what):
    ctx.check(stamps(res[tn].values) == stamps(newt), f"{what}: time stamps", lambda: f"{stamps(res[tn].values)[:3]} {stamps(newt)[:3]}")
    if isinstance(obj, xr.Dataset):
        ctx.check(set(res.data_vars) == set(plain), f"{what}: variables", lambda: f"{sorted(map(str, res.data_vars))} from {sorted(plain)}")
    for name, (a, dims) in plain.items():
        r = res if name is None else res[name]
        x = a.astype(float)
        if tn in dims:
            e = np.stack([reduce_(x[g], func) for g in groups])
            dd = dims
        elif func == "mean" and tn in r.dims:
            e, dd = np.broadcast_to(x, (len(groups),) + x.shape), (tn,) + dims
        elif tn in r.dims:
            continue
        else:
            e, dd = x, dims
        sc = np.nanmax(np.abs(x)) if np.isfinite(x).any() else 0.0
        f4 = a.dtype == np.float32
        tol = sc * (1e-5 if f4 else 1e-12)
        if func == "std":
            tol = sc * (3e-3 if f4 else 1e-7)
        if func in ("min", "max"):
            tol = 0.0
        ctx.same(r, e, dd, what, rtol=0 if func in ("min", "max") else 1e-5 if f4 else 1e-10, atol=tol,
                 coords={k: v for k, v in TL.result_coords(dd, info, tn, newt).items() if k != tn})


def case(ctx):
    from momlevel import util as U
    rng = ctx.rng
    cal = ctx.pick("calendar", O.CALENDARS)
    y0 = G.start_year(ctx, cal)
    which = ctx.pick("routine", ["monthly", "cycle"], p=[0.35, 0.65])
    if which == "monthly":
        n = int(rng.choice([1, 2, 3], p=[0.6, 0.3, 0.1]))
        if cal in ("standard", "gregorian") and y0 < 1583 and y0 + n > 1582:
            n = 1
        ctx.note(nyears=n)
        hour = int(rng.choice([0, 12, 23]))
        tv = G.obj_time(G.daily_axis(y0, n, cal, hour))
        ymv = np.array([(t.year, t.month) for t in tv])
        thin = ctx.pick("days", ["all", "gaps", "subdaily", "shuffled"], p=[0.6, 0.15, 0.1, 0.15])
        if thin == "gaps":
            keep = rng.random(len(tv)) < 0.6
            for y in range(y0, y0 + n):
                for m in range(1, 13):
                    idx = np.where((ymv == (y, m)).all(axis=1))[0]
                    if not keep[idx].any():
                        keep[idx[0]] = True
            tv, ymv = tv[keep], ymv[keep]
        elif thin == "shuffled":
            p = rng.permutation(len(tv))
            tv, ymv = tv[p], ymv[p]
        elif thin == "subdaily":
            keep = rng.random(len(tv)) < 0.5
            for y in range(y0, y0 + n):
                for m in range(1, 13):
                    keep[np.where((ymv == (y, m)).all(axis=1))[0][-1]] = True
            tv, ymv = tv[keep], ymv[keep]
        obj, plain, tn, info = TL.build(ctx, tv)
        kw = {} if tn == "time" and rng.random() < 0.7 else {"tcoord": tn}
        ok = ctx.call(U.monthly_average, obj, **kw)
        groups = [np.where((ymv == (y, m)).all(axis=1))[0] for y in range(y0, y0 + n) for m in range(1, 13)]
        newt = G.obj_time([O.mid_month(y, m, cal) for y in range(y0, y0 + n) for m in range(1, 13)])
        compare(ctx, ok, obj, plain, tn, info, groups, newt, "mean", "monthly average")
        for v in plain:
            r = ok if v is None else ok[v]
            if tn in r.dims:
                ctx.check(r.dims[0] == tn, "monthly average: time first")
        return
    n = G.size(ctx, "nyears", (1, 6), (10, 40), 0.08)
    if cal in ("standard", "gregorian") and y0 < 1583 and y0 + n > 1582:
        n = 1
    src = ctx.pick("source", ["monthly", "daily", "irregular", "partial"], p=[0.6, 0.1, 0.15, 0.15])
    if src == "daily":
        n = min(n, 2)
        tv = G.obj_time(G.daily_axis(y0, n, cal, 12))
    else:
        tv = G.obj_time(G.monthly_axis(rng, y0, n, cal, ctx.pick("stamp", ["mid", "first", "last", "any"])))
        if src == "irregular" and n > 1:
            keep = rng.random(len(tv)) < 0.6
            mo = np.array([t.month for t in tv])
            for m in range(1, 13):
                if not keep[mo == m].any():
                    keep[np.where(mo == m)[0][-1]] = True
            tv = tv[keep]
        elif src == "partial" and n > 1:
            # starts and ends inside a year
            tv = tv[int(rng.integers(0, 6)): len(tv) - int(rng.integers(0, 6))]
    order = ctx.pick("order", ["ascending", "descending", "shuffled"], p=[0.8, 0.12, 0.08])
    if order == "descending":
        tv = tv[::-1]
    elif order == "shuffled":
        tv = tv[rng.permutation(len(tv))]
    mo = np.array([t.month for t in tv])
    obj, plain, tn, info = TL.build(ctx, tv, kinds=("f8", "f4", "i4"))
    kw = {} if tn == "time" and rng.random() < 0.7 else {"tcoord": tn}
    func = ctx.pick("func", ["default", "mean", "min", "max", "std"])
    if func != "default":
        kw["func"] = func
    else:
        func = "mean"
    d = tv[-1] - tv[0]
    my = (tv[0] + d / 2).year
    if order == "shuffled" or ctx.flip("axis_year", 0.35):
        my = int(rng.choice([0, 1, 7, 1999, 2000, 2100, 3000, 9999]))
        if cal in ("standard", "gregorian") and my < 1583:
            my = 1900
        if my == 0 and cal not in ("noleap", "365_day", "360_day", "all_leap", "366_day"):
            my = 1901
        kw["time_axis_year"] = my
    if ctx.flip("bad_func", 0.07):
        kw["func"] = ctx.pick("bad", ["median", "Mean", "sum", "", "avg"])
        ctx.rejects(U.annual_cycle, obj, **kw)
        return
    res = ctx.call(U.annual_cycle, obj, **kw)
    groups = [np.where(mo == m)[0] for m in range(1, 13)]
    newt = G.obj_time([O.mid_month(my, m, cal) for m in range(1, 13)])
    compare(ctx, res, obj, plain, tn, info, groups, newt, func, f"annual cycle {func}")

"""C26 test data generators."""
import numpy as np
import xarray as xr

from vmon import gen as G
from vmon import oracle as O

CASES = {"quick": 1200, "thorough": 12000}
RULE = (
    "all generators with random seeds, start years 1-5000, 1-12 years, every calendar and frequency, called twice with other calls and global "
    "random draws in between; axes compared with an independent calendar, grids with their invariants; distinct by feature tuple"
)
ASSUMPTIONS = ["start years at which the calendar is continuous (the 1582 switch is excluded)"]


def same(ctx, a, b, what):
    ctx.check(set(a.variables) == set(b.variables), f"{what}: variables differ")
    for v in a.variables:
        x, y = a[v], b[v]
        ctx.check(x.dims == y.dims and x.dtype == y.dtype and x.attrs == y.attrs, f"{what}: {v} structure")
        if x.dtype.kind == "f":
            ok = np.array_equal(x.values, y.values, equal_nan=True)
        else:
            ok = bool((x.values == y.values).all())
        ctx.check(ok, f"{what}: {v} values")
        ctx.nvalues += x.size


def st(t):
    return (t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond, t.calendar)


def check_axis(ctx, ds, y0, n, cal, freq):
    C = {"365_day": "noleap", "366_day": "all_leap", "gregorian": "standard"}.get(cal, cal)
    if freq == "MS":
        lo = [O.cf(y, m, 1, cal=cal) for y in range(y0, y0 + n) for m in range(1, 13)] + [O.cf(y0 + n, 1, 1, cal=cal)]
    else:
        lo = G.daily_axis(y0, n, cal, 0) + [O.cf(y0 + n, 1, 1, cal=cal)]
    mid = [a + (b - a) / 2 for a, b in zip(lo[:-1], lo[1:])]
    t = ds["time"].values
    ctx.check(len(t) == len(mid), f"number of intervals", lambda: f"{len(t)} expected {len(mid)} ({cal}, {freq})")
    ctx.check([st(x) for x in t] == [st(x) for x in mid], "mid-interval stamps", lambda: f"{t[:2]} {mid[:2]} {t[-1]} {mid[-1]}")
    tb = ds["time_bnds"].values
    ctx.check(tb.shape == (len(mid), 2), "shape of the bounds")
    ctx.check([st(x) for x in tb[:, 0]] == [st(x) for x in lo[:-1]] and [st(x) for x in tb[:, 1]] == [st(x) for x in lo[1:]], "contiguous bounds")
    ctx.check([st(x) for x in ds["average_T1"].values] == [st(x) for x in lo[:-1]], "average_T1")
    ctx.check([st(x) for x in ds["average_T2"].values] == [st(x) for x in lo[1:]], "average_T2")
    dt = np.array([(b - a).total_seconds() for a, b in zip(lo[:-1], lo[1:])])
    dv = ds["average_DT"].values
    got = dv.astype("timedelta64[s]").astype(float) if dv.dtype.kind == "m" else np.array([x.total_seconds() for x in dv.ravel()])
    ctx.close(got, dt, "average_DT", rtol=1e-12)
    ctx.check(ds["time"].attrs.get("calendar_type") == cal, "calendar attribute")
    ctx.nvalues += len(t)


def check_grid(ctx, ds):
    for v in ("areacello", "areacello_bu", "areacello_cu", "areacello_cv"):
        if v in ds:
            ctx.close(float(ds[v].sum()), G.OCEAN_AREA, "total cell area", rtol=1e-9)
            ctx.check(bool((ds[v].values > 0).all()), "positive areas")
    if "z_l" in ds and "z_i" in ds:
        zi, zl = ds["z_i"].values, ds["z_l"].values
        ctx.check(len(zi) == len(zl) + 1 and bool((np.diff(zi) > 0).all()) and bool(((zl > zi[:-1]) & (zl < zi[1:])).all()), "levels between interfaces")
        if "deptho" in ds:
            d = ds["deptho"].values
            ctx.check(bool(((d >= 0) & (d <= zi[-1]) | np.isnan(d)).all()), "depths within the grid")


def case(ctx):
    from momlevel import test_data as TD
    from momlevel.test_data import time as TT
    from momlevel.test_data import tripolar as TP
    rng = ctx.rng
    cal = ctx.pick("calendar", O.CALENDARS)
    y0 = G.start_year(ctx, cal)
    n = int(rng.choice([1, 2, 3, 5, 12], p=[0.3, 0.3, 0.2, 0.15, 0.05]))
    if cal in ("standard", "gregorian") and y0 < 1583 and y0 + n > 1582:
        y0 = 1900
    seed = int(rng.integers(1, 10000))
    ctx.note(nyears=n)
    which = ctx.pick("generator", ["data", "data0", "dz", "time", "uv", "uv0", "daily", "stub", "xy", "z"])
    np.random.seed(int(rng.integers(1000)))
    before = np.random.get_state()[1].copy()
    freq = ctx.pick("freq", ["MS", "D"]) if which in ("time", "stub") else "MS"
    if freq == "D":
        n = min(n, 3)
    if which == "data":
        f, kw, rnd = TD.generate_test_data, dict(start_year=y0, nyears=n, calendar=cal, seed=seed), ["thetao", "so", "volcello"]
    elif which == "data0":
        f, kw, rnd = TD.generate_test_data, dict(seed=seed), ["thetao", "so", "volcello"]
    elif which == "dz":
        f, kw, rnd = TD.generate_test_data_dz, dict(seed=seed), ["deptho"]
    elif which == "time":
        f, kw, rnd = TD.generate_test_data_time, dict(start_year=y0, nyears=n, calendar=cal, seed=seed, frequency=freq), ["var_a", "var_b"]
    elif which == "uv":
        f, kw, rnd = TD.generate_test_data_uv, dict(start_year=y0, nyears=n, calendar=cal, seed=seed), ["uo", "vo", "Coriolis", "areacello_bu"]
    elif which == "uv0":
        f, kw, rnd = TD.generate_test_data_uv, dict(seed=seed), ["uo", "vo", "Coriolis"]
    elif which == "daily":
        n = min(n, 5)
        got = ctx.call(TT.generate_daily_timeaxis, start_year=y0, nyears=n, calendar=cal)
        exp = G.daily_axis(y0, n, cal, 0)
        ctx.check([st(x) for x in got] == [st(x) for x in exp], "daily axis", lambda: f"{len(got)} days expected {len(exp)}; {got[-1]} {exp[-1]}")
        ctx.nvalues += len(exp)
        return
    elif which == "stub":
        f, kw, rnd = TT.generate_time_stub, dict(start_year=y0, nyears=n, calendar=cal, frequency=freq), []
    elif which == "xy":
        f, kw, rnd = TP.xy_fields, dict(point=ctx.pick("point", ["h", "u", "v", "c"]), seed=seed), None
    else:
        f, kw, rnd = TP.zlevel_fields, dict(seed=seed, include_deptho=ctx.flip("deptho")), ["deptho"]
    if ctx.flip("defaults", 0.15) and which not in ("stub",):
        kw = {k: v for k, v in kw.items() if k in ("start_year", "nyears", "calendar", "point", "include_deptho", "frequency")}
    if kw.get("start_year", 1981) < 1000:
        # KF-TD-YEAR: the start year is not zero-padded, so the date string cannot be parsed
        ok, a = ctx.attempt(f, **kw)
        if not ok:
            ctx.check(isinstance(a, ValueError) and "match" in str(a), "generator failed", repr(a))
            ctx.known_finding("KF-TD-YEAR", f"{f.__name__}({kw})")
            return
    a = ctx.call(f, **kw)
    # other activity in between
    np.random.rand(3)
    for _ in range(int(rng.integers(0, 3))):
        ctx.call(TD.generate_test_data, seed=int(rng.integers(1, 99)))
        ctx.call(TD.generate_test_data_uv, seed=int(rng.integers(1, 99)))
        ctx.call(TP.xy_fields, seed=int(rng.integers(1, 99)))
    b = ctx.call(f, **kw)
    ctx.check(isinstance(a, xr.Dataset), "a dataset")
    same(ctx, a, b, "repeated call")
    if "seed" in kw:
        c = ctx.call(f, **{**kw, "seed": seed + int(rng.integers(1, 50))})
        names = rnd if rnd is not None else [v for v in a.data_vars if str(v).startswith("areacello")]
        for v in names:
            if v in a and v != "areacello_bu":
                ctx.check(not np.array_equal(a[v].values, c[v].values, equal_nan=True), "different seeds give the same field", v)
            if v in a:
                ctx.check(np.unique(a[v].values[~np.isnan(a[v].values)]).size > 3, "field is not random")
    if which in ("data", "time", "uv", "stub"):
        check_axis(ctx, a, kw.get("start_year", 1981), kw.get("nyears", 5), kw.get("calendar", "noleap"), kw.get("frequency", "MS"))
    if which in ("data0", "uv0"):
        ctx.check(list(a["time"].values) == [1.0, 2.0, 3.0, 4.0, 5.0], "default time axis")
    check_grid(ctx, a)
    if which in ("data", "data0"):
        nt = a.sizes["time"]
        for v in ("thetao", "so", "volcello"):
            ctx.check(a[v].dims == ("time", "z_l", "yh", "xh") and a[v].shape == (nt, 5, 5, 5) and bool(np.isfinite(a[v].values).all()), "shape of the state")
    if ctx.flip("badfreq", 0.08):
        ctx.rejects(TT.generate_time_stub, frequency=str(rng.choice(["H", "YS", "", "m"])))

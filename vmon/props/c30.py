"""C30 diagnostics."""
import contextlib
import io
import os
import re
import warnings

import numpy as np
import pandas as pd
import xarray as xr

from vmon import core
from vmon import gen as G
from vmon import oracle as O
from vmon import trendlib as L
from vmon.props import c21

CASES = {"quick": 4000, "thorough": 40000}
RULE = (
    "random datasets with combined faults, sites around the threshold, coordinate grids, slopes in every unit, datasets with and without time bounds; the warnings "
    "and the text a call emits are recorded and compared with an independent list of what is due; distinct by feature tuple"
)
ASSUMPTIONS = [
    "user and deprecation warnings are counted, numeric RuntimeWarnings and warnings of other libraries are not",
    "location files have unique names and a column name",
]


class Recorder:
    """runs a call with every warning recorded and its text output captured"""

    def __init__(self, fn):
        self.fn, self.name = fn, f"{fn.__module__}.{fn.__qualname__}"
        self.warned, self.text = [], ""

    def __call__(self, *a, **k):
        out = io.StringIO()
        with warnings.catch_warnings(record=True) as rec, contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            warnings.simplefilter("always")
            try:
                return self.fn(*a, **k)
            finally:
                here = os.path.abspath(__file__)
                for w in rec:
                    f = os.path.abspath(w.filename)
                    if w.category in (UserWarning, DeprecationWarning) and (f == here or f.startswith(core.SRC)):
                        self.warned.append((w.category, str(w.message)))
                self.text = out.getvalue()

    def users(self):
        return [m for c, m in self.warned if c is UserWarning]


def same(ctx, a, b, what):
    """results of two calls are identical"""
    if isinstance(a, tuple):
        ctx.check(len(a) == len(b), what)
        for x, y in zip(a, b):
            same(ctx, x, y, what)
    elif isinstance(a, (pd.DataFrame, xr.DataArray, xr.Dataset)):
        ctx.check((a.identical(b) if not isinstance(a, pd.DataFrame) else a.equals(b)), what)
    else:
        ctx.check(a is b or a == b, what)


def case(ctx):
    part = ctx.pick("part", ["area", "report", "sites", "gauge", "tile", "slope", "detrend", "alias"], p=[0.1, 0.15, 0.2, 0.12, 0.08, 0.15, 0.12, 0.08])
    globals()["p_" + part](ctx)


def p_area(ctx):
    """an out-of-range area only warns when not strict, and the result is the one without the check"""
    import momlevel as ml
    from momlevel import util as U
    rng = ctx.rng
    W = G.Ocean(ctx, big=False)
    ds = W.dataset()
    f = float(ctx.pick("factor", [1.0, 0.985, 1.015, 0.97, 1.03, 1.4, 0.2]))
    ds["areacello"] = ds["areacello"] / float(ds["areacello"].sum()) * G.OCEAN_AREA * f
    bad = abs(f - 1) > 0.02
    if ctx.flip("validate", 0.5):
        r = Recorder(U.validate_dataset)
        if bad and ctx.flip("strict", 0.3):
            ctx.rejects(r, ds)
            ctx.check("areacello" in r.text + str(r.warned), "a rejected area is not reported", lambda: r.text)
            return
        ctx.call(r, ds, strict=False)
    else:
        r = Recorder(ml.steric)
        cn = W.coord_names()
        ctx.call(r, ds, strict=False, **({} if cn is None else {"coord_names": cn}))
    hits = [m for m in r.users() if "areacello" in m]
    ctx.check(bool(hits) == bad, "area warning", lambda: f"factor {f}: {r.warned}")
    ctx.check(len(r.users()) == len(hits), "another warning", lambda: str(r.warned))


def p_report(ctx):
    """every problem of a rejected dataset is named"""
    from momlevel import util as U
    rng = ctx.rng
    reference = ctx.flip("reference", 0.5)
    W = G.Ocean(ctx, big=False)
    ds = W.dataset()
    if reference:
        ds = ds.isel({W.names["t"]: 0}, drop=True)
        ds["rho"] = ds["thetao"] * 0 + 1035.0
        for v in ("volo", "masso", "rhoga"):
            ds[v] = ((), 1.0)
    for i in range(int(rng.choice([1, 2, 3, 6, 10], p=[0.3, 0.25, 0.2, 0.15, 0.1]))):
        ds = c21.mutate(ctx, ds, f"m{i}", reference)
    extra = ["wanted"] if ctx.flip("additional", 0.2) else None
    rank = 3 if reference else 4
    need = ["thetao", "so", "volcello", "areacello"] + (extra or []) + (["rho", "volo", "masso", "rhoga"] if reference else [])
    due = {v for v in need if v not in ds.variables}
    exp = {"thetao": rank, "so": rank, "volcello": rank, "areacello": 2, "deptho": 2}
    if reference:
        exp.update(rho=3, volo=0, masso=0, rhoga=0)
    due |= {v for v, n in exp.items() if v in ds.variables and ds[v].ndim != n}
    timed = reference and any(str(c).lower() == "time" for c in ds.coords)
    strict = not ctx.flip("lenient", 0.3)
    ok, bad_area = c21.expected(ds, reference, strict, extra or ())
    if bad_area:
        due.add("areacello")
    r = Recorder(U.validate_dataset)
    kw = {"reference": True} if reference else {}
    if not strict:
        kw["strict"] = False
    if extra:
        kw["additional_vars"] = extra if rng.random() < 0.5 else extra[0]
    ctx.note(faults=len(due) + timed)
    if ok:
        ctx.call(r, ds, **kw)
        if bad_area:
            ctx.check(any("areacello" in m for m in r.users()), "an out-of-range area is not warned about", lambda: str(r.warned))
            return
        ctx.check(not r.users(), "warning for a valid dataset", lambda: str(r.warned))
        ctx.check(not r.text.strip(), "text for a valid dataset", lambda: r.text)
        return
    e = ctx.rejects(r, ds, **kw)
    if bad_area and not strict:
        ctx.check(any("areacello" in m for m in r.users()), "the area of a rejected dataset is not warned about", lambda: f"{r.warned} {r.text}")
    words = set(re.findall(r"\w+", r.text + " " + " ".join(m for _, m in r.warned) + " " + str(e)))
    ctx.check(due <= words, "a problem of a rejected dataset is not named", lambda: f"due {sorted(due)} in {r.text!r} {e}")
    quiet = {"thetao", "volcello", "areacello", "deptho", "masso", "volo", "rhoga"} - due
    ctx.check(not (quiet & words), "a sound variable is reported", lambda: f"{sorted(quiet & words)} in {r.text!r}")
    if timed:
        ctx.check("time" in words, "a time coordinate of a reference is not named", lambda: r.text)


def p_sites(ctx):
    """sites beyond the threshold are named, and only these"""
    from momlevel import util as U
    rng = ctx.rng
    n, k = int(rng.integers(1, 60)), int(rng.integers(1, 12))
    if ctx.flip("many", 0.15):
        k = int(rng.integers(12, 80))
    mlat, mlon = rng.uniform(-80, 80, n), rng.uniform(-180, 180, n)
    j = rng.integers(0, n, k)
    llat, llon = np.clip(mlat[j] + rng.normal(0, 3, k), -90, 90), mlon[j] + rng.normal(0, 3, k)
    mask = (rng.random(n) < 0.8).astype(float)
    mask[int(rng.integers(n))] = 1.0
    df = pd.DataFrame({"geolat": mlat, "geolon": mlon})
    if ctx.flip("mask", 0.5):
        df["mask"] = mask
    names = [f"site_{i:03d}" for i in rng.permutation(k)]
    if k > 1 and ctx.flip("same names", 0.2):
        # unnamed stations, or several at one port
        names = [names[i] for i in rng.integers(0, k, k)]
    ld = pd.DataFrame({"name": names, "lat": llat, "lon": llon})
    plain = ctx.call(U.geolocate_points, df, ld)
    dist = plain["distance"].values
    th = ctx.pick("threshold", ["none", "equal", "between", "all", "nothing", "tiny"])
    T = {"none": None, "equal": float(rng.choice(dist)), "between": float(rng.uniform(dist.min(), dist.max() + 1e-9)),
         "all": float(dist.max() + 1), "nothing": float(dist.min()) * 0.5 - 1e-3, "tiny": 0.0}[th]
    kw = {} if T is None and rng.random() < 0.5 else {"threshold": T}
    how = ctx.pick("warnings", ["on", "off", "default"], p=[0.6, 0.2, 0.2])
    r = Recorder(U.geolocate_points)
    quiet = ctx.call(U.geolocate_points, df, ld, **kw)
    if how == "default":
        out = ctx.call(r, df, ld, **kw)
    else:
        out = ctx.call(r, df, ld, disable_warning=how == "off", **kw)
    same(ctx, out, quiet, "the warnings change the result")
    lost = {names[i] for i in range(k) if T is not None and dist[i] > T}
    nlost = sum(T is not None and d > T for d in dist)
    ctx.note(lost=min(len(lost), 3))
    named(ctx, r, names, lost if how == "on" else set())
    if how == "on" and len(set(names)) < k:
        # every unmapped row is reported, also when it shares its name
        text = " ".join(r.users())
        said = sum(len(re.findall(rf"\b{nm}\b", text)) for nm in set(names))
        ctx.check(said >= nlost, "rows named in warnings", lambda: f"{said} expected {nlost}")


def named(ctx, r, names, due, allowed=0):
    us = [m for m in r.users()]
    got = [set(re.findall(r"\w+", m)) & set(names) for m in us]
    said = set().union(*got) if got else set()
    ctx.check(said == due, "sites named in warnings", lambda: f"{sorted(said)} expected {sorted(due)}")
    other = [m for m, g in zip(us, got) if not g]
    ctx.check(len(other) == allowed, "other warnings", lambda: str(other))


def p_gauge(ctx):
    """the same through extract_tidegauge"""
    from momlevel import tidegauge as TG
    rng = ctx.rng
    ny, nx = int(rng.integers(2, 7)), int(rng.integers(2, 7))
    la, lo = np.sort(rng.uniform(20, 50, ny)), np.sort(rng.uniform(-100, -60, nx))
    one = ctx.flip("nominal", 0.4)
    da = xr.DataArray(rng.normal(size=(3, ny, nx)), dims=("time", "yh", "xh"), coords={"yh": la, "xh": lo}, name="ssh")
    lat2, lon2 = np.broadcast_to(la[:, None], (ny, nx)), np.broadcast_to(lo[None, :], (ny, nx))
    kw = {"xcoord": "xh", "ycoord": "yh"}
    if not one:
        da = da.assign_coords(geolon=(("yh", "xh"), lon2), geolat=(("yh", "xh"), lat2))
        kw = {}
    k = int(rng.integers(1, 9))
    sy, sx = rng.uniform(18, 52, k), rng.uniform(-102, -58, k)
    names = [f"SITE_{chr(65 + i)}" for i in rng.permutation(k)]
    path = os.path.join(ctx.tmpdir(), "sites.csv")
    pd.DataFrame({"name": names, "lat": sy, "lon": sx}).to_csv(path, index=False)
    fr = pd.read_csv(path)
    best = O.haversine_km(fr["lat"].values[:, None], fr["lon"].values[:, None], lat2.ravel()[None], lon2.ravel()[None], 6378.0).min(axis=1)
    kw["csv"] = path
    T = None
    if ctx.flip("threshold", 0.75):
        T = float(rng.uniform(0.5 * best.min(), best.max() * 1.1))
        if np.abs(best - T).min() > 1e-6:
            kw["threshold"] = T
        else:
            T = None
    quiet = ctx.call(TG.extract_tidegauge, da, **kw)
    how = ctx.pick("warnings", ["on", "off", "default"], p=[0.6, 0.2, 0.2])
    r = Recorder(TG.extract_tidegauge)
    out = ctx.call(r, da, **kw, **({} if how == "default" else {"disable_warning": how == "off"}))
    same(ctx, out, quiet, "the warnings change the result")
    lost = {names[i] for i in range(k) if T is not None and best[i] > T}
    ctx.note(lost=min(len(lost), 3))
    # coordinates made from nominal ones are announced
    named(ctx, r, names, lost if how == "on" else set(), allowed=1 if one else 0)


def p_tile(ctx):
    from momlevel import util as U
    rng = ctx.rng
    ny, nx = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    y = xr.DataArray(np.sort(rng.uniform(-80, 80, ny)), dims=("yh",), name="yh")
    x = xr.DataArray(np.sort(rng.uniform(0, 360, nx)), dims=("xh",), name="xh")
    how = ctx.pick("warn", ["default", "true", "false"])
    r = Recorder(U.tile_nominal_coords)
    out = ctx.call(r, x, y, **({} if how == "default" else {"warn": how == "true"}))
    ctx.check(len(r.users()) == (0 if how == "false" else 1), "warning about nominal coordinates", lambda: f"{how}: {r.warned}")
    same(ctx, out, ctx.call(U.tile_nominal_coords, x, y, warn=how == "false"), "the warning changes the result")


def p_slope(ctx):
    from momlevel import trend as TR
    rng = ctx.rng
    nt = int(rng.integers(2, 20))
    vals, x, kind = L.axis(ctx, nt)
    isT = kind in ("cftime", "datetime64")
    dim = ctx.pick("dim", ["time", "Time", "z_l"], p=[0.5, 0.25, 0.25])
    ax = xr.DataArray(vals, dims=(dim,), coords={dim: vals}, name=dim)
    sl = xr.DataArray(rng.normal(size=3), dims=("xh",), name="zos_slope", attrs={"long_name": "slope"})
    u = ctx.pick("unit", ["missing", "m", "", "degC", "m ns-1", "ns-1", "m yr-1", "degC s-1", "mon-1", "mm  day-1"])
    if u != "missing":
        sl.attrs["units"] = u
    r = Recorder(TR.broadcast_trend)
    z = ctx.flip("zero", 0.4)
    out = ctx.call(r, sl, ax, **({"subtract_time_zero": True} if z else {}))
    due = isT and "-1" not in u
    ctx.check(len(r.users()) == int(due), "warning about the time unit of a slope", lambda: f"units {u!r} on a {kind} axis: {r.warned}")
    if due:
        # what the warning says: nanoseconds are assumed
        ns = ctx.call(TR.broadcast_trend, sl.assign_attrs(units="m ns-1"), ax, subtract_time_zero=z)
        ctx.check(bool(np.array_equal(out.values, ns.values)), "nanoseconds are not what was assumed")
    # a trend made by this package always states its unit
    if isT and ctx.flip("own", 0.3):
        da = xr.DataArray(rng.normal(size=nt), dims=(dim,), coords={dim: vals}, name="zos", attrs={"units": "m"} if rng.random() < 0.7 else {})
        t = ctx.call(TR.calc_linear_trend, da, dim=dim, time_units=str(rng.choice(L.UNITS)))
        r = Recorder(TR.broadcast_trend)
        ctx.call(r, t["zos_slope"], da[dim])
        ctx.check(not r.users(), "the unit of a computed trend is not understood", lambda: str(r.warned))


BOUNDS = ["time_bnds", "average_T1", "average_T2", "average_DT"]


def p_detrend(ctx):
    from momlevel import trend as TR
    rng = ctx.rng
    nt = int(rng.integers(3, 30))
    ds = xr.Dataset({"zos": (("time", "xh"), rng.normal(size=(nt, 2))), "area": (("xh",), [1.0, 2.0])}, coords={"time": np.arange(nt) * 1.0})
    has = [v for v in BOUNDS if rng.random() < 0.25]
    for v in has:
        ds[v] = (("time",) if v != "time_bnds" else ("time", "nv"), rng.normal(size=(nt,) if v != "time_bnds" else (nt, 2)))
    for v in ("time_bounds", "average", "DT"):
        if rng.random() < 0.2:
            ds[v] = (("time",), rng.normal(size=nt))
    as_coord = has and ctx.flip("as_coord", 0.2)
    if as_coord:
        ds = ds.set_coords(has)
    ctx.note(bounds=",".join(has))
    mode = ctx.pick("mode", ["remove", "correct"])
    r = Recorder(TR.linear_detrend)
    if ctx.flip("array", 0.15):
        ctx.call(r, ds["zos"], mode=mode)
        ctx.check(not r.users(), "warning for an array", lambda: str(r.warned))
        return
    out = ctx.call(r, ds, mode=mode)
    if as_coord:
        return
    ctx.check(len(r.users()) == int(bool(has)), "warning about variables that cannot be detrended", lambda: f"{has}: {r.warned}")
    lean = ctx.call(TR.linear_detrend, ds.drop_vars(has), mode=mode)
    for v in lean.data_vars:
        ctx.check(out[v].identical(lean[v]), "other variables are detrended as without them", lambda: v)


def p_alias(ctx):
    from momlevel import trend as TR
    from momlevel import util as U
    rng = ctx.rng
    nt = int(rng.integers(3, 30))
    dim = ctx.pick("dim", ["time", "z_l"])
    ax, _, _ = L.axis(ctx, nt)
    o = xr.DataArray(rng.normal(size=(nt, 2)), dims=(dim, "xh"), coords={dim: ax}, name="zos", attrs={"units": "m"})
    if ctx.flip("dataset", 0.4):
        o = xr.Dataset({"zos": o, "area": (("xh",), [1.0, 2.0])})
    kw = {} if dim == "time" else {"dim": dim}
    m = ctx.pick("mode", ["default", "remove", "correct"])
    if m != "default":
        kw["mode"] = m
    pos = ()
    if ctx.flip("positional", 0.4):
        pos, kw = (dim,), {k: v for k, v in kw.items() if k != "dim"}
        if rng.random() < 0.4 and "mode" in kw:
            pos = (dim, 1, kw.pop("mode"))
    r = Recorder(U.linear_detrend)
    out = ctx.call(r, o, *pos, **kw)
    ctx.check(any(c is DeprecationWarning for c, _ in r.warned), "the old name is not announced as deprecated", lambda: str(r.warned))
    r2 = Recorder(TR.linear_detrend)
    new = ctx.call(r2, o, *pos, **kw)
    ctx.check(not r2.warned, "the new name warns", lambda: str(r2.warned))
    same(ctx, out, new, "the old name gives another result")

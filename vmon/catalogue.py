"""Builders of public calls, in a canonical in-memory form that the relational checks transform.

Each builder returns a Call.  `names` gives the role -> name map of the dimensions used, `rename`
the options that tell the routine about other names, `free` the roles along which positions may be
shuffled (every input together), `chunkable` the roles that may be split into chunks.
"""
import os

import numpy as np
import pandas as pd
import xarray as xr

from vmon import gen as G
from vmon.core import disguise_array
from vmon import oracle as O
from vmon import trendlib as L

ALL = {"t", "z", "y", "x", "yq", "xq"}


class Call:
    def __init__(self, name, fn, args, kwargs=None, names=None, rename=None, free=(), chunkable=None,
                 rtol=1e-9, atol=1e-12, shuffle_fix=None, bad=None, fixed_order=False):
        self.name = name
        self.fn = fn
        self.args = list(args)
        self.kwargs = dict(kwargs or {})
        self.names = dict(names or {})
        self.rename = rename          # new names -> kwargs
        self.free = set(free)
        self.chunkable = set(chunkable) if chunkable is not None else None
        self.rtol, self.atol = rtol, atol
        self.bad = bad                # kwargs/args edit that must be rejected
        self.fixed_order = fixed_order  # permuting dimensions of inputs is not in the domain

    def __call__(self):
        return self.fn(*self.args, **self.kwargs)

    def mapped(self, f, extra=None):
        c = Call(self.name, self.fn, [deep(a, f) for a in self.args], {k: deep(v, f) for k, v in self.kwargs.items()},
                 self.names, self.rename, self.free, self.chunkable, self.rtol, self.atol, bad=self.bad, fixed_order=self.fixed_order)
        c.kwargs.update(extra or {})
        return c


def deep(o, f):
    if isinstance(o, (xr.DataArray, xr.Dataset)):
        return f(o)
    if isinstance(o, tuple):
        return tuple(deep(x, f) for x in o)
    if isinstance(o, list):
        return [deep(x, f) for x in o]
    if isinstance(o, dict):
        return {k: deep(v, f) for k, v in o.items()}
    return o


def computed(r):
    if isinstance(r, tuple):
        return tuple(computed(x) for x in r)
    if isinstance(r, (xr.DataArray, xr.Dataset)):
        return r.compute()
    return r


NAMES = {"t": "time", "z": "z_l", "zi": "z_i", "y": "yh", "x": "xh", "yq": "yq", "xq": "xq"}


def sizes(ctx, nz=(2, 6), nt=(2, 6), hor=(2, 5)):
    rng = ctx.rng
    return int(rng.integers(*nt)), int(rng.integers(*nz)), int(rng.integers(*hor)), int(rng.integers(*hor))


def num(rng, a, b):
    """a number for an option; whole about as often as not"""
    v = float(rng.uniform(a, b))
    if rng.random() < 0.4:
        v = float(round(v))
    return v


def hz(rng, n):
    return np.arange(n) + 0.5 if rng.random() < 0.5 else np.sort(rng.uniform(-80, 80, n))


def fld(rng, mean, std, dims, cs, name=None, units=None, nan=0.0):
    shp = tuple(len(cs[d]) for d in dims)
    a = rng.normal(mean, std, shp)
    if nan:
        a[rng.random(shp) < nan] = np.nan
    da = xr.DataArray(a, dims=dims, coords={d: cs[d] for d in dims}, name=name)
    if units:
        da.attrs = {"units": units, "long_name": "field " + str(name)}
    for d in dims:
        da[d].attrs = {"long_name": "axis " + d}
    return da


def grid(ctx, nz=(2, 6), tkind=None, nt=None, hor=(2, 5)):
    rng = ctx.rng
    t, z, y, x = sizes(ctx, nz=nz, hor=hor)
    t = nt or t
    zi = np.concatenate([[0.0], np.cumsum(rng.uniform(5, 200, z))])
    cs = {"time": np.arange(t) * 1.0, "z_l": 0.5 * (zi[1:] + zi[:-1]), "z_i": zi, "yh": hz(rng, y), "xh": hz(rng, x)}
    return cs


def state(ctx, cs, nan=0.05):
    rng = ctx.rng
    d = ("time", "z_l", "yh", "xh")
    return fld(rng, 14, 5, d, cs, "thetao", "degC", nan), fld(rng, 35, 1, d, cs, "so", "psu", nan)


def zarg(n):
    return {} if n["z"] == "z_l" else {"zcoord": n["z"]}


def badeos(rng):
    return str(rng.choice(["unesco", "wrong", "lineal", "Wright97", "w", "l", "wright ", "linear_", "eos"]))


# ------------------------------------------------------------------ builders


def b_rho(ctx):
    from momlevel import derived as D
    rng = ctx.rng
    cs = grid(ctx)
    T, S = state(ctx, cs)
    fn = [D.calc_rho, D.calc_alpha, D.calc_beta][int(rng.integers(3))]
    p = fld(rng, 1e6, 1e5, ("z_l",), cs, "pres") if rng.random() < 0.4 else (T.z_l * 1e4 + 101325.0 if rng.random() < 0.7 else 2.0e6)
    kw = {"eos": str(rng.choice(["Wright", "linear", "WRIGHT"]))}
    if kw["eos"] == "linear":
        p = float(2e6)
    return Call(fn.__name__, fn, [T, S, p], kw, NAMES, lambda n: {}, {"t", "z", "y", "x"}, bad={"eos": badeos(rng)})


def b_pdens(ctx):
    from momlevel import derived as D
    rng = ctx.rng
    cs = grid(ctx)
    T, S = state(ctx, cs)
    kw = {"level": float(rng.choice([0.0, 500.0, 7500.0, 1234.5])), "eos": str(rng.choice(["Wright", "linear"]))}
    if rng.random() < 0.3:
        kw["patm"] = 1.0e5
    return Call("calc_pdens", D.calc_pdens, [T, S], kw, NAMES, lambda n: {}, {"t", "z", "y", "x"}, bad={"level": 9000.0})


def b_ibh(ctx):
    import momlevel as ml
    rng = ctx.rng
    cs = grid(ctx)
    d = ("time", "yh", "xh")
    T, S, P = fld(rng, 14, 5, d, cs, "tos", "degC", 0.05), fld(rng, 35, 1, d, cs, "sos", "psu", 0.05), fld(rng, 1e5, 1e3, d, cs, "pso", "Pa", 0.05)
    kw = {"gravity": float(rng.choice([9.8, 9.81, 10.0])), "equation_of_state": str(rng.choice(["Wright", "linear"]))}
    return Call("inverse_barometer", ml.inverse_barometer, [T, S, P], kw, NAMES, lambda n: {}, {"t", "y", "x"}, bad={"equation_of_state": badeos(rng)})


def ocean_ds(ctx, cs):
    rng = ctx.rng
    T, S = state(ctx, cs)
    ds = xr.Dataset({"thetao": T, "so": S})
    ds["volcello"] = fld(rng, 2e12, 2e11, ("time", "z_l", "yh", "xh"), cs, None, "m3", 0.03)
    ds["volcello"][dict(yh=0, xh=0)] = 1e12
    a = np.abs(fld(rng, 1, 0.1, ("yh", "xh"), cs))
    ds["areacello"] = (a / a.sum() * G.OCEAN_AREA).assign_attrs(units="m2")
    ds["deptho"] = np.abs(fld(rng, 300, 200, ("yh", "xh"), cs, None, "m", 0.1)) if rng.random() < 0.5 else fld(rng, 4e3, 10, ("yh", "xh"), cs, None, "m")
    ds = ds.assign_coords(z_i=cs["z_i"])
    for c in ds.coords:
        ds[c].attrs = {"long_name": "axis " + str(c), "units": "m"} if c not in ("time",) else {"long_name": "time"}
    ds.attrs["title"] = "generated"
    return ds


def coordmap(n):
    m = {k: n[r] for k, r, d in (("t", "t", "time"), ("z", "z", "z_l"), ("zbounds", "zi", "z_i")) if n[r] != d}
    return {"coord_names": m} if m else {}


def b_steric(ctx):
    import momlevel as ml
    from momlevel import reference as RF
    rng = ctx.rng
    annual = rng.random() < 0.25
    cs = grid(ctx)
    if annual:
        cal = str(rng.choice(O.CALENDARS))
        cs["time"] = G.obj_time(G.monthly_axis(rng, 1999, int(rng.integers(1, 3)), cal))
    ds = ocean_ds(ctx, cs)
    kw = {"domain": str(rng.choice(["local", "global"])), "equation_of_state": str(rng.choice(["Wright", "linear"])),
          "rhozero": float(rng.choice([1035.0, 1025.0])), "dtype": str(rng.choice(["float32", "float64"]))}
    if annual:
        kw["annual"] = True
    if rng.random() < 0.3:
        kw["patm"] = float(rng.choice([0.0, 1e5]))
    if rng.random() < 0.5:
        ds2 = ds.copy(deep=True)
        ds2["thetao"] = ds2["thetao"] + 0.5
        kw["reference"] = RF.setup_reference_state(ds2.isel(time=[0]), patm=kw.get("patm", 101325.0), eos=kw["equation_of_state"])
    fn = [ml.steric, ml.thermosteric, ml.halosteric][int(rng.integers(3))]
    free = {"y", "x"} | ({"t"} if "reference" in kw and not annual else set())
    return Call(fn.__name__, fn, [ds], kw, NAMES, coordmap, free, rtol=1e-8, atol=1e-9, bad={"equation_of_state": badeos(rng)})


def b_ref(ctx):
    from momlevel import reference as RF
    rng = ctx.rng
    ds = ocean_ds(ctx, grid(ctx))
    kw = {"time_index": int(rng.choice([0, 1, -1])), "eos": str(rng.choice(["Wright", "linear"]))}
    return Call("setup_reference_state", RF.setup_reference_state, [ds], kw, NAMES, coordmap, {"y", "x"}, rtol=1e-8, bad={"eos": badeos(rng)})


def b_totals(ctx):
    from momlevel import derived as D
    rng = ctx.rng
    cs = grid(ctx)
    d = ("time", "z_l", "yh", "xh")
    k = int(rng.integers(3))
    rho, v = fld(rng, 1030, 3, d, cs, "rho", "kg m-3", 0.05), fld(rng, 1e12, 1e11, d[1:], cs, "volcello", "m3", 0.05)
    if k == 0:
        return Call("calc_masso", D.calc_masso, [rho, v], {}, NAMES, lambda n: {} if n["t"] == "time" else {"tcoord": n["t"]}, {"t", "z", "y", "x"})
    if k == 1:
        return Call("calc_volo", D.calc_volo, [v], {}, NAMES, lambda n: {}, {"z", "y", "x"})
    return Call("calc_rhoga", D.calc_rhoga, [fld(rng, 1e20, 1e18, ("time",), cs, "masso", "kg"), fld(rng, 1e17, 1e15, ("time",), cs, "volo", "m3")], {}, NAMES, lambda n: {}, {"t"})


def b_dz(ctx):
    from momlevel import derived as D
    rng = ctx.rng
    cs = grid(ctx)
    lev = xr.DataArray(cs["z_l"], dims=("z_l",), coords={"z_l": cs["z_l"]}, name="z_l", attrs={"units": "m"})
    itf = xr.DataArray(cs["z_i"], dims=("z_i",), coords={"z_i": cs["z_i"]}, name="z_i", attrs={"units": "m"})
    dep = np.abs(fld(rng, 300, 200, ("yh", "xh"), cs, "deptho", "m", 0.1))
    kw = {}
    if rng.random() < 0.5:
        kw["bottom"] = num(rng, 0, cs["z_i"][-1])
    if rng.random() < 0.3:
        kw["top"] = float(rng.choice(cs["z_i"][:-1])) if rng.random() < 0.6 else float(round(rng.uniform(0, cs["z_i"][-1])))
    if rng.random() < 0.3:
        kw["fraction"] = True
    return Call("calc_dz", D.calc_dz, [lev, itf, dep], kw, NAMES, lambda n: {}, {"y", "x"})


def b_n2(ctx):
    from momlevel import derived as D
    rng = ctx.rng
    cs = grid(ctx, nz=(3, 7))
    T, S = state(ctx, cs)
    if rng.random() < 0.6:
        T, S = T.isel(time=0, drop=True), S.isel(time=0, drop=True)
    k = int(rng.integers(2))
    eos = str(rng.choice(["Wright", "linear"]))
    free = {"t", "y", "x"}
    if k == 0:
        kw = {"eos": eos}
        if rng.random() < 0.3:
            kw["gravity"] = -9.81
        return Call("calc_n2", D.calc_n2, [T, S], kw, NAMES, zarg, free, {"t", "y", "x"}, rtol=1e-7, atol=1e-13, bad={"eos": badeos(rng)})
    P = T.z_l * 1e4 + 101325.0
    P = P.broadcast_like(T)
    return Call("calc_stability_angle", D.calc_stability_angle, [T, S, P], {"eos": eos}, NAMES, zarg, free, {"t", "y", "x"}, rtol=1e-6, atol=1e-6, bad={"eos": badeos(rng)})


def b_adjust(ctx):
    from momlevel import derived as D
    rng = ctx.rng
    cs = grid(ctx, nz=(2, 7))
    d = ("z_l", "yh", "xh")
    n2 = fld(rng, 1e-5, 1e-4, d, cs, "n2", "s-2", 0.1)
    n2 = n2.where(rng.random(n2.shape) > 0.1, 0.0)
    if rng.random() < 0.5:
        return Call("adjust_negative_n2", D.adjust_negative_n2, [n2], {}, NAMES, zarg, {"y", "x"}, fixed_order=True)
    dz = np.abs(fld(rng, 50, 20, d, cs, "dz", "m"))
    return Call("calc_wave_speed", D.calc_wave_speed, [n2, dz], {}, NAMES, zarg, {"y", "x"}, fixed_order=True)


def b_rd(ctx):
    from momlevel import derived as D
    rng = ctx.rng
    cs = grid(ctx)
    w = np.abs(fld(rng, 2, 0.5, ("yh", "xh"), cs, "c1", "m s-1", 0.1))
    if rng.random() < 0.5:
        return Call("calc_coriolis", D.calc_coriolis, [fld(rng, 0, 40, ("yh", "xh"), cs, "geolat", "degrees_north")], {}, NAMES, lambda n: {}, {"y", "x"}, atol=1e-18)
    f = fld(rng, 0, 1e-4, ("yh", "xh"), cs, "f", "s-1")
    return Call("calc_rossby_rd", D.calc_rossby_rd, [w, f], {}, NAMES, lambda n: {}, {"y", "x"})


def uv_grid(ctx):
    rng = ctx.rng
    cs = grid(ctx, hor=(2, 6))
    sym = rng.random() < 0.5
    cs["yq"] = np.arange(len(cs["yh"]) + sym) * 1.0
    cs["xq"] = np.arange(len(cs["xh"]) + sym) * 1.0
    return cs, sym


def uvmap(sym):
    def f(n):
        k = {"symmetric": True} if sym else {}
        if (n["x"], n["y"], n["xq"], n["yq"]) != ("xh", "yh", "xq", "yq"):
            k["coord_dict"] = {"xcenter": n["x"], "ycenter": n["y"], "xcorner": n["xq"], "ycorner": n["yq"]}
        return k

    return f


def b_vort(ctx):
    from momlevel import derived as D
    rng = ctx.rng
    cs, sym = uv_grid(ctx)
    lead = ("time", "z_l")[: int(rng.integers(0, 3))]
    if rng.random() < 0.5:
        ds = xr.Dataset({"uo": fld(rng, 0, 1, lead + ("yh", "xq"), cs, None, "m s-1", 0.03), "vo": fld(rng, 0, 1, lead + ("yq", "xh"), cs, None, "m s-1", 0.03),
                         "dxCu": np.abs(fld(rng, 1e4, 1e3, ("yh", "xq"), cs)), "dyCv": np.abs(fld(rng, 1e4, 1e3, ("yq", "xh"), cs)),
                         "areacello_bu": np.abs(fld(rng, 1e8, 1e7, ("yq", "xq"), cs))})
        vm = {"u": "uo", "v": "vo", "dx": "dxCu", "dy": "dyCv", "area": "areacello_bu"}
        kw = {"varname_map": vm} if rng.random() < 0.4 else {}
        m = uvmap(sym)
        return Call("calc_rel_vort", D.calc_rel_vort, [ds], {**kw, **m(NAMES)}, NAMES, m, {"t", "z"}, {"t", "z"}, rtol=1e-8, atol=1e-12, bad={"varname_map": {"u": "nou"}})
    z = fld(rng, 0, 1e-5, lead + ("yq", "xq"), cs, "zeta", "s-1", 0.03)
    f = fld(rng, 0, 1e-4, ("yq", "xq"), cs, "f", "s-1")
    n2 = fld(rng, 1e-5, 1e-5, lead + ("yh", "xh"), cs, "n2", "s-2", 0.03)
    m = uvmap(sym)
    kw = {"units": str(rng.choice(["m", "cm"]))}
    if rng.random() < 0.3:
        kw["gravity"] = 9.81
    return Call("calc_pv", D.calc_pv, [z, f, n2], {**kw, **m(NAMES)}, NAMES, m, {"t", "z"}, {"t", "z"}, rtol=1e-8, atol=1e-20 if kw["units"] == "m" else 1e-8, bad={"units": "km"})


def b_spice(ctx):
    from momlevel import derived as D
    cs = grid(ctx)
    T, S = state(ctx, cs)
    return Call("calc_spice", D.calc_spice, [T, S], {}, NAMES, lambda n: {}, {"t", "z", "y", "x"})


def tc(key="tcoord"):
    return lambda n: {} if n["t"] == "time" else {key: n["t"]}


def series(ctx, tv, name="zos", nan=0.05, od=None):
    rng = ctx.rng
    od = od if od is not None else [(), ("yh", "xh"), ("xh",)][int(rng.integers(3))]
    cs = {"time": tv, "yh": hz(rng, int(rng.integers(2, 4))), "xh": hz(rng, int(rng.integers(2, 4)))}
    return fld(rng, 5, 2, ("time",) + od, cs, name, "m", nan)


def b_average(ctx):
    from momlevel import util as U
    rng = ctx.rng
    cal = str(rng.choice(O.CALENDARS))
    y0 = int(rng.choice([1999, 2000, 1900, 850])) if cal not in ("standard", "gregorian") else 1999
    k = int(rng.integers(3))
    if k == 1:
        tv = G.obj_time(G.daily_axis(y0, 1, cal, 12))
    else:
        tv = G.obj_time(G.monthly_axis(rng, y0, int(rng.integers(1, 4)), cal, str(rng.choice(["mid", "any"]))))
    if rng.random() < 0.5:
        obj = series(ctx, tv)
    else:
        cs_od = ("yh", "xh")
        a = series(ctx, tv, "zos", 0.05, cs_od)
        obj = xr.Dataset({"zos": a, "tos": a * 2 + 1})
        obj["tos"].attrs = {"units": "K"}
        obj.attrs = {"title": "record"}
    fn = [U.annual_average, U.monthly_average, U.annual_cycle][k]
    kw = {}
    if k == 2:
        kw["func"] = str(rng.choice(["mean", "min", "max", "std"]))
        if rng.random() < 0.4:
            kw["time_axis_year"] = 2001
    free = {"y", "x"} | ({"t"} if k != 2 or "time_axis_year" in kw else set())
    return Call(fn.__name__, fn, [obj], kw, {k: v for k, v in NAMES.items() if k in "tyx"}, tc(), free, rtol=1e-9, atol=1e-11 if kw.get("func") != "std" else 1e-7,
                bad={"func": "median"} if k == 2 else {"tcoord": "nowhere"})


def b_trend(ctx):
    from momlevel import trend as TR
    from momlevel import util as U
    rng = ctx.rng
    cal = str(rng.choice(O.CALENDARS))
    tv = G.obj_time(G.monthly_axis(rng, 1999, int(rng.integers(1, 4)), cal))
    if rng.random() < 0.25:
        tv = np.datetime64("1999-01-01", "ns") + np.arange(int(rng.integers(5, 30))) * np.timedelta64(30, "D").astype("timedelta64[ns]")
    a = series(ctx, tv)
    nm = {k: v for k, v in NAMES.items() if k in "tyx"}
    k = int(rng.integers(4))
    if k == 0:
        kw = {"time_units": str(rng.choice(L.UNITS))} if rng.random() < 0.6 else {}
        return Call("calc_linear_trend", TR.calc_linear_trend, [a], kw, nm, tc("dim"), {"y", "x"}, rtol=1e-6, atol=1e-20 if not kw else 1e-12, bad={"time_units": "eon"})
    if k == 1 or k == 3:
        fn = TR.linear_detrend if k == 1 or rng.random() < 0.5 else U.linear_detrend
        obj = a if rng.random() < 0.5 else xr.Dataset({"zos": a, "static": xr.DataArray([1.0, 2.0], dims=("q",))})
        return Call("linear_detrend", fn, [obj], {"mode": str(rng.choice(["remove", "correct"]))}, nm, tc("dim"), {"y", "x"}, rtol=1e-6, atol=1e-6, bad={"mode": "fix"})
    sl = series(ctx, tv).isel(time=0, drop=True).rename("zos_slope")
    u = str(rng.choice(["m yr-1", "m  day-1", "ns-1"]))
    sl.attrs = {"units": u, "comment": "slope"}
    ax = a["time"]
    return Call("broadcast_trend", TR.broadcast_trend, [sl, ax], {"subtract_time_zero": bool(rng.random() < 0.5)}, nm, lambda n: {}, {"y", "x"}, rtol=1e-9, atol=1e-9)


def b_season(ctx):
    from momlevel import trend as TR
    rng = ctx.rng
    cal = str(rng.choice(O.CALENDARS))
    nm = {k: v for k, v in NAMES.items() if k in "tyx"}
    if rng.random() < 0.5:
        tv = G.obj_time(G.monthly_axis(rng, 1999, int(rng.integers(1, 4)), cal))
        a = series(ctx, tv, nan=0.0)
        return Call("seasonal_model", TR.seasonal_model, [a], {"return_model": bool(rng.random() < 0.5)}, nm, tc(), {"t", "y", "x"}, rtol=1e-7, atol=1e-9)
    tv = G.obj_time(G.daily_axis(1999, int(rng.integers(1, 3)), cal, 12))
    a = series(ctx, tv, nan=0.0)
    return Call("deseason", TR.deseason, [a], {"output_format": str(rng.choice(["residuals", "model", "coeff"]))}, nm, tc("tdim"), {"y", "x"}, rtol=1e-7, atol=1e-9, bad={"output_format": "none"})


def b_gauge(ctx):
    import momlevel as ml
    rng = ctx.rng
    cs = {"time": np.arange(3.0), "yh": np.arange(int(rng.integers(2, 6))) + 0.5, "xh": np.arange(int(rng.integers(2, 6))) + 0.5}
    a = fld(rng, 0, 1, ("time", "yh", "xh"), cs, "ssh", "m")
    d = ("yh", "xh")
    la = xr.DataArray(np.linspace(20, 45, len(cs["yh"]))[:, None] + rng.uniform(-1, 1, (len(cs["yh"]), len(cs["xh"]))), dims=d, coords={k: cs[k] for k in d}, name="geolat")
    lo = xr.DataArray(np.linspace(-98, -65, len(cs["xh"]))[None, :] + rng.uniform(-1, 1, la.shape), dims=d, coords={k: cs[k] for k in d}, name="geolon")
    m = xr.DataArray((rng.random(la.shape) < 0.8) * 1.0, dims=d, coords={k: cs[k] for k in d}, name="wet")
    m[0, 0] = 1.0
    if rng.random() < 0.3:
        m = m.where(rng.random(la.shape) > 0.2)
        m[0, 0] = 1.0
    path = os.path.join(ctx.tmpdir(), str(rng.choice(["sites", "sites ", "us", "global", "us_tide_gauges"])) + f"{int(rng.integers(1e6))}.csv")
    k = int(rng.integers(1, 6))
    pd.DataFrame({"name": [f"S{i}" for i in range(k)], "lat": rng.uniform(20, 45, k), "lon": rng.uniform(-98, -65, k)}).to_csv(path, index=False)
    kw = {"csv": path, "mask": m, "xcoord": lo, "ycoord": la}
    if rng.random() < 0.4:
        kw["threshold"] = num(rng, 100, 900)
    nm = {k: v for k, v in NAMES.items() if k in "tyx"}
    c = Call("extract_tidegauge", ml.extract_tidegauge, [a], kw, nm, lambda n: {}, {"t", "y", "x"}, bad={"csv": "/nonexistent/sites.csv"})
    return c


def b_geoloc(ctx):
    from momlevel import util as U
    rng = ctx.rng
    n, k = int(rng.integers(3, 40)), int(rng.integers(1, 8))
    df = pd.DataFrame({"geolat": rng.uniform(-80, 80, n), "geolon": rng.uniform(-180, 180, n), "mask": (rng.random(n) < 0.8) * 1.0})
    df.loc[0, "mask"] = 1.0
    lc = pd.DataFrame({"name": [f"s{i}" for i in range(k)], "lat": rng.uniform(-80, 80, k), "lon": rng.uniform(-180, 180, k)})
    kw = {"threshold": num(rng, 100, 9000)} if rng.random() < 0.5 else {}
    if rng.random() < 0.4:
        kw["apply_mask"] = bool(rng.random() < 0.3)
    if rng.random() < 0.3:
        df = df.drop(columns="mask")
    return Call("geolocate_points", U.geolocate_points, [df, lc], kw, {}, None, bad={"model_coords": ("no", "coords")})


def b_area(ctx):
    from momlevel import util as U
    rng = ctx.rng
    ny, nx = int(rng.integers(2, 9)), int(rng.integers(2, 9))
    la = -90 + (np.arange(ny) + 0.5) * 180 / ny
    lo = (np.arange(nx) + 0.5) * 360 / nx
    a = xr.DataArray(la, dims=("yh",), coords={"yh": la}, name="yh", attrs={"units": "degrees_north"})
    b = xr.DataArray(lo, dims=("xh",), coords={"xh": lo}, name="xh")
    nm = {"y": "yh", "x": "xh"}
    if rng.random() < 0.5:
        return Call("standard_grid_cell_area", U.standard_grid_cell_area, [a, b], {}, nm, lambda n: {}, (), rtol=1e-9)
    return Call("tile_nominal_coords", U.tile_nominal_coords, [b, a], {"warn": bool(rng.random() < 0.5)}, nm, lambda n: {}, {"y", "x"})


def b_eos(ctx):
    from momlevel.eos import linear, wright
    rng = ctx.rng
    mod = [linear, wright][int(rng.integers(2))]
    fn = getattr(mod, str(rng.choice(["density", "drho_dtemp", "drho_dsal", "alpha", "beta"])))
    sh = (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
    T, S, P = rng.normal(15, 5, sh), rng.normal(35, 1, sh), rng.uniform(0, 1e7, sh)
    if rng.random() < 0.3:
        T, S = np.round(T).astype(int), np.round(S).astype(int)
    return Call("eos." + fn.__name__, fn, [T, S, P], {}, {}, None)


def b_flament(ctx):
    from momlevel.spice import flament
    rng = ctx.rng
    sh = (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
    return Call("flament.spice", flament.spice, [rng.normal(15, 5, sh), rng.normal(35, 1, sh)], {}, {}, None)


def b_factor(ctx):
    return b_misc(ctx, 1)


def b_misc(ctx, k=None):
    from momlevel import trend as TR
    from momlevel import util as U
    rng = ctx.rng
    k = int(rng.integers(6)) if k is None else k
    if k == 0:
        m = {r: f"{r}_{int(rng.integers(3))}" for r in ("t", "z", "zbounds", "x", "y") if rng.random() < 0.5}
        return Call("default_coords", lambda c: list(U.default_coords(c)), [m], {}, {}, None)
    if k == 1:
        return Call("time_conversion_factor", TR.time_conversion_factor, [str(rng.choice(L.UNITS)), str(rng.choice(L.UNITS))], {k: float(v) for k, v in (("days_per_month", rng.uniform(28, 32)), ("days_per_year", rng.choice([360.0, 365.25]))) if rng.random() < 0.3}, {}, None, bad={"days_per_year": 0.0})
    ds = ocean_ds(ctx, grid(ctx))
    if k == 2:
        return Call("alphabetize_dataset", U.alphabetize_dataset, [ds], {}, {}, None)
    if k == 3:
        def f(d, **kk):
            return np.array(0 if U.validate_dataset(d, **kk) is None else 1)
        return Call("validate_dataset", f, [ds], {"additional_vars": G.perm(rng, ["thetao", "deptho", "so"])[: int(rng.integers(1, 4))]}, {}, None, bad={"additional_vars": ["so", "deptho", "nothere", "absent"]})
    if k == 4:
        return Call("validate_areacello", lambda a: np.array(U.validate_areacello(a)), [ds["areacello"]], {}, {}, None)
    ts = rng.normal(size=int(rng.integers(200, 500)))
    d = [365.0, 360][int(rng.integers(2))] if rng.random() < 0.5 else np.full(len(ts), 365)
    return Call("seasonal_cycle_model", TR.seasonal_cycle_model, [ts], {"daysinyear": d}, {}, None)


GRIDDED = [b_rho, b_pdens, b_ibh, b_steric, b_steric, b_ref, b_totals, b_dz, b_n2, b_adjust, b_rd, b_vort, b_spice, b_average, b_average, b_trend, b_trend, b_season, b_gauge, b_area]
EVERYTHING = GRIDDED + [b_geoloc, b_eos, b_flament, b_misc, b_misc, b_factor]


# ------------------------------------------------------------------ variations of the canonical form

STATIC = {"areacello", "geolat", "geolon", "wet", "mask", "dxCu", "dyCv", "areacello_bu", "f", "dz", "deptho", "z_l", "z_i"}
NO_SHAPE = {"standard_grid_cell_area", "tile_nominal_coords"}


def each(o, f):
    """applies f to every data array"""
    if isinstance(o, xr.DataArray):
        return f(o)
    return o.assign({v: f(o[v]) for v in o.data_vars})


def reselect(c, d, idx, labels):
    """takes positions of one dimension in all inputs; the area of the ocean is kept"""

    def f(o):
        if d not in o.dims:
            return o
        r = o.isel({d: idx})
        if labels is not None and d in r.coords:
            r = r.assign_coords({d: (d, labels, o[d].attrs)})
        if isinstance(o, xr.Dataset) and "areacello" in o:
            r["areacello"] = (r["areacello"] * (o["areacello"].sum() / r["areacello"].sum())).assign_attrs(o["areacello"].attrs)
        return r

    return c.mapped(f)


def new_labels(rng, n, style):
    if style == "int":
        return np.arange(n) + int(rng.integers(0, 50))
    if style == "desc":
        return np.arange(n)[::-1] * 1.5
    if style == "unsorted":
        return rng.permutation(n) * 2.0
    if style == "str":
        return np.array([f"p{i:04d}" for i in range(n)])
    return np.sort(rng.uniform(-180, 180, n))


def vary(ctx, c, unlabelled=True, f4=False, skip=()):
    rng = ctx.rng
    hor = [r for r in ("y", "x") if r in c.free and r in c.names]
    used = set()
    c.mapped(lambda o: (used.update(map(str, o.dims)), o)[1])
    hor = [r for r in hor if c.names[r] in used]
    todo = [k for k in ("one", "wide", "labels", "slab", "ints", "single", "noname", "scalar", "curvilinear", "layout") if rng.random() < 0.13]
    todo = [k for k in todo if k not in skip]
    if c.name in NO_SHAPE:
        todo = [k for k in todo if k in ("scalar",)]
    if c.name == "extract_tidegauge":
        todo = [k for k in todo if k in ("labels", "slab", "scalar", "ints")]
    if c.name == "broadcast_trend":
        todo = [k for k in todo if k in ("one", "wide", "labels", "slab", "scalar")]
    if "wide" in todo and rng.random() < 0.5:
        todo.remove("wide")
    did = []
    for k in todo:
        if k == "one" and hor:
            d = c.names[hor[int(rng.integers(len(hor)))]]
            c = reselect(c, d, slice(0, 1), None)
        elif k == "wide" and hor:
            d = c.names[hor[int(rng.integers(len(hor)))]]
            n = {}
            c.mapped(lambda o: (n.update({"n": o.sizes[d]}) if d in o.dims else None, o)[1])
            m = int(rng.integers(60, 300))
            c = reselect(c, d, rng.integers(0, n["n"], m), np.arange(m) * 0.5)
        elif k == "labels" and hor:
            d = c.names[hor[int(rng.integers(len(hor)))]]
            style = str(rng.choice(["int", "desc", "unsorted", "str", "float"] + (["none"] if unlabelled and c.name != "extract_tidegauge" else [])))
            lab = {}

            def f(o):
                if d not in o.dims:
                    return o
                if style == "none":
                    return o.drop_vars(d) if d in o.coords else o
                if not lab:
                    lab["l"] = new_labels(rng, o.sizes[d], style)
                return o.assign_coords({d: (d, lab["l"], o[d].attrs if d in o.coords else {})})

            c = c.mapped(f)
            k = "labels_" + style
        elif k == "slab":
            roles = [r for r in ("t", "z", "y", "x") if r in c.names and c.names[r] in used]
            if not roles:
                continue
            d = c.names[roles[int(rng.integers(len(roles)))]]
            pos = int(rng.choice([0, -1, 1]))

            def f(o):
                def g(a):
                    if d not in a.dims or a.name in STATIC or a.dtype.kind != "f" or a.ndim < 2:
                        return a
                    i = pos if pos < a.sizes[d] else 0
                    keep = np.ones(a.sizes[d], bool)
                    keep[i] = False
                    return a.where(xr.DataArray(keep, dims=(d,)))

                return each(o, g)

            c = c.mapped(f)
        elif k == "ints":
            def f(o):
                def g(a):
                    if a.name in STATIC or a.dtype.kind != "f" or a.ndim < 1 or rng.random() < 0.4:
                        return a
                    v = a.values
                    if not np.isfinite(v).all() or np.abs(v).max() < 10:
                        return a
                    return np.round(a).astype("int64").assign_attrs(a.attrs)

                return each(o, g)

            c = c.mapped(f)
        elif k == "single" and f4:
            c = c.mapped(lambda o: each(o, lambda a: a.astype("f4") if a.dtype == np.float64 and a.name not in STATIC and rng.random() < 0.7 else a))
        elif k == "layout":
            c = c.mapped(lambda o: each(o, lambda a: disguise_array(rng, a, attrs=False)))
        elif k == "noname":
            c = c.mapped(lambda o: o.rename(None) if isinstance(o, xr.DataArray) else o)
        elif k == "scalar":
            c = c.mapped(lambda o: o.assign_coords(height0=2.0))
        elif k == "curvilinear" and len(hor) == 2:
            ds = tuple(c.names[r] for r in ("y", "x"))
            v = {}

            def f(o):
                if not set(ds) <= set(o.dims):
                    return o
                if not v:
                    v["v"] = rng.uniform(-90, 90, tuple(o.sizes[q] for q in ds))
                return o.assign_coords(nav_lat=(ds, v["v"]))

            c = c.mapped(f)
        else:
            continue
        did.append(k)
    if did:
        ctx.note(varied=",".join(did))
        for k in did:
            ctx.count("varied: " + k)
    return c


def draw(ctx, pool=None, unlabelled=True, f4=False):
    pool = pool or EVERYTHING
    i = int(ctx.rng.integers(len(pool)))
    c = pool[i](ctx)
    if c.names:
        c = vary(ctx, c, unlabelled, f4)
    ctx.note(call=c.name)
    for k, v in c.kwargs.items():
        if isinstance(v, (str, bool, float, int)) and k != "csv":
            ctx.note(**{"kw_" + k: v if isinstance(v, (str, bool)) else "set"})
    return c

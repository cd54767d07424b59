"""C32 documented defaults and calling conventions."""
import pathlib

import numpy as np
import pandas as pd
import xarray as xr

from vmon import catalogue as K
from vmon import gen as G
from vmon.core import Skip

CASES = {"quick": 4000, "thorough": 40000}
RULE = (
    "every public calculation called with a random subset of its options omitted, then again with the documented defaults spelled out, with "
    "arguments by position in the documented order, entirely by keyword, and with NumPy instead of Python numbers, truth values and strings; results must "
    "agree; distinct by feature tuple"
)
ASSUMPTIONS = ["the table in c32.py transcribes the documented signatures", "names and order of the documented arguments are part of the interface"]

REQ = object()
T = {
    "calc_rho": [("thetao", REQ), ("so", REQ), ("pres", REQ), ("eos", "Wright")],
    "calc_alpha": [("thetao", REQ), ("so", REQ), ("pres", REQ), ("eos", "Wright")],
    "calc_beta": [("thetao", REQ), ("so", REQ), ("pres", REQ), ("eos", "Wright")],
    "calc_pdens": [("thetao", REQ), ("so", REQ), ("level", 0.0), ("patm", 101325.0), ("eos", "Wright")],
    "inverse_barometer": [("tos", REQ), ("sos", REQ), ("pso", REQ), ("gravity", 9.8), ("equation_of_state", "Wright")],
    "steric": [("dset", REQ), ("reference", None), ("coord_names", None), ("varname_map", None), ("rhozero", 1035.0), ("patm", 101325.0), ("equation_of_state", "Wright"),
               ("variant", "steric"), ("domain", "local"), ("dtype", "float32"), ("strict", True), ("annual", False), ("verbose", False)],
    "setup_reference_state": [("dset", REQ), ("patm", 101325.0), ("eos", "Wright"), ("coord_names", None), ("time_index", 0)],
    "calc_masso": [("rho", REQ), ("volcello", REQ), ("tcoord", "time")],
    "calc_volo": [("volcello", REQ)],
    "calc_rhoga": [("masso", REQ), ("volo", REQ)],
    "calc_dz": [("levels", REQ), ("interfaces", REQ), ("depth", REQ), ("top", 0.0), ("bottom", None), ("fraction", False)],
    "calc_n2": [("thetao", REQ), ("so", REQ), ("eos", "Wright"), ("gravity", -9.8), ("patm", 101325.0), ("zcoord", "z_l"), ("interfaces", None), ("adjust_negative", False)],
    "calc_stability_angle": [("thetao", REQ), ("so", REQ), ("pres", REQ), ("eos", "Wright"), ("zcoord", "z_l")],
    "adjust_negative_n2": [("n2", REQ), ("zcoord", "z_l")],
    "calc_wave_speed": [("n2", REQ), ("dz", REQ), ("zcoord", "z_l")],
    "calc_coriolis": [("lat", REQ)],
    "calc_rossby_rd": [("wave_speed", REQ), ("coriolis", REQ)],
    "calc_rel_vort": [("dset", REQ), ("varname_map", None), ("coord_dict", None), ("symmetric", False)],
    "calc_pv": [("zeta", REQ), ("coriolis", REQ), ("n2", REQ), ("gravity", 9.8), ("coord_dict", None), ("symmetric", False), ("units", "m"), ("interp_n2", True)],
    "calc_spice": [("thetao", REQ), ("so", REQ)],
    "annual_average": [("xobj", REQ), ("tcoord", "time")],
    "monthly_average": [("xobj", REQ), ("tcoord", "time")],
    "annual_cycle": [("xobj", REQ), ("tcoord", "time"), ("func", "mean"), ("time_axis_year", None)],
    "calc_linear_trend": [("arr", REQ), ("dim", "time"), ("time_units", None)],
    "linear_detrend": [("xobj", REQ), ("dim", "time"), ("order", 1), ("mode", "remove")],
    "broadcast_trend": [("slope", REQ), ("dim_arr", REQ), ("subtract_time_zero", False)],
    "seasonal_model": [("da_timeseries", REQ), ("tcoord", "time"), ("return_model", False)],
    "deseason": [("arr", REQ), ("tdim", "time"), ("output_format", "residuals")],
    "extract_tidegauge": [("arr", REQ), ("xcoord", "geolon"), ("ycoord", "geolat"), ("csv", "us"), ("mask", None), ("threshold", None), ("disable_warning", True)],
    "geolocate_points": [("df_model", REQ), ("df_locs", REQ), ("threshold", None), ("model_coords", ("geolat", "geolon")), ("rad_earth", 6378.0), ("loc_coords", ("lat", "lon")),
                         ("apply_mask", True), ("disable_warning", True)],
    "standard_grid_cell_area": [("lat", REQ), ("lon", REQ), ("r_earth", 6371.0e3)],
    "tile_nominal_coords": [("xcoord", REQ), ("ycoord", REQ), ("warn", True)],
    "time_conversion_factor": [("src", REQ), ("dst", REQ), ("days_per_month", 30.417), ("days_per_year", 365.0)],
    "seasonal_cycle_model": [("ts", REQ), ("daysinyear", 365.0)],
    "flament.spice": [("thetao", REQ), ("so", REQ)],
}
for k in ("thermosteric", "halosteric"):
    T[k] = [(n, d) for n, d in T["steric"] if n != "variant"]
# options that only go with others of the call
TIED = {"coord_dict", "symmetric", "xcoord", "ycoord", "mask", "csv", "coord_names", "days_per_year"}
POSITIONAL_LIMIT = {"thermosteric": 7, "halosteric": 7}


def npized(ctx, n, v):
    rng = ctx.rng
    if v is None:
        return v
    if isinstance(v, bool):
        ctx.note(npbool=True)
        return np.bool_(v)
    if isinstance(v, str):
        if n == "csv" and v not in ("us", "global"):
            return pathlib.Path(v)
        return np.str_(v)
    if isinstance(v, float):
        if v == int(v) and rng.random() < 0.4:
            return int(v) if rng.random() < 0.5 else np.int64(v)
        return np.float64(v)
    if isinstance(v, int):
        return np.int64(v)
    if isinstance(v, tuple) and all(isinstance(x, str) for x in v):
        return list(v)
    if isinstance(v, dict):
        return dict(reversed(list(v.items())))
    return v


def case(ctx):
    rng = ctx.rng
    c = K.draw(ctx, f4=True)
    if c.name not in T:
        raise Skip("no options")
    spec = T[c.name]
    order = [n for n, _ in spec]
    given = dict(zip(order, c.args))
    given.update(c.kwargs)
    # leave options out
    for n, d in spec:
        if d is not REQ and n in given and n not in TIED and rng.random() < 0.5:
            given.pop(n)
            ctx.note(**{"without_" + n: True})
    for n in list(given):
        if n not in order:
            raise Skip("option outside the table")
    req = [n for n, d in spec if d is REQ]
    opt = {n: v for n, v in given.items() if n not in req}
    fn = c.fn
    base = K.computed(ctx.call(fn, *(given[n] for n in req), **opt))

    def same(got, what):
        ctx.equal_xr(K.computed(got), base, f"{c.name} {what}", rtol=1e-10, atol=1e-12 if isinstance(base, float) else c.atol * 1e-3)

    full = {n: given.get(n, d) for n, d in spec}
    how = ctx.pick("form", ["spelled out", "some spelled out", "positional", "partly positional", "keywords", "numpy"])
    if how == "spelled out":
        same(ctx.call(fn, *(full[n] for n in req), **{n: v for n, v in full.items() if n not in req}), "with its defaults spelled out")
    elif how == "some spelled out":
        extra = {n: v for n, v in full.items() if n not in req and (n in given or rng.random() < 0.5)}
        ks = G.perm(rng, list(extra))
        same(ctx.call(fn, *(full[n] for n in req), **{n: extra[n] for n in ks}), "with some defaults spelled out")
    elif how in ("positional", "partly positional"):
        lim = POSITIONAL_LIMIT.get(c.name, len(order))
        k = lim if how == "positional" else int(rng.integers(len(req), lim + 1))
        ctx.note(npos=k)
        same(ctx.call(fn, *(full[n] for n in order[:k]), **{n: full[n] for n in order[k:] if n in given}), "with positional arguments")
    elif how == "keywords":
        if c.name == "flament.spice":
            raise Skip("positional only in practice")
        ks = G.perm(rng, list(given))
        same(ctx.call(fn, **{n: given[n] for n in ks}), "with keyword arguments")
    else:
        opt = {n: v for n, v in full.items() if n not in req and (n in opt or rng.random() < 0.5)}
        same(ctx.call(fn, *(given[n] for n in req), **{n: npized(ctx, n, v) for n, v in opt.items()}), "with NumPy arguments")

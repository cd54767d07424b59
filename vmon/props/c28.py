"""C28 names, units and coordinate metadata of results."""
import numpy as np
import xarray as xr

from vmon import catalogue as K
from vmon import gen as G

CASES = {"quick": 4000, "thorough": 40000}
RULE = (
    "attributes of the result of every calculation, for inputs with no, ordinary and misleading attributes, in memory and lazy, every "
    "option: units, long and standard names against the documented table, texts against the options used, coordinate attributes against the input; distinct by feature tuple"
)
ASSUMPTIONS = ["the table in c28.py transcribes the units and names given in momlevel's documentation and attribute blocks"]

MISLEADING = {"units": "furlong", "long_name": "Something else", "standard_name": "wrong_name", "comment": "calculated by hand", "cell_methods": "time: mean"}

# call -> (units, long_name, standard_name)
TABLE = {
    "calc_rho": ("kg m-3", "In situ sea water density", "sea_water_density"),
    "calc_alpha": ("degC-1", "Thermal expansion coefficient", None),
    "calc_beta": ("PSU-1", "Haline contraction coefficient", None),
    "inverse_barometer": ("m", "Inverse Barometer Height", None),
    "calc_masso": ("kg", "Sea Water Mass", "sea_water_mass"),
    "calc_volo": ("m3", "Sea Water Volume", "sea_water_volume"),
    "calc_rhoga": ("kg m-3", "Global Average Sea Water Density", None),
    "calc_n2": ("s-2", "Square of seawater buoyancy frequency", "square_of_brunt_vaisala_frequency_in_sea_water"),
    "calc_stability_angle": ("degrees", "Stability angle", None),
    "calc_wave_speed": ("m s-1", "Ocean gravity wave speed of the first baroclinic mode", None),
    "calc_coriolis": ("s-1", "Coriolis parameter", "coriolis_parameter"),
    "calc_rossby_rd": ("m", "Rossby radius of deformation", None),
    "calc_rel_vort": ("s-1", "Ocean relative vorticity", "ocean_relative_vorticity"),
    "calc_spice": ("1", "Sea water spiciness", None),
    "standard_grid_cell_area": ("m2", "area of grid cell", "cell_area"),
}
# names given to results; every other derived array must not pose as one of its inputs
RESULT_NAMES = {"calc_stability_angle": "tu_angle", "inverse_barometer": "ibh", "standard_grid_cell_area": "cell_area"}
UNNAMED = ("calc_rho", "calc_alpha", "calc_beta", "calc_pdens", "calc_coriolis", "calc_rossby_rd", "calc_wave_speed", "calc_spice")
REFERENCE = {"rho": "kg m-3", "volo": "m3", "masso": "kg", "rhoga": "kg m-3"}
BUILDERS = [K.b_rho, K.b_rho, K.b_pdens, K.b_ibh, K.b_steric, K.b_steric, K.b_ref, K.b_totals, K.b_n2, K.b_adjust, K.b_rd, K.b_vort, K.b_spice, K.b_average, K.b_average,
            K.b_trend, K.b_trend, K.b_season, K.b_season, K.b_area, K.b_gauge]


def dressed(ctx, c):
    rng = ctx.rng
    style = ctx.pick("attributes", ["ordinary", "none", "misleading"])
    if style == "ordinary":
        if c.name in ("calc_linear_trend", "linear_detrend", "annual_average", "monthly_average", "annual_cycle", "seasonal_model", "deseason", "extract_tidegauge"):
            u = ctx.pick("units", ["m", "kg m-2", "W m-2 s-1", "1e-3", "", "degrees C", "m  s-1", "1", "%", "m-1", "0"])

            def g(o):
                o = o.copy(deep=True)
                for a in [o] if isinstance(o, xr.DataArray) else [o[v] for v in o.data_vars]:
                    if "units" in a.attrs and a.name not in ("geolat", "geolon", "wet"):
                        a.attrs["units"] = u
                return o

            return c.mapped(g)
        return c
    keep_units = c.name == "broadcast_trend"

    same_name = c.name in UNNAMED and rng.random() < 0.5

    def one(a):
        if style == "none":
            a.attrs = {k: v for k, v in a.attrs.items() if keep_units and k == "units"}
        elif not keep_units:
            a.attrs = dict(MISLEADING)
        for d in a.coords:
            if style == "none":
                a[d].attrs = {}
            else:
                a[d].attrs = {"long_name": "coordinate " + str(d), "axis": "Q", "serial": int(rng.integers(1000))}
        return a

    def f(o):
        o = o.copy(deep=True)
        if isinstance(o, xr.DataArray):
            return one(o.rename("sample") if same_name and o.name not in o.dims else o)
        for v in list(o.data_vars):
            o[v].attrs = {} if style == "none" else dict(MISLEADING)
        for d in o.coords:
            o[d].attrs = {} if style == "none" else {"long_name": "coordinate " + str(d), "serial": int(rng.integers(1000))}
        o.attrs = {} if style == "none" else {"title": "misleading", **MISLEADING}
        return o

    return c.mapped(f)


def plain(d):
    return {str(k): (v if isinstance(v, str) else repr(v)) for k, v in d.items()}


def same_attrs(ctx, got, exp, what):
    ctx.check(plain(got) == plain(exp), f"{what}: attributes", lambda: f"got {got} expected {exp}")


def carries(ctx, r, what, units, long_name=None, standard_name=None):
    ctx.check(str(r.attrs.get("units")).split() == units.split(), f"{what}: units", lambda: f"{r.attrs} expected {units}")
    if long_name is not None:
        ctx.check(r.attrs.get("long_name") == long_name, f"{what}: long name", lambda: f"{r.attrs} expected {long_name}")
    ctx.check(r.attrs.get("standard_name") == standard_name, f"{what}: standard name", lambda: f"{r.attrs} expected {standard_name}")


def names_eos(ctx, r, what, eos):
    ctx.check(eos.lower() in str(r.attrs.get("comment", "")).lower(), f"{what}: text does not name the equation of state", lambda: f"{r.attrs} {eos}")
    for other in ("wright", "linear"):
        if other != eos.lower():
            ctx.check(other not in str(r.attrs.get("comment", "")).lower(), f"{what}: text names another equation of state", lambda: f"{r.attrs} {eos}")


def steric_attrs(ctx, c, r):
    res, ref = r
    variant, ds = c.name, c.args[0]
    carries(ctx, res[variant], variant, "m", f"{variant.capitalize()} height adjustment")
    dom = c.kwargs["domain"]
    if dom == "global":
        carries(ctx, res["reference_height"], "reference_height", "m", "Reference column height")
    else:
        carries(ctx, res["delta_rho"], "delta_rho", "kg m-3", "change in in situ density from reference state")
    for x in res.coords:
        if x in ds.variables:
            same_attrs(ctx, res[x].attrs, ds[x].attrs, f"{variant}: coordinate {x}")
    if "reference" not in c.kwargs:
        reference_attrs(ctx, ref, c.kwargs["equation_of_state"])


def reference_attrs(ctx, ref, eos):
    for v, u in REFERENCE.items():
        ctx.check(ref[v].attrs.get("units") == u, f"reference {v}: units", lambda: str(ref[v].attrs))
    names_eos(ctx, ref["rho"], "reference rho", eos)


def result_name(ctx, c, r):
    if not isinstance(r, xr.DataArray):
        return
    if c.name in RESULT_NAMES:
        ctx.check(r.name == RESULT_NAMES[c.name], f"{c.name}: name of the result", lambda: f"{r.name}")
    elif c.name in UNNAMED:
        ins = {a.name for a in list(c.args) + list(c.kwargs.values()) if isinstance(a, xr.DataArray)} - {None}
        ctx.check(r.name not in ins, f"{c.name}: result carries the name of an input", lambda: f"{r.name}")


def average_attrs(ctx, c, r):
    x = c.args[0]
    t = c.kwargs.get("tcoord", "time")
    what = c.name
    for d in x.coords:
        if d in r.coords and (d != t or c.name == "annual_average"):
            same_attrs(ctx, r[d].attrs, x[d].attrs, f"{what}: coordinate {d}")
    if isinstance(x, xr.Dataset):
        for v in r.data_vars:
            same_attrs(ctx, r[v].attrs, x[v].attrs, f"{what}: variable")
        if c.name == "annual_average":
            same_attrs(ctx, r.attrs, x.attrs, f"{what}: dataset")
    else:
        same_attrs(ctx, r.attrs, x.attrs, f"{what}: array")
        ctx.check(r.name == x.name, f"{what}: name", f"{r.name}")


def trend_attrs(ctx, c, r):
    x = c.args[0]
    u = x.attrs.get("units", "")
    unit = c.kwargs.get("time_units", "ns")
    s, i = r[f"{x.name}_slope"], r[f"{x.name}_intercept"]
    ctx.check(str(s.attrs.get("units")).split() == (u.split() + [f"{unit}-1"]), "trend: units of the slope", lambda: f"{s.attrs}")
    ctx.check(i.attrs.get("units", "") == u, "trend: units of the intercept", lambda: f"{i.attrs}")
    for a in (s, i):
        for k in ("long_name", "standard_name"):
            ctx.check(a.attrs.get(k) == x.attrs.get(k), f"trend: {k}", lambda: f"{a.attrs}")
    ctx.check("slope" in s.attrs.get("comment", "").lower() and "intercept" in i.attrs.get("comment", "").lower(), "trend: comments", lambda: f"{s.attrs} {i.attrs}")


def detrend_attrs(ctx, c, r):
    x = c.args[0]
    t = c.kwargs.get("dim", "time")
    pairs = [(r[v], x[v]) for v in x.data_vars if t in x[v].dims] if isinstance(x, xr.Dataset) else [(r, x)]
    for g, e in pairs:
        a = dict(g.attrs)
        text = a.pop("detrend_comment", "")
        same_attrs(ctx, a, e.attrs, "detrended variable")
        ctx.check(f"mode={c.kwargs['mode']}" in text, "detrend: text does not name the mode", text[:200])
        ctx.check(g.name == e.name, "detrend: name", f"{g.name}")
        for d in e.coords:
            same_attrs(ctx, g[d].attrs, e[d].attrs, f"detrended coordinate {d}")


def season_attrs(ctx, c, r):
    x = c.args[0]
    u = x.attrs.get("units", "")
    ln, sn = x.attrs.get("long_name"), x.attrs.get("standard_name")
    if c.name == "seasonal_model":
        model, resid = r if isinstance(r, tuple) else (None, r)
        ctx.check(isinstance(r, tuple) == bool(c.kwargs.get("return_model")), "seasonal_model: outputs")
        for a, word, suffix in ((model, "Seasonal model", "smodel"), (resid, "Seasonal residuals", "sresid")):
            if a is None:
                continue
            ctx.check(a.attrs.get("units") == u, "seasonal_model: units", lambda: f"{a.attrs}")
            ctx.check(a.attrs.get("long_name") == (f"{word}, {ln}" if ln else word), "seasonal_model: long name", lambda: f"{a.attrs}")
            ctx.check(a.attrs.get("standard_name") == (f"{sn}_{suffix}" if sn else suffix), "seasonal_model: standard name", lambda: f"{a.attrs}")
        return
    fmt = c.kwargs["output_format"]
    text = {"residuals": "residual", "model": "model", "coeff": "coefficient"}[fmt]
    ctx.check(text in r.attrs.get("processing", "").lower(), "deseason: text does not name the output", lambda: f"{r.attrs}")
    if ln:
        ctx.check(r.attrs.get("long_name", "").startswith(ln) and text in r.attrs["long_name"].lower(), "deseason: long name", lambda: f"{r.attrs}")
    ctx.check("standard_name" not in r.attrs, "deseason: standard name of the input kept", lambda: f"{r.attrs}")
    if fmt == "coeff":
        ctx.check("units" not in r.attrs, "deseason: coefficients with units", lambda: f"{r.attrs}")
    else:
        ctx.check(r.attrs.get("units", "") == u, "deseason: units", lambda: f"{r.attrs}")


def gauge_attrs(ctx, c, r):
    x = c.args[0]
    for v in r.data_vars:
        a = r[v].attrs
        for k, e in x.attrs.items():
            ctx.check(a.get(k) == e, "tide gauge: attributes of the data", lambda: f"{a} {x.attrs}")
        ctx.check(a.get("name") == v and tuple(a.get("dims")) is not None, "tide gauge: site attributes", lambda: f"{a}")


def case(ctx):
    b = BUILDERS[int(ctx.rng.integers(len(BUILDERS)))]
    c = b(ctx)
    if c.names:
        c = K.vary(ctx, c, f4=True)
    ctx.note(call=c.name)
    for k, v in c.kwargs.items():
        if isinstance(v, (str, bool)) and k != "csv":
            ctx.note(**{"kw_" + k: v})
    c = dressed(ctx, c)
    if ctx.flip("lazy", 0.25):
        c = c.mapped(lambda o: o.chunk() if isinstance(o, xr.Dataset) or o.ndim > 1 else o)
    if c.name == "calc_n2" and ctx.flip("adjusted", 0.4) and "time" not in c.args[0].dims:
        c.kwargs["adjust_negative"] = True
    r = ctx.call(c)
    n = c.name
    result_name(ctx, c, r)
    if n in ("steric", "thermosteric", "halosteric"):
        steric_attrs(ctx, c, r)
    elif n == "setup_reference_state":
        reference_attrs(ctx, r, c.kwargs["eos"])
    elif n in TABLE:
        carries(ctx, r, n, *TABLE[n])
        if n in ("calc_rho", "calc_alpha", "calc_beta"):
            names_eos(ctx, r, n, c.kwargs["eos"])
    elif n == "calc_pdens":
        carries(ctx, r, n, "kg m-3", None, "sea_water_potential_density")
        level = c.kwargs["level"]
        words = r.attrs.get("long_name", "").split()
        ctx.check(any(w.replace(".", "", 1).isdigit() and float(w) == level for w in words), "calc_pdens: text does not name the level", lambda: f"{r.attrs} {level}")
        names_eos(ctx, r, n, c.kwargs["eos"])
    elif n == "calc_pv":
        carries(ctx, r, n, "m-1 s-1" if c.kwargs["units"] == "m" else "10^14 cm-1 s-1", "Ocean potential vorticity")
    elif n == "adjust_negative_n2":
        a = dict(r.attrs)
        x = dict(c.args[0].attrs)
        ctx.check("adjust" in a.pop("comment", ""), "adjust_negative_n2: comment")
        x.pop("comment", None)
        same_attrs(ctx, a, x, n)
    elif n in ("annual_average", "monthly_average", "annual_cycle"):
        average_attrs(ctx, c, r)
    elif n == "calc_linear_trend":
        trend_attrs(ctx, c, r)
    elif n == "linear_detrend":
        detrend_attrs(ctx, c, r)
    elif n in ("seasonal_model", "deseason"):
        season_attrs(ctx, c, r)
    elif n == "extract_tidegauge":
        gauge_attrs(ctx, c, r)
    else:
        ctx.ncompared += 1

"""Oracle and call helpers shared by the steric properties."""
import numpy as np
import xarray as xr

from vmon import gen as G
from vmon import oracle as O


def params(ctx, oc, annual=False, patm_field=True):
    """random parameters: (kwargs for the SUT, plain values for the oracle)"""
    rng = ctx.rng
    kw, v = {}, {}
    eos = ctx.pick("eos", ["default", "Wright", "wright", "linear", "LINEAR"], p=[0.35, 0.2, 0.15, 0.2, 0.1])
    v["eos"] = "wright" if eos == "default" else eos.lower()
    if eos != "default":
        kw["equation_of_state"] = eos
    r0 = ctx.pick("rhozero", ["default", 1000.0, 1025, "random"], p=[0.5, 0.15, 0.15, 0.2])
    v["rhozero"] = 1035.0
    if r0 == "random":
        r0 = float(rng.uniform(900, 1100))
    if r0 != "default":
        v["rhozero"] = float(r0)
        kw["rhozero"] = r0
    pa = ctx.pick("patm", ["default", "zero", "scalar", "field"] if patm_field else ["default", "zero", "scalar"])
    v["patm"] = 101325.0
    if pa == "zero":
        kw["patm"] = 0.0
        v["patm"] = 0.0
    elif pa == "scalar":
        p = float(rng.uniform(9e4, 3e6))
        kw["patm"] = p
        v["patm"] = p
    elif pa == "field":
        p = rng.uniform(9.0e4, 1.1e5, (oc.ny, oc.nx))
        v["patm"] = p
        kw["patm"] = xr.DataArray(p, dims=oc.dims[2:], coords={oc.dims[2]: oc.yl, oc.dims[3]: oc.xl})
        if oc.permute:
            kw["patm"] = kw["patm"].transpose()
    cn = oc.coord_names()
    if cn is not None:
        kw["coord_names"] = cn
    return kw, v


def own_reference_params(ctx, rk, v):
    """sometimes the reference was made with another surface pressure or equation of state than the calculation uses"""
    if not ctx.flip("mixed_reference", 0.2):
        return v
    w = dict(v)
    if ctx.rng.random() < 0.6:
        w["patm"] = rk["patm"] = float(ctx.rng.uniform(0, 2e6))
    else:
        rk["eos"] = "linear" if v["eos"] == "wright" else "Wright"
        w["eos"] = rk["eos"].lower()
    return w


def ref_plain(oc, v, ti=0, src=None):
    """reference state in plain arrays (z, y, x) from time index ti of `src` (default: the same ocean)"""
    s = src or oc
    T, S, V = s.T[ti], s.S[ti], s.V[ti]
    rho = np.broadcast_to(O.rho(v["eos"], T, S, oc.pres(v["patm"])), T.shape)
    volo = np.nansum(V)
    masso = np.nansum(rho * V)
    return {"T": T, "S": S, "V": V, "rho": rho, "volo": volo, "masso": masso,
            "rhoga": masso / volo if volo else np.nan, "area": s.area}


def plain(oc, v, ref, variant, domain):
    """expected results"""
    T = oc.T if variant in ("steric", "thermosteric") else np.broadcast_to(ref["T"], oc.shape)
    S = oc.S if variant in ("steric", "halosteric") else np.broadcast_to(ref["S"], oc.shape)
    rho = O.rho(v["eos"], T, S, np.broadcast_to(oc.pres(v["patm"]), oc.shape[1:]))
    rho = np.broadcast_to(rho, oc.shape)
    if domain == "global":
        masso = np.nansum(rho * ref["V"], axis=(1, 2, 3))
        height = ref["volo"] / np.nansum(ref["area"])
        with np.errstate(all="ignore"):
            sl = height * np.log(ref["rhoga"] / (masso / ref["volo"]))
        return {"reference_height": height, "sealevel": sl}
    d = rho - ref["rho"]
    d = np.where(np.isnan(ref["V"]), np.nan, d)
    dz = O.dz(oc.zi, oc.depth)
    sl = -1.0 / v["rhozero"] * np.nansum(dz * d, axis=1)
    sl = np.where(np.isnan(ref["V"][0]), np.nan, sl)
    tol = oc.rho_tol * (dz.sum(axis=0) + 1.0) / v["rhozero"]
    return {"delta_rho": d, "sealevel": sl, "tol": tol}


def annual_plain(oc, arr):
    """(t, ...) -> (years, ...) weighted by days, ignoring missing"""
    out = []
    for k in range(oc.nyears):
        w = np.array(O.month_days(oc.y0 + k, oc.cal), dtype=float)
        a = arr[12 * k: 12 * k + 12]
        w = w.reshape((12,) + (1,) * (a.ndim - 1))
        ok = ~np.isnan(a)
        with np.errstate(all="ignore"):
            out.append(np.nansum(a * w, axis=0) / (ok * w).sum(axis=0))
    return np.array(out)


def check_local(ctx, oc, res, exp, variant, what, time=None, annual=False):
    n = oc.names
    cs = oc.coords()
    d, sl = exp["delta_rho"], exp["sealevel"]
    if annual:
        d, sl = annual_plain(oc, d), annual_plain(oc, sl)
        cs[n["t"]] = G.obj_time([O.mid_year(oc.y0 + k, oc.cal) for k in range(oc.nyears)])
    elif time is not None:
        cs[n["t"]] = time
    ctx.check(isinstance(res, xr.Dataset), f"{what}: not a Dataset")
    for v in ("delta_rho", variant):
        ctx.check(v in res.data_vars, f"{what}: variable {v} absent", lambda: str(list(res.data_vars)))
        ctx.check(res[v].dims[0] == n["t"], f"{what}: time is not first", lambda: str(res[v].dims))
    extra = set(res.data_vars) - {"delta_rho", variant}
    ctx.check(not extra, f"{what}: extra variables", lambda: str(extra))
    ctx.same(res["delta_rho"], d, oc.dims, f"{what} delta_rho", rtol=1e-9, atol=2 * oc.rho_tol, coords=cs)
    ctx.same(res[variant], sl, (n["t"], n["y"], n["x"]), f"{what} height", rtol=1e-9, atol=2 * exp["tol"], coords=cs)


def check_global(ctx, oc, res, exp, variant, what, time=None, annual=False):
    n = oc.names
    sl = exp["sealevel"]
    cs = oc.coords()
    h = exp["reference_height"]
    if annual:
        sl = annual_plain(oc, sl)
        cs[n["t"]] = G.obj_time([O.mid_year(oc.y0 + k, oc.cal) for k in range(oc.nyears)])
        h = np.full(oc.nyears, h)
    elif time is not None:
        cs[n["t"]] = time
    ctx.check(isinstance(res, xr.Dataset), f"{what}: not a Dataset")
    extra = set(res.data_vars) ^ {"reference_height", variant}
    ctx.check(not extra, f"{what}: variables", lambda: str(extra))
    ctx.same(res["reference_height"], h, (n["t"],) if annual else (), f"{what} reference height", rtol=1e-6 if oc.f4 else 1e-9)
    # the logarithm of a ratio near one: absolute accuracy is that of the mean density
    at = (2e-5 if oc.f4 else 1e-11) * abs(exp["reference_height"])
    ctx.same(res[variant], sl, (n["t"],), f"{what} height", rtol=2e-5 if oc.f4 else 1e-8, atol=at, coords=cs)

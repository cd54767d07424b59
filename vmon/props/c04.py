"""C04 local steric height."""
import numpy as np
import xarray as xr

from vmon import gen as G
from vmon import oracle as O
from vmon import stericlib as SL

CASES = {"quick": 560, "thorough": 8000}
RULE = (
    "random ocean states (1-60 times, 1-60 levels, 2-40 points per side; eight land-mask kinds, bathymetries on/between/below "
    "interfaces, f8/f4/int, permuted, lazy, renamed) with random parameters; delta_rho and height compared at every label with "
    "a plain-array depth integral; distinct by feature tuple"
)
ASSUMPTIONS = [
    "depth coordinate positive down starting at 0",
    "atmospheric pressure is a scalar or a horizontal field",
]


def case(ctx):
    import momlevel
    rng = ctx.rng
    annual = ctx.flip("annual", 0.15)
    oc = G.Ocean(ctx, annual=annual)
    kw, v = SL.params(ctx, oc)
    ds = oc.dataset()
    if ctx.flip("varmap", 0.2):
        m = {"temp_x": "thetao", "salt_x": "so", "vol_x": "volcello"}
        ds = ds.rename({b: a for a, b in m.items()})
        kw["varname_map"] = m
    variant = ctx.pick("variant", ["steric", "thermosteric", "halosteric"], p=[0.5, 0.25, 0.25])
    dt = ctx.pick("dtype", ["default", "float64", "float32"])
    if dt != "default":
        kw["dtype"] = dt
    if rng.random() < 0.3:
        kw["domain"] = "local"
    if rng.random() < 0.15:
        kw["verbose"] = True
    if rng.random() < 0.15:
        kw["strict"] = bool(rng.random() < 0.5)
    rmode = ctx.pick("reference", ["own", "index", "other", "lazy"], p=[0.45, 0.2, 0.25, 0.1])
    ref = SL.ref_plain(oc, v)
    if rmode != "own":
        ti = int(rng.integers(oc.nt))
        base = ds.rename(kw["varname_map"]) if "varname_map" in kw else ds
        src = oc
        if rmode == "other":
            # an independent state on the same grid
            src = other(ctx, oc)
            base = src.dataset()
            ti = int(rng.integers(src.nt))
        rk = {"time_index": ti, "eos": kw.get("equation_of_state", "Wright")}
        if "patm" in kw:
            rk["patm"] = kw["patm"]
        if "coord_names" in kw:
            rk["coord_names"] = kw["coord_names"]
        vr = SL.own_reference_params(ctx, rk, v)
        r = ctx.call(momlevel.reference.setup_reference_state, base, **rk)
        if rmode == "lazy":
            r = r.chunk() if rng.random() < 0.5 else r.compute()
        kw["reference"] = r
        ref = SL.ref_plain(oc, vr, ti, src)
        oc.f4 = oc.f4 or src.f4
    if annual:
        kw["annual"] = True
    if variant == "steric" or rng.random() < 0.5:
        if variant != "steric" or rng.random() < 0.5:
            kw["variant"] = variant
        out = ctx.call(momlevel.steric, ds, **kw)
    else:
        out = ctx.call(getattr(momlevel, variant), ds, **kw)
    ctx.check(isinstance(out, tuple) and len(out) == 2, "returns (result, reference)")
    res, rref = out
    exp = SL.plain(oc, v, ref, variant, "local")
    SL.check_local(ctx, oc, res, exp, variant, "local", annual=annual)
    # the reference that was used comes back
    n = oc.names
    ctx.same(rref["rho"], ref["rho"], oc.dims[1:], "returned reference density", rtol=1e-9, atol=oc.rho_tol)


def other(ctx, oc):
    src = object.__new__(G.Ocean)
    src.__dict__.update(oc.__dict__)
    sub = type(ctx)(ctx.prop, ctx.tier, ctx.seed, ctx.index + 10**6)
    o2 = G.Ocean(sub, names="default", big=False, nz=oc.nz)
    # new state, same grid
    sh = oc.shape
    T = np.asarray(sub.rng.uniform(-2, 30, sh))
    S = np.asarray(sub.rng.uniform(30, 38, sh))
    V = oc.raw["volcello"]
    if sub.rng.random() < 0.6:
        # its own volumes and land mask
        V = sub.rng.uniform(0.3, 3.0, sh) * 1e12
        V[:, sub.rng.random(sh[1:]) < float(sub.rng.choice([0.0, 0.2]))] = np.nan
        V[:, 0, 0, 0] = 1e12
    if sub.rng.random() < 0.6:
        src.area = oc.area * sub.rng.uniform(0.5, 1.5, oc.area.shape)
        src.area = src.area / np.nansum(src.area) * G.OCEAN_AREA * (1 + sub.rng.uniform(-0.015, 0.015))
    src.raw = {"thetao": T, "so": S, "volcello": V}
    src.T, src.S, src.V = T, S, np.asarray(V, dtype=float)
    return src

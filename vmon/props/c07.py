"""C07 reference state."""
import numpy as np
import xarray as xr

from vmon import gen as G
from vmon import stericlib as SL

CASES = {"quick": 900, "thorough": 12000}
RULE = (
    "random datasets and time indices (all signs); every variable of the reference compared with plain-array values; own "
    "reference of the steric call compared with the explicit one; zero anomaly at the reference level; distinct by feature tuple"
)
ASSUMPTIONS = []


def case(ctx):
    import momlevel
    from momlevel import util
    rng = ctx.rng
    oc = G.Ocean(ctx)
    kw, v = SL.params(ctx, oc)
    ds = oc.dataset()
    n = oc.names
    rk = {}
    if "equation_of_state" in kw:
        rk["eos"] = kw["equation_of_state"]
    for k in ("patm", "coord_names"):
        if k in kw:
            rk[k] = kw[k]
    mode = ctx.pick("index", ["default", "first", "last", "-1", "any", "negative"])
    ti = {"default": 0, "first": 0, "last": oc.nt - 1, "-1": -1}.get(mode)
    if mode == "any":
        ti = int(rng.integers(oc.nt))
    elif mode == "negative":
        ti = int(rng.integers(-oc.nt, 0))
    if mode != "default":
        rk["time_index"] = ti if rng.random() < 0.8 else np.int64(ti)
    r = ctx.call(momlevel.reference.setup_reference_state, ds, **rk)
    ref = SL.ref_plain(oc, v, ti)
    cs = {k: c for k, c in oc.coords().items() if k != n["t"]}
    d3 = oc.dims[1:]
    ctx.check(isinstance(r, xr.Dataset), "reference is a Dataset")
    ctx.check(n["t"] not in r.dims and n["t"] not in r.coords and n["t"] not in r.variables, "reference has no time", lambda: str(r.coords))
    ctx.same(r["thetao"], ref["T"], d3, "reference temperature", rtol=0, coords=cs)
    ctx.same(r["so"], ref["S"], d3, "reference salinity", rtol=0, coords=cs)
    ctx.same(r["volcello"], ref["V"], d3, "reference volume", rtol=0, coords=cs)
    ctx.same(r["rho"], ref["rho"], d3, "reference density", rtol=1e-10, atol=oc.rho_tol, coords=cs)
    rt = 1e-5 if oc.f4 else 1e-10
    ctx.same(r["volo"], ref["volo"], (), "reference total volume", rtol=rt)
    ctx.same(r["masso"], ref["masso"], (), "reference total mass", rtol=rt)
    ctx.same(r["rhoga"], ref["rhoga"], (), "reference mean density", rtol=rt)
    ctx.same(r["areacello"], oc.area, oc.dims[2:], "reference area", rtol=0, coords=cs)
    ctx.call(util.validate_dataset, r, reference=True)
    # zero anomaly at its own level
    dom = ctx.pick("domain", ["local", "global"])
    skw = {k: x for k, x in kw.items() if k != "rhozero"}
    res, back = ctx.call(momlevel.steric, ds, reference=r, domain=dom, **skw)
    z = res["steric"].isel({n["t"]: ti}).values
    lim = 2e-2 * (1 + oc.zi[-1]) / 1e3 if oc.f4 else 1e-9 * (1 + oc.zi[-1])
    if dom == "global":
        lim = (1e-4 if oc.f4 else 1e-11) * abs(ref["volo"] / np.nansum(oc.area))
    ctx.check(bool((np.abs(z[~np.isnan(z)]) <= lim).all()), "anomaly at the reference level is zero", lambda: str(z))
    ctx.equal_xr(back, r, "supplied reference is returned", rtol=0, atol=0)
    # own reference of the calculation
    if rng.random() < 0.6:
        variant = ctx.pick("variant", ["steric", "thermosteric", "halosteric"])
        _, own = ctx.call(momlevel.steric, ds, domain=dom, variant=variant, **skw)
        first = SL.ref_plain(oc, v, 0)
        for k, kk in (("thetao", "T"), ("so", "S"), ("volcello", "V")):
            ctx.same(own[k], first[kk], d3, f"own reference {k}", rtol=0)
        ctx.same(own["rho"], first["rho"], d3, "own reference density", rtol=1e-10, atol=oc.rho_tol)
        ctx.same(own["rhoga"], first["rhoga"], (), "own reference mean density", rtol=rt)
        ctx.same(own["masso"], first["masso"], (), "own reference mass", rtol=rt)
    if rng.random() < 0.1:
        bad = int(rng.choice([oc.nt, oc.nt + 3, -oc.nt - 1]))
        ctx.rejects(momlevel.reference.setup_reference_state, ds, **{**rk, "time_index": bad})

"""C06 variants isolate temperature and salinity."""
import numpy as np
import xarray as xr

from vmon import gen as G
from vmon import stericlib as SL

CASES = {"quick": 380, "thorough": 5000}
RULE = (
    "random ocean states with own or supplied references; each variant compared with the full calculation of a dataset whose "
    "other field is held at the reference, with the oracle, and with the same call after perturbing the field that must not matter; "
    "linear additivity (local) and mass additivity (global); wrapper = variant; unknown variants rejected; distinct by feature tuple"
)
ASSUMPTIONS = []


def tight(a, b):
    return a


def case(ctx):
    import momlevel
    rng = ctx.rng
    oc = G.Ocean(ctx)
    kw, v = SL.params(ctx, oc)
    domain = ctx.pick("domain", ["local", "global"])
    ds = oc.dataset()
    n = oc.names
    ti = int(rng.integers(oc.nt))
    rk = {"time_index": ti, "eos": kw.get("equation_of_state", "Wright")}
    for k in ("patm", "coord_names"):
        if k in kw:
            rk[k] = kw[k]
    own = ctx.flip("own_reference", 0.35)
    if own:
        ti = 0
        ref_ds = ctx.call(momlevel.reference.setup_reference_state, ds, **{**rk, "time_index": 0})
        kref = {}
    else:
        ref_ds = ctx.call(momlevel.reference.setup_reference_state, ds, **rk)
        kref = {"reference": ref_ds}
    ref = SL.ref_plain(oc, v, ti)
    variant = ctx.pick("variant", ["thermosteric", "halosteric"])
    res, _ = ctx.call(getattr(momlevel, variant), ds, domain=domain, **kw, **kref)
    res2, _ = ctx.call(momlevel.steric, ds, domain=domain, variant=variant, **kw, **kref)
    ctx.equal_xr(res, res2, f"{variant} entry point", rtol=1e-12, atol=0)
    # oracle
    exp = SL.plain(oc, v, ref, variant, domain)
    (SL.check_local if domain == "local" else SL.check_global)(ctx, oc, res, exp, variant, variant)
    # full calculation with the other field held at the reference
    fixed = "so" if variant == "thermosteric" else "thetao"
    held = ds.copy()
    f0 = ref_ds[fixed]
    held[fixed] = xr.broadcast(f0, ds[fixed])[0].astype(float)
    # a cell that is missing at some time is not missing when held, and conversely: same rule on both sides
    rs, _ = ctx.call(momlevel.steric, held, domain=domain, reference=ref_ds, **kw)
    a, b = res[variant], rs["steric"]
    tol = 2 * np.max(exp["tol"]) if domain == "local" else (2e-5 if oc.f4 else 1e-11) * abs(exp["reference_height"])
    ctx.equal_xr(a, b, f"{variant} = full calculation with {fixed} held", rtol=2e-5 if oc.f4 else 1e-8, atol=tol, order=False)
    # the field that must not matter
    pert = ds.copy()
    noise = xr.DataArray(rng.uniform(0.1, 5.0, oc.shape), dims=oc.dims)
    mode = ctx.pick("perturb", ["all_but_ref", "one_time", "nan"])
    tsel = np.arange(oc.nt)
    hit = np.ones(oc.nt, bool)
    if mode == "one_time":
        hit[:] = False
        hit[int(rng.integers(oc.nt))] = True
    if own:
        hit[0] = False
    h = xr.DataArray(hit, dims=(n["t"],))
    new = ds[fixed].astype(float) + noise
    if mode == "nan":
        new = new.where(noise > 2.5)
    pert[fixed] = xr.where(h, new, ds[fixed].astype(float), keep_attrs=False).transpose(*ds[fixed].dims)
    # reference is fixed by the unperturbed reference level
    rp, _ = ctx.call(getattr(momlevel, variant), pert, domain=domain, **kw, **kref)
    ctx.equal_xr(rp[variant], res[variant], f"{variant} does not depend on {fixed}", rtol=1e-6 if oc.f4 else 1e-9, atol=tol)
    if domain == "local":
        ctx.equal_xr(rp["delta_rho"], res["delta_rho"], f"{variant} density change does not depend on {fixed}", rtol=1e-6 if oc.f4 else 1e-12, atol=2 * oc.rho_tol)
    # additivity
    if v["eos"] == "linear" and oc.mask not in ("ts",):
        t = ctx.call(momlevel.thermosteric, ds, domain=domain, **kw, **kref)[0]["thermosteric"]
        hh = ctx.call(momlevel.halosteric, ds, domain=domain, **kw, **kref)[0]["halosteric"]
        s = ctx.call(momlevel.steric, ds, domain=domain, **kw, **kref)[0]["steric"]
        if domain == "local":
            ctx.equal_xr(t + hh, s, "thermosteric + halosteric = steric", rtol=1e-9, atol=4 * np.max(exp["tol"]), order=False)
        else:
            H = exp["reference_height"]
            with np.errstate(all="ignore"):
                lhs = np.exp(-t.values / H) + np.exp(-hh.values / H) - 1
                rhs = np.exp(-s.values / H)
            ctx.close(lhs, rhs, "global variants are additive in mass", rtol=1e-4 if oc.f4 else 1e-10)
    if rng.random() < 0.15:
        bad = ctx.pick("bad_variant", ["Steric", "thermo", "halo", "", "sterick", "THERMOSTERIC"])
        ctx.rejects(momlevel.steric, ds, domain=domain, variant=bad, **kw, **kref)

"""C05 global steric height."""
import numpy as np

from vmon import gen as G
from vmon import stericlib as SL
from vmon.props.c04 import other

CASES = {"quick": 640, "thorough": 9000}
RULE = (
    "random ocean states, masks, parameters, own or supplied references (other time, other state); global height and reference "
    "height compared with the plain-array formula over the fixed reference volumes; reference-equal states must give zero; "
    "calc_masso/calc_volo/calc_rhoga compared on the same states; distinct by feature tuple"
)
ASSUMPTIONS = ["non-zero total reference volume"]


def case(ctx):
    import momlevel
    from momlevel import derived as D
    rng = ctx.rng
    annual = ctx.flip("annual", 0.15)
    oc = G.Ocean(ctx, annual=annual)
    kw, v = SL.params(ctx, oc)
    deptho = ctx.flip("deptho", 0.6)
    ds = oc.dataset(deptho=deptho)
    if not deptho and rng.random() < 0.5:
        ds = ds.drop_vars(oc.names["zi"])
    if ctx.flip("varmap", 0.15):
        m = {"temp_x": "thetao", "salt_x": "so", "vol_x": "volcello"}
        ds = ds.rename({b: a for a, b in m.items()})
        kw["varname_map"] = m
    variant = ctx.pick("variant", ["steric", "thermosteric", "halosteric"], p=[0.5, 0.25, 0.25])
    ref = SL.ref_plain(oc, v)
    rmode = ctx.pick("reference", ["own", "index", "other"], p=[0.5, 0.25, 0.25])
    ti = 0
    mixed = False
    if rmode != "own":
        ti = int(rng.integers(-oc.nt, oc.nt))
        base = ds.rename(kw["varname_map"]) if "varname_map" in kw else ds
        src = oc
        if rmode == "other":
            src = other(ctx, oc)
            base = src.dataset()
        rk = {"time_index": ti, "eos": kw.get("equation_of_state", "Wright")}
        for k in ("patm", "coord_names"):
            if k in kw:
                rk[k] = kw[k]
        vr = SL.own_reference_params(ctx, rk, v)
        mixed = vr is not v
        kw["reference"] = ctx.call(momlevel.reference.setup_reference_state, base, **rk)
        ref = SL.ref_plain(oc, vr, ti, src)
    if annual:
        kw["annual"] = True
    if variant == "steric" or rng.random() < 0.5:
        res, rref = ctx.call(momlevel.steric, ds, domain="global", variant=variant, **kw)
    else:
        res, rref = ctx.call(getattr(momlevel, variant), ds, domain="global", **kw)
    exp = SL.plain(oc, v, ref, variant, "global")
    SL.check_global(ctx, oc, res, exp, variant, "global", annual=annual)
    if rmode != "other" and not annual and not mixed:
        val = res[variant].values[ti]
        ctx.check(bool(np.isnan(exp["sealevel"][ti])) or abs(val) <= 1e-11 * abs(exp["reference_height"]) * (1e6 if oc.f4 else 1), "state equal to the reference", lambda: f"height {val}")
    # the building blocks on their own
    n = oc.names
    rho3 = oc.var(ref["rho"].copy(), oc.dims[1:])
    vol3 = oc.var(ref["V"].copy(), oc.dims[1:])
    volo = ctx.call(D.calc_volo, vol3)
    masso = ctx.call(D.calc_masso, rho3, vol3)
    rhoga = ctx.call(D.calc_rhoga, masso, volo)
    ctx.same(volo, np.nansum(ref["V"]), (), "calc_volo", rtol=1e-10)
    ctx.same(masso, np.nansum(ref["V"] * ref["rho"]), (), "calc_masso", rtol=1e-10)
    ctx.same(rhoga, ref["rhoga"], (), "calc_rhoga", rtol=1e-6 if oc.f4 else 1e-10)
    base = 1000.0 if rng.random() < 0.5 else -5.0  # totals of anomalies are totals as well
    if rng.random() < 0.1:
        oc.T = oc.T.copy()
        oc.T[int(rng.integers(oc.nt))] = np.nan  # a time without data
    rho4 = oc.var(oc.T + base, oc.dims)
    m4 = ctx.call(D.calc_masso, rho4, vol3, tcoord=n["t"])
    ctx.same(m4, np.nansum((oc.T + base) * ref["V"], axis=(1, 2, 3)), (n["t"],), "calc_masso with time", rtol=1e-10,
             atol=1e-12 * float(np.nansum(np.abs((oc.T + base) * ref["V"]))))

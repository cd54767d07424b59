"""C08 locality in time and space."""
import numpy as np
import xarray as xr

from vmon import gen as G
from vmon import stericlib as SL

CASES = {"quick": 330, "thorough": 4500}
RULE = (
    "random ocean states with a fixed reference; random partitions of the record in time (blocks, singles, reordered, repeated), "
    "appends, horizontal subsets and single-column perturbations; results of the pieces compared with the whole, label by label; "
    "distinct by feature tuple"
)
ASSUMPTIONS = ["horizontal subsets keep an area total that validates (areacello rescaled, which the local result must not depend on)"]


def case(ctx):
    import momlevel
    rng = ctx.rng
    oc = G.Ocean(ctx, minxy=2, nt=int(ctx.rng.integers(3, 9)))
    kw, v = SL.params(ctx, oc)
    n = oc.names
    ds = oc.dataset()
    variant = ctx.pick("variant", ["steric", "thermosteric", "halosteric"])
    domain = ctx.pick("domain", ["local", "global"], p=[0.65, 0.35])
    rk = {"time_index": int(rng.integers(oc.nt)), "eos": kw.get("equation_of_state", "Wright")}
    for k in ("patm", "coord_names"):
        if k in kw:
            rk[k] = kw[k]
    ref = ctx.call(momlevel.reference.setup_reference_state, ds, **rk)
    full, _ = ctx.call(momlevel.steric, ds, reference=ref, variant=variant, domain=domain, **kw)
    exp = SL.plain(oc, v, SL.ref_plain(oc, v, rk["time_index"]), variant, domain)
    (SL.check_local if domain == "local" else SL.check_global)(ctx, oc, full, exp, variant, "whole")
    rt, at = (1e-6, 1e-4) if oc.f4 else (1e-11, 1e-13)
    if domain == "global":
        at = at * max(1.0, abs(exp["reference_height"]))

    def run(d, **extra):
        return ctx.call(momlevel.steric, d, reference=extra.pop("reference", ref), variant=variant, domain=domain, **{**kw, **extra})[0]

    op = ctx.pick("op", ["blocks", "singles", "reorder", "repeat", "append", "space", "column"] if domain == "local" else ["blocks", "singles", "reorder", "repeat", "append"])
    t = n["t"]
    if op in ("blocks", "singles"):
        cuts = sorted(set([0, oc.nt]) | set(int(x) for x in rng.integers(1, oc.nt, 2))) if op == "blocks" else list(range(oc.nt + 1))
        parts = [run(ds.isel({t: slice(a, b)})) for a, b in zip(cuts[:-1], cuts[1:])]
        j = xr.concat([p[variant] for p in parts], dim=t)
        ctx.equal_xr(j, full[variant], f"{op} joined", rt, at)
        if domain == "local":
            j = xr.concat([p["delta_rho"] for p in parts], dim=t)
            ctx.equal_xr(j, full["delta_rho"], f"{op} joined density change", rt, at)
    elif op in ("reorder", "repeat"):
        idx = rng.permutation(oc.nt) if op == "reorder" else rng.integers(0, oc.nt, oc.nt + 2)
        got = run(ds.isel({t: idx}))
        ctx.equal_xr(got[variant], full[variant].isel({t: idx}), op, rt, at)
    elif op == "append":
        k = int(rng.integers(1, oc.nt))
        early = ds.isel({t: slice(0, k)})
        a = ctx.call(momlevel.steric, early, variant=variant, domain=domain, **kw)[0]
        b = ctx.call(momlevel.steric, ds, variant=variant, domain=domain, **kw)[0]
        ctx.equal_xr(b[variant].isel({t: slice(0, k)}), a[variant], "appended data changed earlier results", rt, at)
    elif op == "space":
        y0 = int(rng.integers(0, oc.ny - 1)); x0 = int(rng.integers(0, oc.nx - 1))
        sel = {n["y"]: slice(y0, int(rng.integers(y0 + 1, oc.ny + 1))), n["x"]: slice(x0, int(rng.integers(x0 + 1, oc.nx + 1)))}
        if rng.random() < 0.3:
            sel = {n["y"]: rng.permutation(oc.ny)[: int(rng.integers(1, oc.ny + 1))], n["x"]: rng.permutation(oc.nx)[: int(rng.integers(1, oc.nx + 1))]}
        sub = ds.isel(sel)
        ex = {}
        if isinstance(kw.get("patm"), xr.DataArray):
            ex["patm"] = kw["patm"].isel(sel)
        sref = ref.isel(sel)
        for d in (sub, sref):
            d["areacello"] = d["areacello"].fillna(1.0) * 0 + G.OCEAN_AREA / (sub.sizes[n["y"]] * sub.sizes[n["x"]])
        got = run(sub, reference=sref, **ex)
        ctx.equal_xr(got[variant], full[variant].isel(sel), "horizontal subset", rt, at)
        ctx.equal_xr(got["delta_rho"], full["delta_rho"].isel(sel), "horizontal subset density change", rt, at)
    else:
        it, iy, ix = (int(rng.integers(m)) for m in (oc.nt, oc.ny, oc.nx))
        p = ds.copy(deep=True)
        bump = np.zeros(oc.shape)
        bump[it, :, iy, ix] = rng.uniform(0.5, 4.0)
        b = xr.DataArray(bump, dims=oc.dims)
        for f in ("thetao", "so"):
            p[f] = (ds[f].astype(float) + b).transpose(*ds[f].dims)
        if rng.random() < 0.3:
            p["volcello"] = (ds["volcello"] * (1 + b)).transpose(*ds["volcello"].dims)
        got = run(p)
        keep = np.ones((oc.nt, oc.ny, oc.nx), bool)
        keep[it, iy, ix] = False
        g = got[variant].transpose(*[t, n["y"], n["x"]]).values
        f = full[variant].transpose(*[t, n["y"], n["x"]]).values
        ctx.close(g[keep], f[keep], "a column changed another column or time", rt, at)

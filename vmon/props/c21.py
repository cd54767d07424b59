"""C21 validation."""
import warnings

import numpy as np
import xarray as xr

from vmon import gen as G

CASES = {"quick": 4800, "thorough": 48000}
RULE = (
    "valid generated datasets and references with 0-3 random mutations (missing, extra, wrong-rank fields, cell areas just inside and outside "
    "tolerance, time coordinates in any letter case, strict on and off, additional variables) judged by an independent predicate; acceptance, "
    "rejection and warnings of validators and of the steric entry points compared; distinct by feature tuple"
)
ASSUMPTIONS = ["a time coordinate is one named time in any letter case", "area tolerance is 2 percent of 3.6111092e14 m2, excluded"]


def recorded(fn):
    def inner(*a, **k):
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            out = fn(*a, **k)
        return out, [str(w.message) for w in rec]

    inner.__module__, inner.__qualname__ = fn.__module__, fn.__qualname__
    return inner


def expected(ds, reference, strict, extra=()):
    """(acceptable, area out of range)"""
    need = ["thetao", "so", "volcello", "areacello", *extra]
    rank = 3 if reference else 4
    ok = True
    if reference:
        need += ["rho", "volo", "masso", "rhoga"]
        ok &= not any(str(c).lower() == "time" for c in ds.coords)
    ok &= all(v in ds.variables for v in need)
    for v in ("thetao", "so", "volcello"):
        if v in ds.variables:
            ok &= ds[v].ndim == rank
    for v in ("areacello", "deptho"):
        if v in ds.variables:
            ok &= ds[v].ndim == 2
    if reference:
        if "rho" in ds.variables:
            ok &= ds["rho"].ndim == 3
        for v in ("volo", "masso", "rhoga"):
            if v in ds.variables:
                ok &= ds[v].ndim == 0
    bad_area = False
    if "areacello" in ds.variables:
        s = float(np.nansum(ds["areacello"].values.astype(float)))
        bad_area = not abs((s - G.OCEAN_AREA) / G.OCEAN_AREA) < 0.02
    if bad_area and strict:
        ok = False
    return bool(ok), bad_area


def mutate(ctx, ds, tag, reference):
    rng = ctx.rng
    opts = ["drop", "rank", "area_in", "area_out", "extra", "permute", "deptho_rank", "as_coord", "area_neg", "nothing"]
    if reference:
        opts += ["time", "totals", "rho_rank", "drop_total"]
    m = ctx.pick(tag, opts)
    if m == "drop":
        v = ctx.pick(tag + "_v", ["thetao", "so", "volcello", "areacello"])
        if v in ds:
            ds = ds.drop_vars(v)
    elif m == "drop_total":
        v = ctx.pick(tag + "_v", ["rho", "volo", "masso", "rhoga"])
        if v in ds:
            ds = ds.drop_vars(v)
    elif m == "rank":
        v = ctx.pick(tag + "_v", ["thetao", "so", "volcello", "areacello"])
        if v in ds:
            d = ds[v].dims
            if rng.random() < 0.6 and d:
                ds[v] = ds[v].isel({d[0]: 0}, drop=True)
            else:
                ds[v] = ds[v].expand_dims(f"member_{v}_{tag}")
    elif m == "deptho_rank":
        if "deptho" in ds:
            ds["deptho"] = ds["deptho"].isel({ds["deptho"].dims[-1]: 0}, drop=True) if rng.random() < 0.5 and ds["deptho"].dims else ds["deptho"].expand_dims("extra_" + tag)
    elif m in ("area_in", "area_out"):
        if "areacello" in ds:
            f = float(rng.choice([0.981, 1.019, 0.9801, 1.0199] if m == "area_in" else [0.979, 1.021, 1.41, 0.0, -1.0, 1.0201, 0.9799, 1e-3]))
            tot = float(ds["areacello"].sum())
            if tot != 0:
                ds["areacello"] = ds["areacello"] / tot * G.OCEAN_AREA * f
    elif m == "area_neg":
        if "areacello" in ds and ds["areacello"].size > 1:
            a = ds["areacello"].copy(deep=True).fillna(0.0)
            v = a.values.copy()
            v.flat[int(rng.integers(v.size))] = -0.3 * np.abs(v).sum()
            ds["areacello"] = a.copy(data=v)
            pos = v[v > 0].sum()
            if pos > 0 and rng.random() < 0.7:
                ds["areacello"] = ds["areacello"] / pos * G.OCEAN_AREA
    elif m == "extra":
        ds["another"] = ((), 3.0)
    elif m == "as_coord":
        # the same variables, held as coordinates of the dataset
        v = [x for x in ("areacello", "deptho", "volcello", "thetao", "volo", "rhoga") if x in ds.data_vars and rng.random() < 0.5]
        ds = ds.set_coords(v)
    elif m == "permute":
        ds = ds.transpose(*G.perm(rng, ds.dims))
    elif m == "time":
        n = ctx.pick(tag + "_t", ["time", "Time", "TIME", "year", "times"])
        if n not in ds.coords and n not in ds.dims:
            ds = ds.assign_coords({n: 3.0})
    elif m == "totals":
        v = ctx.pick(tag + "_v", ["volo", "masso", "rhoga"])
        if v in ds:
            ds[v] = ds[v].expand_dims(f"n_{v}_{tag}")
    elif m == "rho_rank":
        if "rho" in ds:
            ds["rho"] = ds["rho"].isel({ds["rho"].dims[0]: 0}, drop=True) if rng.random() < 0.5 and ds["rho"].dims else ds["rho"].expand_dims("m_" + tag)
    return ds


def judge(ctx, fn, what, ok, bad_area, *a, **kw):
    if ok:
        out, w = ctx.call(recorded(fn), *a, **kw)
        hit = any("areacello" in x for x in w)
        ctx.check(hit == bad_area, f"{what}: area warning", lambda: f"warned {w}, area out of range {bad_area}")
        return out
    ctx.rejects(recorded(fn), *a, **kw)
    ctx.ncompared += 1
    return None


def case(ctx):
    from momlevel import util as U
    from momlevel import reference as RF
    import momlevel as ml
    rng = ctx.rng
    part = ctx.pick("part", ["input", "reference", "steric", "steric_ref", "area", "tidegauge"], p=[0.25, 0.25, 0.2, 0.15, 0.08, 0.07])
    if part == "area":
        n = int(rng.integers(1, 9))
        a = rng.uniform(0.1, 1, (n, 3))
        if rng.random() < 0.3:
            a[0, 0] = np.nan
        ref, tol = G.OCEAN_AREA, 0.02
        kw = {}
        if ctx.flip("ref", 0.4):
            ref = float(rng.choice([5.1e14, 1.0, 3.0e14]))
            kw["reference"] = ref
        if ctx.flip("tol", 0.4):
            tol = float(rng.choice([0.001, 0.1, 0.5]))
            kw["tolerance"] = tol
        f = 1 + float(rng.choice([-1, 1])) * tol * float(rng.choice([0.0, 0.5, 0.99, 1.01, 1.5, 3.0]))
        if rng.random() < 0.2:
            a[rng.random(a.shape) < 0.2] *= -0.3  # nonsense, but what is compared is the sum
        if not np.nansum(a) > 0:
            return
        a = a / np.nansum(a) * ref * f
        got = ctx.call(U.validate_areacello, xr.DataArray(a, dims=("y", "x")), **kw)
        ctx.check(isinstance(got, (bool, np.bool_)) and bool(got) == (abs(f - 1) < tol), "area within tolerance", lambda: f"{got} for factor {f} tolerance {tol}")
        return
    if part == "tidegauge":
        arr = xr.DataArray(np.zeros((2, 3)), dims=("y", "x"), coords={"geolon": (("y", "x"), np.zeros((2, 3))), "geolat": (("y", "x"), np.zeros((2, 3)))})
        good = {"xcoord": ctx.pick("x", ["geolon", "array"]), "ycoord": ctx.pick("y", ["geolat", "array"])}
        good = {k: (arr["geolon"] if v == "array" else v) for k, v in good.items()}
        mask = xr.DataArray(np.ones((2, 3)), dims=("y", "x")) if ctx.flip("mask") else None
        ctx.call(U.validate_tidegauge_data, arr, good["xcoord"], good["ycoord"], mask)
        w = ctx.pick("bad", ["arr", "x", "y", "mask", "xtype", "ytype"])
        a, x, y, m = arr, good["xcoord"], good["ycoord"], mask
        if w == "arr":
            a = arr.values if rng.random() < 0.5 else arr.to_dataset(name="a")
        elif w == "x":
            x = "nolon"
        elif w == "y":
            y = "nolat"
        elif w == "mask":
            m = np.ones((2, 3))
        elif w == "xtype":
            x = np.zeros((2, 3))
        else:
            y = [1, 2]
        ctx.rejects(U.validate_tidegauge_data, a, x, y, m)
        ctx.rejects(ml.extract_tidegauge, a, xcoord=x, ycoord=y, mask=m)
        ctx.ncompared += 1
        return
    oc = G.Ocean(ctx, big=False, names="default" if part.startswith("steric") else "any", chunks=False)
    ds = oc.dataset(deptho=part.startswith("steric") or rng.random() < 0.7)
    cn = oc.coord_names()
    strict = ctx.pick("strict", ["default", "true", "false"], p=[0.5, 0.2, 0.3])
    kw = {} if strict == "default" else {"strict": strict == "true"}
    st = strict != "false"
    nm = int(rng.choice([0, 1, 2, 3], p=[0.2, 0.5, 0.2, 0.1]))
    ctx.note(nmut=nm)
    if part == "input":
        for i in range(nm):
            ds = mutate(ctx, ds, f"mut{i}", False)
        extra = ()
        av = ctx.pick("additional", ["none", "present", "absent", "string"], p=[0.5, 0.2, 0.15, 0.15])
        if av != "none":
            extra = {"present": ["deptho"], "absent": ["deptho", "nothere"], "string": ["uo"]}[av]
            kw["additional_vars"] = extra if av != "string" else "uo"
        ok, bad = expected(ds, False, st, extra)
        judge(ctx, U.validate_dataset, "input dataset", ok, bad, ds, **kw)
        return
    if part == "reference":
        ref = ctx.call(RF.setup_reference_state, ds, coord_names=cn) if cn else ctx.call(RF.setup_reference_state, ds)
        ref = ref.copy()
        for i in range(nm):
            ref = mutate(ctx, ref, f"mut{i}", True)
        ok, bad = expected(ref, True, st)
        judge(ctx, U.validate_dataset, "reference dataset", ok, bad, ref, reference=True, **kw)
        # the same dataset is judged by the other rule as well
        ok2, bad2 = expected(ref, False, st)
        judge(ctx, U.validate_dataset, "reference judged as input", ok2, bad2, ref, **kw)
        return
    fn = ctx.pick("entry", [ml.steric, ml.thermosteric, ml.halosteric])
    dom = ctx.pick("domain", ["local", "global"])
    if part == "steric":
        for i in range(nm):
            ds = mutate(ctx, ds, f"mut{i}", False)
        if ctx.flip("no_deptho", 0.2) and "deptho" in ds:
            ds = ds.drop_vars("deptho")
        if ctx.flip("no_zi", 0.15):
            ds = ds.drop_vars("z_i")
        ok, bad = expected(ds, False, st, ("z_i", "deptho") if dom == "local" else ())
        if ok and any(v in ("rank", "deptho_rank") for k, v in ctx.features.items() if k.startswith("mut")):
            ctx.ncompared += 1  # ranks that are right again, with foreign dimensions
            return
        judge(ctx, fn, "steric input", ok, bad, ds, domain=dom, **kw)
        return
    ref = ctx.call(RF.setup_reference_state, ds).copy()
    if ctx.flip("not_dataset", 0.1):
        bad = ctx.pick("kind", ["dict", "array", "number"])
        r = {"dict": {"thetao": 1}, "array": ref["thetao"], "number": 3}[bad]
        ctx.rejects(fn, ds, reference=r, domain=dom, **kw)
        ctx.ncompared += 1
        return
    for i in range(max(1, nm)):
        ref = mutate(ctx, ref, f"mut{i}", True)
    ok, bad = expected(ref, True, st)
    ok0, bad0 = expected(ds, False, st)
    if ok and any(v not in ("permute", "nothing", "extra", "as_coord", "area_in", "area_out", "time") for k, v in ctx.features.items() if k.startswith("mut") and "_" not in k):
        ctx.ncompared += 1
        return
    judge(ctx, fn, "steric reference", ok and ok0, bad or bad0, ds, reference=ref, domain=dom, **kw)

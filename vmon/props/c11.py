"""C11 vorticity, Coriolis parameter, potential vorticity."""
import numpy as np
import xarray as xr

from vmon import gen as G

CASES = {"quick": 3200, "thorough": 32000}
RULE = (
    "random staggered grids (symmetric and not, 1-30 cells per side, renamed coordinates and variables, extra time and depth dimensions, "
    "permuted, f8/f4, lazy, missing values), latitudes, conventions and invalid options; every corner compared with the circulation sum; "
    "distinct by feature tuple"
)
ASSUMPTIONS = ["staggered dimensions carry coordinates (the grid library needs them)"]

DAY = 86400.0


def pad(a, ax, sym):
    """zero outside values: both sides if symmetric, else at the end"""
    w = [(0, 0)] * a.ndim
    w[ax] = (1, 1) if sym else (0, 1)
    return np.pad(a, w)


def case(ctx):
    from momlevel import derived as D
    rng = ctx.rng
    sym = ctx.flip("symmetric")
    names = ctx.pick("names", [("xh", "yh", "xq", "yq"), ("x", "y", "xc", "yc"), ("lonh", "lath", "lonq", "latq")], p=[0.5, 0.25, 0.25])
    xh, yh, xq, yq = names
    cd = None if names[0] == "xh" and rng.random() < 0.8 else {"xcenter": xh, "ycenter": yh, "xcorner": xq, "ycorner": yq}
    if cd is not None:
        cd = {k: cd[k] for k in G.perm(rng, cd)}
    nx, ny = G.size(ctx, "nx", (2, 7), (12, 30)), G.size(ctx, "ny", (2, 7), (12, 30))
    if rng.random() < 0.04:
        nx, ny = G.perm(rng, [G.long_size(rng), int(rng.integers(2, 4))])
    nxq, nyq = (nx + 1, ny + 1) if sym else (nx, ny)
    lead = ctx.pick("lead", ["", "z", "t", "tz"], p=[0.3, 0.25, 0.25, 0.2])
    ld = tuple({"z": "z_l", "t": "time"}[c] for c in lead)
    ls = tuple(int(rng.integers(1, 4)) for _ in lead)
    if ls and max(nx, ny) < 8 and rng.random() < 0.04:
        ls = tuple(G.perm(rng, [G.long_size(rng)] + [1] * (len(ls) - 1)))
    cs = {xh: np.arange(nx) + 0.5, yh: np.arange(ny) + 0.5, xq: np.arange(nxq) + (0.0 if sym else 1.0), yq: np.arange(nyq) + (0.0 if sym else 1.0)}
    for d, n in zip(ld, ls):
        cs[d] = np.arange(n) * 1.0
    f4 = ctx.flip("f4", 0.12)
    lazy = ctx.flip("lazy", 0.1)
    permute = ctx.flip("permute", 0.4)

    def mk(a, dims, name):
        if f4:
            a = a.astype("f4")
        da = xr.DataArray(a, dims=dims, coords={d: cs[d] for d in dims}, name=name)
        if permute:
            da = da.transpose(*G.perm(rng, dims))
        return da

    u = rng.normal(0, 1, ls + (ny, nxq))
    v = rng.normal(0, 1, ls + (nyq, nx))
    if ctx.flip("land", 0.3):
        u = G.sprinkle_nan(rng, u, 0.1)
        v = G.sprinkle_nan(rng, v, 0.1)
    if ctx.flip("zero", 0.1):
        u[...] = np.where(np.isnan(u), u, 0.0)
    unit = 10.0 ** float(ctx.pick("scale", [0, 1, 3, 4, 5], p=[0.1, 0.1, 0.4, 0.3, 0.1]))
    dx = rng.uniform(1, 100, (ny, nxq)) * unit
    dy = rng.uniform(1, 100, (nyq, nx)) * unit
    ar = 10.0 ** rng.uniform(0, 4, (nyq, nxq)) * unit**2
    vm = {"u": "uo", "v": "vo", "dx": "dxCu", "dy": "dyCv", "area": "areacello_bu"}
    kw = {}
    if ctx.flip("varmap", 0.3):
        vm = {k: n + "_1" for k, n in vm.items()}
        if rng.random() < 0.3:
            # swapped default names: only the map counts
            vm = {"u": "vo", "v": "uo", "dx": "dyCv", "dy": "dxCu", "area": "area"}
        kw["varname_map"] = {k: vm[k] for k in G.perm(rng, vm)}
    ds = xr.Dataset(
        {
            vm["u"]: mk(u, ld + (yh, xq), None), vm["v"]: mk(v, ld + (yq, xh), None),
            vm["dx"]: mk(dx, (yh, xq), None), vm["dy"]: mk(dy, (yq, xh), None),
            vm["area"]: mk(ar, (yq, xq), None), "other": ((xh,), rng.normal(size=nx)),
        }
    )
    if lazy:
        ds = ds.chunk({d: 1 for d in ld})
    if cd is not None:
        kw["coord_dict"] = cd
    if sym or rng.random() < 0.3:
        kw["symmetric"] = sym
    raw = (lambda a: a.astype("f4").astype(float)) if f4 else (lambda a: a)
    ud, vd = raw(u) * raw(dx), raw(v) * raw(dy)
    up, vp = pad(ud, ud.ndim - 2, sym), pad(vd, vd.ndim - 1, sym)
    exp = (-(np.diff(up, axis=-2)) + np.diff(vp, axis=-1)) / raw(ar)
    mag = (np.abs(np.nan_to_num(up[..., 1:, :])) + np.abs(np.nan_to_num(up[..., :-1, :]))
           + np.abs(np.nan_to_num(vp[..., 1:])) + np.abs(np.nan_to_num(vp[..., :-1]))) / raw(ar)
    order = ld + (yq, xq)
    rv = ctx.call(D.calc_rel_vort, ds, **kw)
    ctx.same(rv, exp, order, "relative vorticity", rtol=1e-10, atol=(2e-6 if f4 else 1e-13) * mag, coords=cs)
    if ctx.flip("missing_field", 0.15):
        w = ctx.pick("dropped", sorted(vm))
        ctx.rejects(D.calc_rel_vort, ds.drop_vars(vm[w]), **kw)
    # ---- Coriolis
    lat = rng.uniform(-90, 90, (nyq, nxq))
    lat[rng.random(lat.shape) < 0.1] = rng.choice([0.0, 90.0, -90.0])
    band = ctx.pick("band", ["all", "equatorial", "one_sided", "high", "beyond"], p=[0.6, 0.15, 0.1, 0.1, 0.05])
    if band == "equatorial":
        lat = rng.uniform(-1, 1, lat.shape) * float(rng.choice([1.5, 0.9, 0.01, 1e-5]))
    elif band == "one_sided":
        lat = np.abs(lat) * float(rng.choice([-1, 1]))
    elif band == "high":
        lat = np.sign(lat) * (90 - np.abs(lat) * float(rng.choice([1e-1, 1e-3])))
    elif band == "beyond":
        lat = lat * 3
    lm = ctx.pick("lat", ["f8", "f4", "int", "nan"], p=[0.7, 0.1, 0.1, 0.1])
    if lm == "f4":
        lr = lat.astype("f4")
    elif lm == "int":
        lr = np.round(lat).astype(int)
    elif lm == "nan":
        lr = G.sprinkle_nan(rng, lat, 0.2)
    else:
        lr = lat
    la = xr.DataArray(lr, dims=(yq, xq), coords={yq: cs[yq], xq: cs[xq]}, name="geolat_c", attrs={"units": "degrees_north"})
    if rng.random() < 0.15:
        la = la.chunk({yq: 1})
    f = ctx.call(D.calc_coriolis, la)
    fe = 2 * (2 * np.pi / DAY) * np.sin(np.deg2rad(lr.astype(float)))
    ctx.same(f, fe, (yq, xq), "coriolis", rtol=2e-6 if lm == "f4" else 1e-12, atol=1e-10 if lm == "f4" else 1e-18, coords=cs)
    # ---- potential vorticity
    interp = ctx.flip("interp", 0.7)
    hd = (yh, xh) if interp else (yq, xq)
    hs = (ny, nx) if interp else (nyq, nxq)
    n2 = rng.normal(1e-5, 1e-5, ls + hs)
    if ctx.flip("n2 zero", 0.15):
        n2[rng.random(n2.shape) < 0.4] = 0.0  # mixed layers
        if not interp and rng.random() < 0.3:
            n2[...] = 0.0
    if ctx.flip("n2land", 0.3):
        n2 = G.sprinkle_nan(rng, n2, 0.1)
    na = xr.DataArray(n2, dims=ld + hd, coords={d: cs[d] for d in ld + hd}, name="n2")
    if permute:
        na = na.transpose(*G.perm(rng, na.dims))
    if lazy:
        na = na.chunk({d: 1 for d in ld})
    za, fa = rv, f
    zv, fv = rv.transpose(*order).values.astype(float), f.transpose(yq, xq).values.astype(float)
    pk = {}
    if interp:
        b = pad(pad(n2, n2.ndim - 2, sym), n2.ndim - 1, sym)
        ne = 0.25 * (b[..., 1:, 1:] + b[..., :-1, 1:] + b[..., 1:, :-1] + b[..., :-1, :-1])
    else:
        ne = n2
        pk["interp_n2"] = False
    if cd is not None:
        pk["coord_dict"] = cd
    if sym:
        pk["symmetric"] = True
    grav = 9.8
    if ctx.flip("gravity", 0.4):
        grav = float(rng.choice([9.80665, 1.0, 3.7]))
        pk["gravity"] = grav
    unit = ctx.pick("units", ["default", "m", "cm"])
    if unit != "default":
        pk["units"] = unit
    pv = ctx.call(D.calc_pv, za, fa, na, **pk)
    pe = (zv + fv) * ne / grav
    sc = (np.abs(zv) + np.abs(fv)) * np.abs(ne) / grav
    if unit == "cm":
        pe, sc = np.abs(pe / 100 * 1e14), np.abs(sc / 100 * 1e14)
    dn = order
    r = 1e-6 if (f4 or lm == "f4") else 1e-11
    ctx.same(pv, pe, dn, "potential vorticity", rtol=r, atol=np.nan_to_num(sc) * r, coords=cs)
    if ctx.flip("bad_units", 0.1):
        pk["units"] = ctx.pick("bad", ["km", "M", "", "mm", "CM"])
        ctx.rejects(D.calc_pv, za, fa, na, **pk)

"""C10 stratification diagnostics."""
import numpy as np
import xarray as xr

from vmon import gen as G
from vmon import interp1d
from vmon import oracle as O

CASES = {"quick": 1500, "thorough": 20000}
RULE = (
    "random profiles (stable, unstable, mixed, homogeneous; masks; 3-60 levels with uneven spacing; z-first 3-D, 1-D, permuted and 4-D "
    "fields; f8/f4; lazy; renamed vertical coordinate), gravities and pressures; n2, adjustment, wave speed, radius and angle compared with "
    "plain-array formulas; distinct by feature tuple"
)
ASSUMPTIONS = [
    "n2 on interfaces: xgcm's kernels run uncompiled (numba is not installed here, see interp1d.py)",
    "adjustment and wave speed: vertical dimension first (other layouts: KF-N2-AXIS)",
]


def adjust(n2):
    """z first"""
    out = np.where(n2 <= 0, np.nan, n2)
    out[0] = np.where(np.isnan(out[0]), 1e-8, out[0])
    for k in range(1, len(out)):
        out[k] = np.where(np.isnan(out[k]), out[k - 1], out[k])
    return np.where(np.isnan(n2), np.nan, out)


def adjust_legacy(n2, zax):
    """what the shipped code does when the vertical dimension is not the first (known finding)"""
    out = np.where(n2 <= 0, np.nan, n2)
    out[0] = np.where(np.isnan(out[0]), 1e-8, out[0])
    o = np.moveaxis(out, zax, 0)
    for k in range(1, len(o)):
        o[k] = np.where(np.isnan(o[k]), o[k - 1], o[k])
    return np.where(np.isnan(n2), np.nan, np.moveaxis(o, 0, zax))


def profile(ctx, nz, hor):
    rng = ctx.rng
    shp = (nz,) + hor
    m = ctx.pick("strat", ["random", "stable", "unstable", "homog", "layers"], p=[0.35, 0.3, 0.1, 0.1, 0.15])
    if m == "random":
        T, S = rng.normal(12, 5, shp), rng.normal(35, 1, shp)
    elif m == "stable":
        T, S = np.sort(rng.uniform(-1, 28, shp), axis=0)[::-1], np.sort(rng.uniform(33, 37, shp), axis=0)
    elif m == "unstable":
        T, S = np.sort(rng.uniform(-1, 28, shp), axis=0), np.sort(rng.uniform(33, 37, shp), axis=0)[::-1]
    elif m == "homog":
        T, S = np.broadcast_to(rng.uniform(0, 20, hor), shp), np.broadcast_to(rng.uniform(33, 37, hor), shp)
    else:
        T, S = np.round(rng.uniform(0, 4, shp)) * 5, np.round(rng.uniform(68, 74, shp)) / 2
    return np.array(T), np.array(S)


def case(ctx):
    from momlevel import derived as D
    rng = ctx.rng
    zn = ctx.pick("zname", ["z_l", "lev", "depth"], p=[0.7, 0.15, 0.15])
    nz = G.size(ctx, "nz", (3, 9), (20, 60) if rng.random() < 0.8 else (101, 300), 0.09)
    zi, zl = G.levels(ctx, nz)
    kind = ctx.pick("layout", ["zyx", "z", "zx", "tzyx", "yxz"], p=[0.5, 0.1, 0.1, 0.18, 0.12])
    hd = {"zyx": ("yh", "xh"), "z": (), "zx": ("xh",), "tzyx": ("time", "yh", "xh"), "yxz": ("yh", "xh")}[kind]
    hor = tuple(int(rng.integers(1, 5)) for _ in hd)
    if rng.random() < 0.03 and hor:
        hor = (int(rng.integers(15, 40)),) + hor[1:]
    elif rng.random() < 0.03 and hor:
        k = int(rng.integers(len(hor)))
        hor = tuple(G.long_size(rng) if i == k else 1 for i in range(len(hor)))
        ctx.note(long=hd[k])
    T, S = profile(ctx, nz, hor)
    mask = ctx.pick("mask", ["none", "columns", "floor", "points"], p=[0.4, 0.2, 0.25, 0.15])
    if mask == "columns" and hor:
        m = rng.random(hor) < 0.3
        T[:, m] = np.nan
        S[:, m] = np.nan
    elif mask == "floor":
        kb = rng.integers(0, nz + 1, hor)
        b = np.arange(nz).reshape((nz,) + (1,) * len(hor)) >= kb
        T[b] = np.nan
        S[b] = np.nan
    elif mask == "points":
        T = G.sprinkle_nan(rng, T, 0.1)
        S = G.sprinkle_nan(rng, S, 0.1)
    f4 = ctx.flip("f4", 0.12)
    if f4:
        rT, rS = T.astype("f4"), S.astype("f4")
        T, S = rT.astype(float), rS.astype(float)
    else:
        rT, rS = T, S
    coords = {zn: zl}
    for d, n in zip(hd, hor):
        coords[d] = G.labels(rng, n)
    dims = (zn,) + hd
    a = xr.DataArray(rT, dims=dims, coords=coords, name="thetao")
    b = xr.DataArray(rS, dims=dims, coords=coords, name="so")
    lay = {"zyx": dims, "z": dims, "zx": dims, "tzyx": ("time", zn, "yh", "xh"), "yxz": ("yh", "xh", zn)}[kind]
    a, b = a.transpose(*lay), b.transpose(*lay)
    lazy = ctx.flip("lazy", 0.1)
    if lazy:
        # differencing along z needs at least three levels per chunk (a limit of dask)
        a, b = G.chunk(rng, a).chunk({zn: -1}), G.chunk(rng, b).chunk({zn: -1})
    eos = ctx.pick("eos", ["default", "Wright", "linear", "LINEAR"], p=[0.5, 0.15, 0.2, 0.15])
    kw = {}
    e = "wright" if eos == "default" else eos.lower()
    if eos != "default":
        kw["eos"] = eos
    zk = {} if zn == "z_l" else {"zcoord": zn}
    grav, patm = -9.8, 101325.0
    nk = dict(zk)
    if ctx.flip("gravity", 0.3):
        grav = float(rng.choice([-9.80665, -1.0, -3.7, 9.8]))
        nk["gravity"] = grav
    if ctx.flip("patm", 0.3):
        patm = float(rng.choice([0.0, 1e5, 2.5e6]))
        nk["patm"] = patm
    elif hd == ("yh", "xh") and ctx.flip("patm_field", 0.15):
        pa = rng.uniform(9e4, 1.1e5, hor)
        nk["patm"] = xr.DataArray(pa, dims=hd, coords={d: coords[d] for d in hd})
        patm = pa
    p = zl.reshape((nz,) + (1,) * len(hor)) * 1e4 + patm
    al, be = O.alpha(e, T, S, p), O.beta(e, T, S, p)
    tz, sz = O.gradient2(T, zl), O.gradient2(S, zl)
    # numpy's central difference has a zero weight at the centre of an even grid, which still
    # propagates a missing value (0 * nan), so the missing pattern is that of the stencil
    x = grav * (al * tz - be * sz)
    scale = abs(grav) * (np.abs(al) * gabs(T, zl) + np.abs(be) * gabs(S, zl))
    tol = np.nan_to_num((3e-4 if f4 else 1e-11) * scale, nan=0.0) + 1e-18
    n2 = ctx.call(D.calc_n2, a, b, **kw, **nk)
    ctx.same(n2, x, dims, "n2", rtol=3e-4 if f4 else 1e-9, atol=tol, coords=coords)
    # ---- the same on interfaces: T and S interpolated to them, nothing beyond the outermost centres
    if mask in ("none", "columns") and ctx.flip("interfaces", 0.2):
        interp1d.install()
        lo, hi = zl[0], zl[-1]
        how = ctx.pick("targets", ["grid", "inside", "centres"], p=[0.4, 0.4, 0.2])
        if how == "grid":
            zt = np.array(zi, dtype=float)
        elif how == "centres":
            zt = np.array(zl, dtype=float)
        else:
            zt = np.unique(np.round(rng.uniform(lo, hi, int(rng.integers(1, 8))), 6))
        if len(zt) >= 3 and np.diff(zt).min() > 1e-6:
            tn = ctx.pick("target_name", ["z_i", "zw", "interfaces"])
            it = xr.DataArray(zt, dims=(tn,), coords={tn: zt}, name=tn)
            f2 = T.reshape(nz, -1), S.reshape(nz, -1)
            Ti, Si = (np.stack([np.interp(zt, zl, f[:, i], left=np.nan, right=np.nan) for i in range(f.shape[1])], axis=1).reshape((len(zt),) + hor) for f in f2)
            pi_ = zt.reshape((len(zt),) + (1,) * len(hor)) * 1e4 + patm
            ai, bi = O.alpha(e, Ti, Si, pi_), O.beta(e, Ti, Si, pi_)
            xi = grav * (ai * O.gradient2(Ti, zt) - bi * O.gradient2(Si, zt))
            si = abs(grav) * (np.abs(ai) * gabs(Ti, zt) + np.abs(bi) * gabs(Si, zt))
            ti = np.nan_to_num((3e-4 if f4 else 1e-10) * si, nan=0.0) + 1e-18
            ni = ctx.call(D.calc_n2, a.compute(), b.compute(), interfaces=it, **kw, **nk)
            ctx.same(ni, xi, (tn,) + hd, "n2 on interfaces", rtol=3e-4 if f4 else 1e-8, atol=ti, coords={**{d: coords[d] for d in hd}, tn: zt})
            ctx.count("n2 on interfaces", xi.size)
        else:
            # fewer than three interfaces: refused, or a result on them, but never one on the levels
            it = xr.DataArray(zt, dims=("z_i",), coords={"z_i": zt}, name="z_i")
            ok, ni = ctx.attempt(D.calc_n2, a.compute(), b.compute(), interfaces=it, **kw, **nk)
            ctx.check(not ok or ni.sizes.get("z_i") == len(zt), "n2 on few interfaces", lambda: str(ni.dims))
    # ---- stability angle: the density ratio must be well defined
    if ctx.flip("angle", 0.4):
        pd_ = xr.DataArray(np.broadcast_to(p, T.shape), dims=dims, coords=coords).transpose(*G.perm(rng, dims))
        ang = ctx.call(D.calc_stability_angle, a, b, pd_, **kw, **zk)
        with np.errstate(all="ignore"):
            num, den = be * sz, al * tz
            R = num / den
            ex = np.degrees(np.arctan((1 + R) / (1 - R)))
        gv = ang.transpose(*dims).values
        ctx.check(gv.shape == ex.shape, "angle: shape")
        good = np.isfinite(R) & (np.abs(1 - R) > 1e-5 * (1 + np.abs(R))) & (np.abs(den) > (1e-3 if f4 else 1e-9) * np.abs(al) * gabs(T, zl)) & (np.abs(num) > (1e-3 if f4 else 0) * np.abs(be) * gabs(S, zl))
        bad = np.isnan(T) & np.isnan(S)
        if not f4:
            ctx.close(gv[good], ex[good], "stability angle", rtol=1e-6, atol=1e-4)
        else:
            ctx.close(gv[good & (np.abs(1 - R) > 0.05 * (1 + np.abs(R)))], ex[good & (np.abs(1 - R) > 0.05 * (1 + np.abs(R)))], "stability angle", rtol=0, atol=2.0)
        ctx.check(bool(np.isnan(gv[np.isnan(x)]).all()), "stability angle: missing values")
        ctx.count("angles", int(good.sum()))
    # ---- adjustment and wave speed on the computed field and on a synthetic one
    src = ctx.pick("n2src", ["computed", "synthetic"])
    if src == "computed":
        nv = n2.transpose(*dims).values.astype(float)
        arr = n2
    else:
        nv = rng.normal(1e-5, 1e-4, (nz,) + hor)
        nv[rng.random(nv.shape) < 0.15] = 0.0
        if rng.random() < 0.5:
            nv = G.sprinkle_nan(rng, nv, 0.15)
        if rng.random() < 0.3:
            kb = rng.integers(0, nz + 1, hor)
            nv[np.arange(nz).reshape((nz,) + (1,) * len(hor)) >= kb] = np.nan
        arr = xr.DataArray(nv, dims=dims, coords=coords, name="n2", attrs={"units": "s-2"}).transpose(*lay)
        if lazy:
            arr = arr.chunk({d: (-1 if d == zn else 2) for d in lay})
    zfirst = lay[0] == zn
    if arr.chunks is not None:
        arr = arr.compute()  # item assignment on the first level needs memory arrays
    adj = ctx.call(D.adjust_negative_n2, arr, **zk)
    good = adjust(nv)
    zax = lay.index(zn)
    order = [dims.index(d) for d in lay]
    legacy = adjust_legacy(np.transpose(nv, order).copy(), zax)
    legacy = np.transpose(legacy, np.argsort(order))
    g = adj.transpose(*dims).values
    ctx.check(g.shape == good.shape, "adjusted n2: shape")
    if not zfirst and not eq(g, good) and eq(g, legacy):
        ctx.known_finding("KF-N2-AXIS", f"layout {lay}")
    else:
        ctx.same(adj, good, dims, "adjusted n2", rtol=1e-6 if arr.dtype == np.float32 else 1e-12, coords=coords)
    if ctx.flip("adjust_flag", 0.35):
        n2b = ctx.call(D.calc_n2, a.compute(), b.compute(), adjust_negative=True, **kw, **nk)
        base = n2.transpose(*dims).values
        g2, l2 = adjust(base), adjust_legacy(np.transpose(base, order).copy(), zax)
        l2 = np.transpose(l2, np.argsort(order))
        gg = n2b.transpose(*dims).values
        if not zfirst and not eq(gg, g2, 1e-6) and eq(gg, l2, 1e-6):
            ctx.known_finding("KF-N2-AXIS", f"layout {lay}, adjust_negative")
        elif not lazy:
            ctx.same(n2b, g2, dims, "n2 with adjust_negative", rtol=1e-6)
    # ---- wave speed
    depth = rng.uniform(0, 1.2 * zi[-1], hor)
    dzv = O.dz(zi, depth)
    dzm = ctx.pick("dz", ["partial", "full"])
    if dzm == "full":
        dzv = np.broadcast_to(np.diff(zi).reshape((nz,) + (1,) * len(hor)), (nz,) + hor).copy()
    dz = xr.DataArray(dzv, dims=dims, coords=coords, name="dz")
    if ctx.flip("dzperm", 0.4):
        dz = dz.transpose(*G.perm(rng, dims))
    ok, c = ctx.attempt(D.calc_wave_speed, arr, dz, **zk)
    cexp = np.nansum(np.sqrt(good) * dzv, axis=0) / np.pi
    cexp = np.where(np.isnan(nv[0]), np.nan, cexp)
    if zfirst:
        if not ok:
            ctx.fail("calc_wave_speed raised", repr(c))
        ctx.same(c, cexp, hd, "wave speed", rtol=1e-5 if arr.dtype == np.float32 else 1e-9, atol=1e-14, coords={d: coords[d] for d in hd})
    else:
        fine = ok and set(c.dims) == set(hd) and eq(c.transpose(*hd).values, cexp, 1e-6)
        if not fine:
            # legacy: land is taken from the first slice of the first dimension
            cl = np.nansum(np.sqrt(legacy) * dzv, axis=0) / np.pi
            first = xr.DataArray(nv, dims=dims, coords=coords).transpose(*lay)[0]
            le = xr.where(first.isnull(), np.nan, xr.DataArray(cl, dims=hd, coords={d: coords[d] for d in hd}))
            same = ok and set(le.dims) == set(c.dims) and eq(c.transpose(*le.dims).values, le.values, 1e-6)
            ctx.check(same, "wave speed of a field whose first dimension is not vertical", lambda: repr(c)[:300])
            ctx.known_finding("KF-N2-AXIS", f"layout {lay}, wave speed")
    # ---- deformation radius
    if len(hd) >= 1:
        w = xr.DataArray(np.abs(rng.normal(2, 1, hor)), dims=hd, coords={d: coords[d] for d in hd}, name="c1")
        f = rng.normal(0, 1e-4, hor)
        f.flat[0] = -abs(f.flat[0])
        fd = xr.DataArray(f, dims=hd, coords={d: coords[d] for d in hd}, name="f")
        if len(hd) > 1 and rng.random() < 0.5:
            fd = fd.transpose(*G.perm(rng, hd))
        r = ctx.call(D.calc_rossby_rd, w, fd)
        ctx.same(r, w.values / np.abs(f), hd, "deformation radius", rtol=1e-12)


def gabs(f, z):
    """size of the terms of the difference quotient"""
    f = np.abs(np.nan_to_num(f))
    out = np.zeros_like(f)
    h = np.gradient(z)
    sh = (len(z),) + (1,) * (f.ndim - 1)
    m = f.copy()
    m[1:] = np.maximum(m[1:], f[:-1])
    m[:-1] = np.maximum(m[:-1], f[1:])
    m[0] = np.maximum(m[0], f[2])
    m[-1] = np.maximum(m[-1], f[-3])
    dmin = np.minimum(np.r_[np.diff(z)[0], np.diff(z)], np.r_[np.diff(z), np.diff(z)[-1]])
    dmin[0] = min(np.diff(z)[:2])
    dmin[-1] = min(np.diff(z)[-2:])
    return m / dmin.reshape(sh)


def eq(a, b, rtol=1e-7):
    if a.shape != b.shape or (np.isnan(a) != np.isnan(b)).any():
        return False
    with np.errstate(invalid="ignore"):
        d = np.abs(a - b) <= rtol * np.abs(b) + 1e-300
    return bool((d | np.isnan(b)).all())

"""C09 layer thicknesses."""
import numpy as np
import xarray as xr

from vmon import gen as G
from vmon import oracle as O

CASES = {"quick": 4800, "thorough": 48000}
RULE = (
    "random vertical grids (even, uneven, thin, zero-thickness layers, integer interfaces), bathymetries (on interfaces, zero, missing, "
    "below the grid; 1-3 dimensional, permuted, lazy, f8/f4/int) and depth ranges (limits on interfaces, inside the same cell, empty, "
    "beyond the grid); each thickness compared with the exact overlap, column sums with the range; distinct by feature tuple"
)
ASSUMPTIONS = ["vertical centres carry their coordinate", "interfaces do not decrease"]


def case(ctx):
    from momlevel import derived as D
    rng = ctx.rng
    nz = G.size(ctx, "nz", (1, 8), (30, 80) if rng.random() < 0.8 else (128, 300), 0.07)
    zi, zl = G.levels(ctx, nz)
    if ctx.flip("zero_layer", 0.08) and nz > 1:
        k = int(rng.integers(1, nz))
        zi[k + 1 if k + 1 <= nz else k] = zi[k]
        zi = np.maximum.accumulate(zi)
    if ctx.flip("offset", 0.1):
        off = float(rng.uniform(1, 50))
        zi = zi + off
        zl = zl + off
    if ctx.flip("surface_level", 0.1):
        zl = zi[:-1].copy()  # levels named after the tops of their cells
    zd = ctx.pick("zdtype", ["f8", "f4", "i8"], p=[0.8, 0.1, 0.1])
    if zd == "i8":
        zi = np.maximum.accumulate(np.round(zi))
        for k in range(1, len(zi)):
            if zi[k] <= zi[k - 1]:
                zi[k] = zi[k - 1] + 1
    zi_raw = zi.astype(zd)
    zi = zi_raw.astype(float)
    zl_raw = zl.astype("f4" if zd == "f4" else "f8")
    ny, nx = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    if rng.random() < 0.03:
        ny, nx = int(rng.integers(20, 50)), int(rng.integers(20, 50))
    elif rng.random() < 0.04:
        ny, nx = G.perm(rng, [G.long_size(rng), int(rng.integers(1, 4))])
    depth = G.bathymetry(ctx, zi, ny, nx)
    draw, depth = G.cast(ctx, "dtype", depth, p=(0.75, 0.15, 0.1, 0.0))
    zn, yn, xn = ctx.pick("names", [("z_l", "yh", "xh"), ("lev", "lat", "lon"), ("z", "j", "i")], p=[0.7, 0.15, 0.15])
    lev = xr.DataArray(zl_raw, dims=(zn,), coords={zn: zl_raw}, name=zn)
    inn = "zi_" if rng.random() < 0.3 else "z_i"
    itf = xr.DataArray(zi_raw, dims=(inn,), coords={inn: zi_raw} if rng.random() < 0.7 else {}, name=inn)
    dd = ctx.pick("ddims", ["yx", "x", "tyx"], p=[0.85, 0.1, 0.05])
    dims = {"yx": (yn, xn), "x": (xn,), "tyx": ("time", yn, xn)}[dd]
    if dd == "x":
        draw, depth = draw[0], depth[0]
    elif dd == "tyx":
        draw, depth = np.stack([draw, draw[::-1]]), np.stack([depth, depth[::-1]])
    dep = xr.DataArray(draw, dims=dims, coords={d: G.labels(rng, s) for d, s in zip(dims, draw.shape) if rng.random() < 0.7}, name="deptho")
    cs = {d: dep[d].values for d in dims if d in dep.coords}
    cs[zn] = zl_raw
    if len(dims) > 1 and ctx.flip("perm", 0.3):
        dep = dep.transpose(*G.perm(rng, dims))
    if ctx.flip("lazy", 0.12):
        dep = G.chunk(rng, dep)
    H = zi[-1]
    top, bottom, kw = 0.0, None, {}

    def limit():
        m = rng.integers(5)
        if m == 4:
            # within a millimetre of an interface
            return float(max(0.0, rng.choice(zi) + rng.choice([-1, 1]) * 10 ** rng.uniform(-5, -3)))
        if m == 0:
            return float(rng.choice(zi))
        if m == 1:
            return float(rng.uniform(0, 1.2 * H))
        if m == 2:
            k = int(rng.integers(nz))
            return float(zi[k] + rng.random() * (zi[k + 1] - zi[k]))
        return float(round(rng.uniform(0, H)))

    rangemode = ctx.pick("range", ["none", "bottom", "top", "both", "cell", "inverted"], p=[0.3, 0.2, 0.2, 0.2, 0.07, 0.03])
    if rangemode in ("bottom", "both"):
        bottom = limit()
    if rangemode in ("top", "both"):
        top = limit()
    if rangemode == "both" and bottom < top:
        top, bottom = bottom, top
    if rangemode == "cell":
        k = int(rng.integers(nz))
        top, bottom = sorted(zi[k] + rng.random(2) * (zi[k + 1] - zi[k]))
        top, bottom = float(top), float(bottom)
    if rangemode == "inverted":
        a, b = sorted([limit(), limit()])
        top, bottom = b, a
    if rangemode not in ("none", "bottom"):
        kw["top"] = top
    if bottom is not None:
        kw["bottom"] = bottom
    kind = ctx.pick("limit_type", ["float", "int", "np.int64", "np.float64", "np.float32"], p=[0.5, 0.15, 0.1, 0.15, 0.1])
    if kind != "float":
        conv = {"int": int, "np.int64": np.int64, "np.float64": np.float64, "np.float32": np.float32}[kind]
        kw = {k: conv(v) for k, v in kw.items()}
        top = float(kw.get("top", top))
        bottom = float(kw["bottom"]) if bottom is not None else None
    frac = ctx.flip("fraction", 0.3)
    if frac:
        kw["fraction"] = True
    got = ctx.call(D.calc_dz, lev, itf, dep, **kw)
    exp = O.dz(zi, depth, top, bottom)
    leg = O.dz_legacy(zi, depth, top, bottom)
    full = np.diff(zi).reshape((nz,) + (1,) * depth.ndim)
    # the known finding: top lies strictly inside a cell whose lower limit is the floor or `bottom`
    d = np.nan_to_num(depth, nan=0.0)
    if bottom is not None:
        d = np.minimum(d, bottom)
    zt = zi[:-1].reshape(full.shape)
    zb = zi[1:].reshape(full.shape)
    eps = (2e-6 if zd == "f4" or draw.dtype == np.float32 else 1e-12) * max(1.0, H)
    cls = (zt < top) & (top < zb) & (d[None] < zb) & (np.abs(exp - leg) > eps)
    cls = np.broadcast_to(cls, exp.shape)
    order = (zn,) + dims
    g = got.transpose(*order).values if set(got.dims) == set(order) else None
    e = exp
    if frac:
        with np.errstate(all="ignore"):
            e = np.where((exp <= 0) | (full == 0), np.nan, exp / np.where(full == 0, np.nan, full))
            leg = np.where((leg == 0) | (full == 0), np.nan, leg / np.where(full == 0, np.nan, full))
    tol = eps
    if frac:
        tol = eps / np.maximum(np.broadcast_to(full, exp.shape), 1e-3)
    if cls.any() and g is not None and g.shape == e.shape:
        with np.errstate(invalid="ignore"):
            hit = cls & (np.abs(g - leg) <= tol) & ~(np.abs(g - e) <= tol)
        if hit.any():
            i = tuple(int(x) for x in np.argwhere(hit)[0])
            ctx.known_finding("KF-DZ-TOP", f"cell {zi[i[0]]}-{zi[i[0]+1]} floor {d[i[1:]]} top {top}: {g[i]} instead of {exp[i]}")
            e = np.where(hit, g, e)
    if frac and g is not None and g.shape == e.shape:
        # a thickness within rounding of zero may count as empty or not
        with np.errstate(invalid="ignore"):
            free = (np.abs(exp) <= eps) & (np.isnan(g) | (np.abs(g) <= tol))
        e = np.where(free, g, e)
    ctx.same(got, e, order, "thickness" if not frac else "fraction", rtol=1e-9, atol=tol, coords=cs)
    if not frac and not cls.any():
        lo, hi = max(top, zi[0]), np.minimum(d, H)
        ctx.close(g.sum(axis=0), np.maximum(0.0, hi - lo), "column total", rtol=1e-9, atol=eps * nz)
    if rng.random() < 0.06:
        which = ctx.pick("neg", ["depth", "levels", "interfaces"])
        a, b, c = lev, itf, dep
        if which == "depth":
            c = dep.astype(float).copy(deep=True)
            m = np.zeros(c.shape, bool)
            m.flat[int(rng.integers(m.size))] = True
            c = c.where(~m, -float(rng.choice([1e-9, 0.5, 100.0])))
        elif which == "levels":
            v = np.array(zl_raw, dtype=float)
            v[int(rng.integers(nz))] = -0.5
            a = xr.DataArray(v, dims=(zn,), coords={zn: v})
        else:
            v = np.array(zi, dtype=float)
            v[int(rng.integers(nz + 1))] = -1e-6
            b = xr.DataArray(v, dims=(inn,))
        ctx.rejects(D.calc_dz, a, b, c, **kw)

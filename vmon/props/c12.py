"""C12 spiciness."""
import numpy as np
import xarray as xr

from vmon import gen as G
from vmon import oracle as O

CASES = {"quick": 9000, "thorough": 90000}
RULE = (
    "random temperatures and salinities (0-4 dimensions, f8/f4/int, missing values, numpy/xarray permuted/lazy/scalars); every element "
    "compared with a nested evaluation of the Flament polynomial; shape mismatches must be rejected; distinct by feature tuple"
)
ASSUMPTIONS = []


def case(ctx):
    import momlevel
    from momlevel import derived as D
    rng = ctx.rng
    spice = momlevel.spice.flament.spice
    nd = int(rng.integers(0, 5))
    shp = tuple(int(rng.integers(1, 6)) for _ in range(nd))
    if rng.random() < 0.04:
        shp = (int(rng.integers(200, 4000)),)
    ctx.note(ndim=len(shp))
    nan = ctx.pick("nan", [0.0, 0.2])
    T = np.asarray(G.sprinkle_nan(rng, G.temperature(ctx, shp), nan))
    S = np.asarray(G.sprinkle_nan(rng, G.salinity(ctx, shp), nan))
    kind = ctx.pick("kind", ["numpy", "xarray", "scalar", "mismatch"], p=[0.35, 0.45, 0.12, 0.08])
    if kind == "scalar":
        t = float(np.nan_to_num(np.ravel(T)[0], nan=3.0))
        s = float(np.nan_to_num(np.ravel(S)[0], nan=34.0))
        if rng.random() < 0.3:
            t, s = int(round(t)), int(round(s))
        e, mag = O.spice(t, s)
        got = ctx.call(spice, t, s)
        ctx.close(np.ravel(np.asarray(got)), np.ravel(e), "spice of scalars", rtol=0, atol=float(1e-12 * mag + 1e-14))
        return
    if kind == "mismatch":
        a = np.zeros(shp + (2,))
        b = np.zeros(shp + (3,)) if rng.random() < 0.5 else np.zeros((2,) + shp + (2,))
        if rng.random() < 0.3 and len(shp) >= 1 and len(set(shp + (2,))) > 1:
            b = a.T if a.T.shape != a.shape else b
        ctx.rejects(spice, a, b)
        ctx.check(True, "")
        return
    rT, T = G.cast(ctx, "dT", T)
    rS, S = G.cast(ctx, "dS", S)
    f4 = np.float32 in (rT.dtype, rS.dtype)
    e, mag = O.spice(T, S)
    tol = (2e-6 if f4 else 1e-13) * mag + 1e-14
    tol = np.nan_to_num(tol, nan=0.0)
    if kind == "numpy":
        got = ctx.call(spice, rT, rS)
        ctx.close(got, e, "spice", rtol=0, atol=tol)
        return
    if not shp:
        shp = (1,)
        rT, rS, e, tol = (np.reshape(a, (1,)) for a in (rT, rS, e, tol))
    dims = tuple(("time", "z_l", "yh", "xh")[-len(shp):])
    coords = {d: G.labels(rng, n) for d, n in zip(dims, shp) if rng.random() < 0.8}
    a = xr.DataArray(rT, dims=dims, coords=coords, name="thetao")
    b = xr.DataArray(rS, dims=dims, coords=coords, name="so")
    if ctx.flip("perm", 0.5):
        a = a.transpose(*G.perm(rng, dims))
        b = b.transpose(*G.perm(rng, dims))
    if ctx.flip("lazy", 0.15):
        a, b = G.chunk(rng, a), G.chunk(rng, b)
    got = ctx.call(D.calc_spice, a, b)
    ctx.same(got, e, dims, "calc_spice", rtol=0, atol=tol, coords=coords)

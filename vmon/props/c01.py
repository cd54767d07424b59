"""C01 equations of state: density formula, exact derivatives, coefficients, element-wise behaviour."""
import numpy as np
import xarray as xr

from vmon import gen as G
from vmon import oracle as O

CASES = {"quick": 4000, "thorough": 60000}
RULE = (
    "random (T, S, p) arrays of 0-4 dimensions, broadcast against each other, f8/f4/int, numpy/xarray/dask/scalar, "
    "with missing values; every result is compared with an independent Wright/linear formula and its complex-step "
    "derivative; a case is non-trivial when at least one value was compared; distinct by its feature tuple"
)
ASSUMPTIONS = ["Wright (1997) coefficients as printed in the oracle", "tolerance 1e-9 relative (float32 inputs: float32 accuracy)"]


def _shapes(ctx):
    rng = ctx.rng
    nd = int(rng.integers(0, 5))
    full = tuple(int(rng.integers(1, 6)) for _ in range(nd))
    if rng.random() < 0.05:
        full = (int(rng.integers(200, 40000)),)
    out = []
    for _ in range(3):
        m = rng.integers(4)
        if m <= 1:
            s = full
        elif m == 2:
            k = int(rng.integers(0, len(full) + 1))
            s = full[k:]
        else:
            s = tuple(1 if rng.random() < 0.4 else n for n in full)
        out.append(s)
    ctx.note(ndim=nd, shapes=str([len(s) for s in out]))
    return out


def _wrap(ctx, name, arr, kind):
    if kind == "scalar":
        return arr.item() if arr.ndim == 0 else arr
    if kind == "dask":
        import dask.array as da
        return da.from_array(arr, chunks=tuple(G.rand_chunks(ctx.rng, n) for n in arr.shape)) if arr.ndim else arr
    return arr


def case(ctx):
    import momlevel
    rng = ctx.rng
    eos = ctx.pick("eos", ["wright", "linear"], p=[0.65, 0.35])
    mod = getattr(momlevel.eos, eos)
    sT, sS, sP = _shapes(ctx)
    T = np.asarray(G.temperature(ctx, sT), dtype=float)
    S = np.asarray(G.salinity(ctx, sS), dtype=float)
    P = np.asarray(G.pressure(ctx, sP), dtype=float)
    if ctx.flip("gauge pressure", 0.08):
        P = P - float(rng.uniform(0, 2e7))
    if ctx.flip("anomalies", 0.08):
        S = S - float(rng.uniform(0, 45))  # undershoots and anomalies are negative
    nan = ctx.pick("nan", [0.0, 0.15], p=[0.6, 0.4])
    T = np.asarray(G.sprinkle_nan(rng, T, nan))
    S = np.asarray(G.sprinkle_nan(rng, S, nan))
    rT, T = G.cast(ctx, "dT", T)
    rS, S = G.cast(ctx, "dS", S)
    rP, P = G.cast(ctx, "dP", P, p=(0.85, 0.05, 0.1, 0.0))
    f4 = any(a.dtype == np.float32 for a in (rT, rS, rP))
    kind = ctx.pick("kind", ["numpy", "dask", "scalar"], p=[0.7, 0.15, 0.15])
    aT, aS, aP = (_wrap(ctx, n, a, kind) for n, a in (("T", rT), ("S", rS), ("p", rP)))

    def val(r):
        if hasattr(r, "compute"):
            r = r.compute()
        return np.asarray(r)

    rt = 5e-6 if f4 else 1e-10
    exp_rho = O.rho(eos, T, S, P) if eos == "wright" else O.rho_linear(T, S)
    if eos == "linear":
        # the linear equation of state takes its shape from T and S
        got = val(ctx.call(mod.density, aT, aS, aP))
        ctx.close(got, exp_rho, "linear density", rtol=rt)
        got = val(ctx.call(mod.density, aT, aS))
        ctx.close(got, exp_rho, "linear density without pressure", rtol=rt)
        ref = float(ctx.pick("rho_ref", [1035.0, 0.0, 1000.0, 1027.3]))
        got = val(ctx.call(mod.density, aT, aS, aP, rho_ref=ref))
        ctx.close(got, exp_rho - ref, "linear density anomaly", rtol=0, atol=2e-3 if f4 else 1e-8)
        ctx.close(val(ctx.call(mod.drho_dtemp, aT, aS, aP)), -0.2, "linear drho_dtemp", rtol=1e-12)
        ctx.close(val(ctx.call(mod.drho_dsal, aT, aS, aP)), 0.8, "linear drho_dsal", rtol=1e-12)
        ctx.close(val(ctx.call(mod.alpha, aT, aS, aP)), 0.2 / exp_rho, "linear alpha", rtol=rt)
        ctx.close(val(ctx.call(mod.beta, aT, aS, aP)), 0.8 / exp_rho, "linear beta", rtol=rt)
        return
    dT = O.drho_dt_wright(T, S, P)
    dS = O.drho_ds_wright(T, S, P)
    # derivative tolerance: relative to the size of the terms that cancel
    tolT = (2e-4 if f4 else 2e-11)
    tolS = (2e-3 if f4 else 2e-10)
    got = val(ctx.call(mod.density, aT, aS, aP))
    ctx.close(got, exp_rho, "wright density", rtol=rt)
    ctx.close(val(ctx.call(mod.drho_dtemp, aT, aS, aP)), dT, "wright drho_dtemp", rtol=1e-4 if f4 else 1e-10, atol=tolT)
    ctx.close(val(ctx.call(mod.drho_dsal, aT, aS, aP)), dS, "wright drho_dsal", rtol=1e-4 if f4 else 1e-10, atol=tolS)
    ctx.close(val(ctx.call(mod.alpha, aT, aS, aP)), -dT / exp_rho, "wright alpha", rtol=1e-4 if f4 else 1e-10, atol=tolT / 1e3)
    ctx.close(val(ctx.call(mod.beta, aT, aS, aP)), dS / exp_rho, "wright beta", rtol=1e-4 if f4 else 1e-10, atol=tolS / 1e3)
    # element-wise: one element of the broadcast result on its own
    if exp_rho.size:
        bT, bS, bP = np.broadcast_arrays(T, S, P)
        i = int(rng.integers(exp_rho.size))
        one = val(ctx.call(mod.density, float(bT.flat[i]), float(bS.flat[i]), float(bP.flat[i])))
        ctx.close(np.ravel(one), np.ravel(exp_rho.flat[i]), "wright density of one element", rtol=1e-10)

"""C03 inverse barometer."""
import numpy as np
import xarray as xr

from vmon import gen as G
from vmon import oracle as O
from vmon.props.c02 import expand, field

CASES = {"quick": 5200, "thorough": 52000}
RULE = (
    "random surface fields (2-D or 3-D, permuted, f8/f4/int, eager/lazy, missing values), gravities and equations of state; "
    "each value compared with -p/(rho g) from an independent density; plus sign, gravity scaling, locality under a one-point "
    "perturbation; distinct by feature tuple"
)
ASSUMPTIONS = []


def case(ctx):
    import momlevel
    rng = ctx.rng
    dims = ctx.pick("dims", [("yh", "xh"), ("time", "yh", "xh"), ("time",), ("x",)], p=[0.3, 0.5, 0.1, 0.1])
    sizes = {d: int(rng.integers(1, 7)) for d in dims}
    if rng.random() < 0.05:
        sizes[dims[0]] = int(rng.integers(40, 120))
    elif rng.random() < 0.05:
        d = dims[int(rng.integers(len(dims)))]
        sizes = {k: min(v, 3) for k, v in sizes.items()}
        sizes[d] = G.long_size(rng)
        ctx.note(long=d)
    coords = {d: G.labels(rng, sizes[d]) for d in dims if rng.random() < 0.8}
    shp = tuple(sizes[d] for d in dims)
    nan = ctx.pick("nan", [0.0, 0.2])
    T = G.sprinkle_nan(rng, G.temperature(ctx, shp), nan)
    S = G.sprinkle_nan(rng, G.salinity(ctx, shp), nan)
    P = rng.uniform(8.5e4, 1.1e5, shp)
    pm = ctx.pick("pmode", ["atm", "anomaly", "zero", "high"], p=[0.6, 0.2, 0.1, 0.1])
    if pm == "anomaly":
        P = rng.normal(0, 3000, shp)
    elif pm == "zero":
        P[rng.random(shp) < 0.5] = 0.0
    elif pm == "high":
        P = rng.uniform(1e6, 5e7, shp)
    P = G.sprinkle_nan(rng, P, nan / 2)
    rT, T = G.cast(ctx, "dtT", T)
    rS, S = G.cast(ctx, "dtS", S)
    rP, P = G.cast(ctx, "dtP", P, p=(0.85, 0.1, 0.05, 0.0))
    f4 = any(a.dtype == np.float32 for a in (rT, rS, rP))
    name = ctx.pick("eos", ["Wright", "wright", "linear", "LINEAR", "default"])
    eos = "wright" if name == "default" else name.lower()
    g = ctx.pick("gravity", [9.8, 9.80665, 1.0, 3.71, "default", "random", -9.8])
    kw = {}
    gv = 9.8
    if g == "random":
        gv = float(rng.uniform(1, 25))
        kw["gravity"] = gv
    elif g != "default":
        gv = g
        kw["gravity"] = g
    if name != "default":
        kw["equation_of_state"] = name
    # lower-dimensional temperature/salinity (a climatology) against a time-varying pressure
    dT = dims
    if len(dims) == 3 and rng.random() < 0.2 and eos == "wright":
        dT = dims[1:]
        rT, T = rT[0], T[0]
    aT = field(ctx, "tos", rT, dT, coords)
    aS = field(ctx, "sos", rS, dims, coords)
    aP = field(ctx, "pso", rP, dims, coords)
    eT = expand(T, dT, dims)
    if eos == "linear":
        r = O.rho_linear(np.broadcast_to(eT, shp), S)
    else:
        r = O.rho(eos, eT, S, P)
    exp = -P / (r * gv)
    got = ctx.call(momlevel.inverse_barometer, aT, aS, aP, **kw)
    ctx.same(got, exp, dims, "inverse_barometer", rtol=1e-5 if f4 else 1e-10, coords=coords)
    with np.errstate(invalid="ignore"):
        if gv > 0:
            v = got.transpose(*dims).values
            ctx.check(bool(((v < 0) == (P > 0))[~np.isnan(v) & (P != 0)].all()), "sign of the height")

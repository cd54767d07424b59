"""C35 out of core: what is loaded, and when."""
import dask
import numpy as np
import xarray as xr

from vmon import catalogue as K
from vmon import gen as G
from vmon.props import c23

CASES = {"quick": 8000, "thorough": 80000}
RULE = (
    "every gridded calculation on inputs of which each chunk reports when it is loaded; a call must not load any chunk of a field (only the static "
    "fields it has to inspect), its results stay lazy, and computing one position of a result along a dimension of independent positions loads only "
    "the chunks that hold this position; chunkings random along every chunkable dimension; loads are counted; distinct by feature tuple"
)
ASSUMPTIONS = [
    "spiciness is excluded: it is evaluated at once by the present code",
    "the cell area, the sea floor depth, and the coordinates and mask of a tide gauge extraction have to be inspected by the call",
]

MAY = {
    "steric": {"areacello", "deptho"}, "thermosteric": {"areacello", "deptho"}, "halosteric": {"areacello", "deptho"},
    "extract_tidegauge": {"geolon", "geolat", "wet"},
    "calc_dz": {"deptho"},
}
POOL = [b for b in K.GRIDDED if b not in (K.b_spice, K.b_area)]
NOT_T = {"annual_average", "monthly_average", "annual_cycle", "calc_linear_trend", "linear_detrend", "seasonal_model", "deseason", "broadcast_trend"}


def watch(o, log, where):
    """each chunk reports (where, variable, ranges of positions) when it is loaded"""

    def one(a, name):
        if not hasattr(a.data, "dask"):
            return a
        dims = a.dims

        def f(block, block_info=None):
            loc = block_info[0]["array-location"] if block_info else ()
            log.append((where, name, dict(zip(dims, loc))))
            return block

        return a.copy(data=a.data.map_blocks(f, dtype=a.dtype, meta=np.array([], dtype=a.dtype)))

    if isinstance(o, xr.DataArray):
        return one(o, str(o.name))
    return o.assign({v: one(o[v], str(v)) for v in o.data_vars})


def arrays(r):
    if isinstance(r, tuple):
        for x in r:
            yield from arrays(x)
    elif isinstance(r, xr.Dataset):
        for v in r.data_vars:
            yield r[v]
    elif isinstance(r, xr.DataArray):
        yield r


def case(ctx):
    rng = ctx.rng
    c = K.draw(ctx, POOL, unlabelled=False)
    inverse = {v: k for k, v in c.names.items()}
    ch = c.chunkable if c.chunkable is not None else K.ALL
    log, n = [], [0]
    few = ctx.flip("some in memory", 0.2)
    held = [0]

    def f(o):
        n[0] += 1
        if few and rng.random() < 0.4:
            held[0] += 1
            return o
        return watch(c23.one_chunking(rng, o, c.names, ch, inverse), log, n[0])

    lz = c.mapped(f)
    with dask.config.set(scheduler="synchronous"):
        r = ctx.call(lz)
    may = MAY.get(c.name, set())
    for _, v, loc in log:
        ctx.check(v in may or (c.name == "calc_dz"), f"{c.name} loads {v} while the result is being built", lambda: str(loc))
    ctx.count("chunks loaded by calls", len(log))
    ctx.ncompared += 1
    if not held[0]:
        for a in arrays(r):
            if c.name == "broadcast_trend" and not any(len(o.dims) for o in c.args[:1]):
                continue
            if a.ndim == 0:
                continue  # totals of a reference supplied in memory
            ctx.check(hasattr(a.data, "dask"), f"{c.name}: a field of the result has been loaded", lambda: f"{a.name} {a.dims}")
    # ---- one position of the result
    annual = bool(c.kwargs.get("annual"))
    loc = [x for x in arrays(r) if x.ndim and hasattr(x.data, "dask")]
    if not loc or c.name == "extract_tidegauge" or held[0]:
        return
    a = loc[int(rng.integers(len(loc)))]
    roles = [(d, inverse.get(d)) for d in a.dims if inverse.get(d) in c.free or (inverse.get(d) == "t" and c.name in ("steric", "thermosteric", "halosteric"))]
    roles = [(d, q) for d, q in roles if not (q == "t" and (c.name in NOT_T or annual))]
    if not roles or c.name in ("calc_linear_trend", "linear_detrend"):
        return  # the fit of xarray gathers all positions
    d, q = roles[int(rng.integers(len(roles)))]
    i = int(rng.integers(a.sizes[d]))
    ctx.note(sliced=q)
    del log[:]
    with dask.config.set(scheduler="synchronous"):
        a.isel({d: i}).compute()
    ctx.count("chunks loaded for one position", len(log))
    ref_t = q == "t" and c.name in ("steric", "thermosteric", "halosteric")
    for _, v, at in log:
        if d not in at:
            continue
        lo, hi = at[d]
        ok = lo <= i < hi or (ref_t and lo == 0)
        ctx.check(ok, f"{c.name}: one position along {q} loads other positions", lambda: f"{v} {at} for {i}")

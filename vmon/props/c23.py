"""C23 lazy, chunked inputs."""
import random

import dask
import numpy as np
import xarray as xr
from dask.core import get_dependencies

from vmon import catalogue as K
from vmon import gen as G

CASES = {"quick": 1650, "thorough": 16500}
RULE = (
    "every gridded calculation on inputs chunked at random along every chunkable dimension, computed by the synchronous and threaded "
    "schedulers and by a scheduler that runs ready tasks in random order (orders counted), compared with the in-memory result; chunks that "
    "raise must surface; distinct by feature tuple"
)
ASSUMPTIONS = [
    "vertical differences and staggered differences need the differenced dimension in one chunk (limits of dask and the grid library)",
]


class ChunkFault(RuntimeError):
    pass


def one_chunking(rng, o, names, chunkable, inverse):
    """chunks one object along the allowed roles"""
    if isinstance(o, xr.Dataset):
        spec = {}
        budget = 12
        for d in G.perm(rng, o.dims):
            role = inverse.get(d)
            if role in chunkable and d in o.dims:
                c = G.rand_chunks(rng, o.sizes[d])
                if len(c) > budget:
                    c = (o.sizes[d],)
                budget = max(1, budget // len(c))
                spec[d] = c
            else:
                spec[d] = -1
        return o.chunk(spec)
    if not o.dims or (len(o.dims) == 1 and o.name == o.dims[0]):
        return o
    spec, budget = {}, 12
    for d in G.perm(rng, o.dims):
        if inverse.get(d) in chunkable:
            c = G.rand_chunks(rng, o.sizes[d])
            if len(c) > budget:
                c = (o.sizes[d],)
            budget = max(1, budget // len(c))
            spec[d] = c
        else:
            spec[d] = -1
    return o.chunk(spec)


def chunked(ctx, c):
    inverse = {v: k for k, v in c.names.items()}
    chunkable = c.chunkable if c.chunkable is not None else K.ALL
    part = ctx.pick("which", ["all", "some"], p=[0.7, 0.3])

    def f(o):
        if part == "some" and ctx.rng.random() < 0.4:
            return o
        return one_chunking(ctx.rng, o, c.names, chunkable, inverse)

    return c.mapped(f)


def random_get(seed, log):
    """a dask scheduler that executes ready tasks in random order"""
    rnd = random.Random(seed)

    def get(dsk, keys, **kw):
        dsk = dict(dsk)
        deps = {k: get_dependencies(dsk, k) for k in dsk}
        cache, waiting = {}, {k: set(d) for k, d in deps.items()}
        users = {}
        for k, ds in deps.items():
            for d in ds:
                users.setdefault(d, set()).add(k)
        ready = sorted((k for k in dsk if not waiting[k]), key=str)
        order = []
        while ready:
            k = ready.pop(rnd.randrange(len(ready)))
            order.append(str(k))
            cache[k] = dask.core._execute_task(dsk[k], cache)
            for u in sorted(users.get(k, ()), key=str):
                waiting[u].discard(k)
                if not waiting[u]:
                    ready.append(u)
        log.append(hash(tuple(order)))
        log.append(len(order))

        def pick(ks):
            return [pick(x) for x in ks] if isinstance(ks, list) else cache[ks]

        return pick(keys)

    return get


def compute(r, get=None, scheduler=None):
    kw = {"scheduler": get or scheduler}
    if isinstance(r, tuple):
        return tuple(compute(x, get, scheduler) for x in r)
    if isinstance(r, (xr.DataArray, xr.Dataset)):
        return r.compute(**kw)
    return r


def faulty(rng, o, state):
    """replaces one chunk of one lazy variable by a failure"""

    def hit(a):
        if a.chunks is None or state["left"] <= 0 or rng.random() < 0.4:
            return a
        state["left"] -= 1
        target = tuple(int(rng.integers(n)) for n in a.data.numblocks)
        state["target"] = target

        def boom(block, block_info=None):
            if block_info and block_info[0].get("chunk-location") == target:
                state["hit"] += 1
                raise ChunkFault("injected")
            return block

        return a.copy(data=a.data.map_blocks(boom, dtype=a.dtype, meta=np.array([], dtype=a.dtype)))

    if isinstance(o, xr.DataArray):
        return hit(o)
    o = o.copy()
    for v in list(o.data_vars):
        o[v] = hit(o[v])
    return o


def chain(e):
    while e is not None:
        if isinstance(e, ChunkFault) or "injected" in str(e):
            return True
        e = e.__cause__ or e.__context__
    return False


def permuted(rng, o):
    """the same object with the dimensions of its variables in other orders"""
    if isinstance(o, xr.Dataset):
        return o.assign({v: permuted(rng, o[v]) for v in o.data_vars})
    return o.transpose(*G.perm(rng, o.dims)) if o.ndim > 1 and o.name not in ("geolon", "geolat") else o


def large(ctx):
    """fields of some hundred kB, lazily and in memory"""
    from momlevel import trend as TR
    rng = ctx.rng
    tv = G.obj_time(G.daily_axis(int(rng.choice([1999, 2000])), int(rng.integers(2, 4)), ctx.pick("calendar", ["noleap", "standard", "360_day"]), 12))
    shp = (len(tv), int(rng.integers(3, 9)), int(rng.integers(3, 9)))
    a = xr.DataArray(rng.normal(100, 1, shp), dims=("time", "yh", "xh"), coords={"time": tv}, name="zos")
    kw = {"output_format": ctx.pick("format", ["residuals", "model", "coeff"])}
    c = a.chunk({"time": int(rng.choice([-1, 100, 365])), "yh": int(rng.integers(1, 5)), "xh": int(rng.integers(1, 5))})
    ctx.equal_xr(compute(ctx.call(TR.deseason, c, **kw), scheduler="synchronous"), ctx.call(TR.deseason, a, **kw), "deseason of a large lazy field", rtol=1e-9, atol=1e-9)


def case(ctx):
    rng = ctx.rng
    if ctx.flip("large", 0.015):
        large(ctx)
        return
    base = K.draw(ctx, K.GRIDDED)
    if ctx.flip("permuted", 0.4):
        base = base.mapped(lambda o: permuted(rng, o))
    exp = K.computed(ctx.call(base))
    c = chunked(ctx, base)
    mode = ctx.pick("scheduler", ["sync", "threads", "random", "fault", "mixed"], p=[0.25, 0.15, 0.35, 0.15, 0.1])
    if mode == "fault":
        state = {"left": 1, "hit": 0}
        c = c.mapped(lambda o: faulty(rng, o, state))
        with dask.config.set(scheduler="synchronous"):
            ok, out = ctx.attempt(c)
            if ok:
                ok, out = ctx.attempt(lambda: compute(out, scheduler="synchronous"))
        if state["left"] > 0:
            ctx.ncompared += 1
            return
        ctx.count("faults hit", int(state["hit"] > 0))
        if ok:
            # the failed chunk was not needed: then nothing may differ
            ctx.equal_xr(out, exp, f"{base.name} after a failed chunk", rtol=base.rtol, atol=base.atol)
        else:
            ctx.check(chain(out), f"{base.name}: another failure", lambda: repr(out)[:500])
        return
    if base.name == "deseason" and base.names["t"] in base.args[0].dims:
        # the one calculation that has to join chunks itself: many layouts of the time axis
        a, t = base.args[0], base.names["t"]
        n = a.sizes[t]
        for k in rng.permutation(np.arange(2, min(13, n + 1)))[:5]:
            cut = np.sort(rng.choice(np.arange(1, n), int(k) - 1, replace=False))
            spec = {d: -1 for d in a.dims}
            spec[t] = tuple(int(x) for x in np.diff(np.r_[0, cut, n]))
            lz = ctx.call(base.fn, a.chunk(spec), *base.args[1:], **base.kwargs)
            ctx.equal_xr(compute(lz, scheduler="synchronous"), exp, f"deseason with {k} chunks in time", rtol=base.rtol, atol=base.atol)
    log = []
    with dask.config.set(scheduler="threads" if mode == "threads" else "synchronous", num_workers=4):
        lz = ctx.call(c)
        if mode == "random":
            for k in range(2):
                log.clear()
                got = compute(lz, get=random_get(int(rng.integers(1 << 30)), log))
                if log:
                    ctx.extra.setdefault("distinct task orders", set()).update(log[::2])
                    ctx.count("tasks run", sum(log[1::2]))
                ctx.equal_xr(got, exp, f"{base.name} in random task order", rtol=base.rtol, atol=base.atol)
        elif mode == "mixed":
            # computed twice, in two ways
            a = compute(lz, scheduler="synchronous")
            b = compute(lz, scheduler="threads")
            ctx.equal_xr(a, exp, f"{base.name} lazy", rtol=base.rtol, atol=base.atol)
            ctx.equal_xr(b, exp, f"{base.name} lazy (second scheduler)", rtol=base.rtol, atol=base.atol)
        else:
            got = compute(lz, scheduler="threads" if mode == "threads" else "synchronous")
            ctx.equal_xr(got, exp, f"{base.name} lazy", rtol=base.rtol, atol=base.atol)

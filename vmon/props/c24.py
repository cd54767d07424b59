"""C24 dimension order, label order and names."""
import numpy as np
import xarray as xr

from vmon import catalogue as K
from vmon import gen as G
from vmon.core import Skip
from vmon.props import c23

CASES = {"quick": 3500, "thorough": 36000}
RULE = (
    "every gridded calculation against itself with the dimensions of the inputs permuted, the free positions (horizontal, time, level where "
    "order has no meaning) reversed, rolled or shuffled in all inputs together, and dimensions/coordinates renamed with the documented options; "
    "results compared label by label; distinct by feature tuple"
)
ASSUMPTIONS = [
    "vertical order, staggered axes and the order of time for fits anchored at the first step carry meaning and are not shuffled",
    "functions documented for a fixed dimension order (adjust_negative_n2, calc_wave_speed) are not permuted",
]

POOL = ["lev", "depth", "olevel", "deptht", "st_ocean", "T", "ocean_time", "TIME", "nav_y", "nav_x", "i", "j", "lat", "lon", "yt_ocean",
        "xt_ocean", "rlat", "n", "a b", "Time", "year0", "mon", "year", "day", "season", "variable", "dim_0", "index", "mask", "name", "t", "z", "y", "x", "day_", "levels", "xi_rho", "eta_rho", "northing"]

RESERVED = {"year", "day", "season"}


def names(o):
    return set(map(str, o.dims)) | set(map(str, o.coords))


def permuted(ctx, c):
    rng = ctx.rng
    shared = {}

    def tr(a):
        if a.ndim < 2:
            return a
        return a.transpose(*G.perm(rng, a.dims))

    def f(o):
        if isinstance(o, xr.Dataset):
            return o.assign({v: tr(o[v]) for v in o.data_vars})
        if c.name == "extract_tidegauge" and o.ndim == 2 and o.name in ("geolat", "geolon"):
            if "p" not in shared:
                shared["p"] = G.perm(rng, o.dims)
            return o.transpose(*shared["p"])
        return tr(o)

    return c.mapped(f)


def shuffled(ctx, c):
    rng = ctx.rng
    roles = [r for r in sorted(c.free) if r in c.names]
    if not roles:
        return None
    k = int(rng.integers(1, len(roles) + 1))
    roles = [roles[i] for i in rng.permutation(len(roles))[:k]]
    dims = [c.names[r] for r in roles]
    how = ctx.pick("how", ["reverse", "shuffle", "roll"])
    perms = {}
    used = set()

    def f(o):
        sel = {}
        for d in dims:
            if d in o.dims:
                n = o.sizes[d]
                if (d, n) not in perms:
                    perms[d, n] = np.arange(n)[::-1] if how == "reverse" else rng.permutation(n) if how == "shuffle" else np.roll(np.arange(n), int(rng.integers(n)))
                sel[d] = perms[d, n]
                if n > 1:
                    used.add(d)
        return o.isel(sel) if sel else o

    c2 = c.mapped(f)
    if "time_index" in c.kwargs and c.names.get("t") in dims:
        return None
    ctx.note(moved=",".join(sorted(r for r in roles if c.names[r] in used)))
    return c2


def disagreeing(ctx, c):
    """one of several inputs has its positions in another order, with its labels"""
    rng = ctx.rng
    seen = []
    c.mapped(lambda o: (seen.append(o), o)[1])
    dims = {c.names[r] for r in c.free if r in c.names}
    can = [i for i, o in enumerate(seen) if any(d in o.dims and o.sizes[d] > 1 and d in o.coords for d in dims)]
    if len(seen) < 2 or not can:
        return None
    who = can[int(rng.integers(len(can)))]
    k = [-1]

    def f(o):
        k[0] += 1
        if k[0] != who:
            return o
        ds = [d for d in o.dims if d in dims and o.sizes[d] > 1 and d in o.coords]
        d = ds[int(rng.integers(len(ds)))]
        return o.isel({d: np.arange(o.sizes[d])[::-1] if rng.random() < 0.5 else rng.permutation(o.sizes[d])})

    return c.mapped(f)


def align(got, exp, what, ctx):
    """reorders `got` by the labels of `exp`"""
    if isinstance(exp, tuple):
        ctx.check(isinstance(got, tuple) and len(got) == len(exp), f"{what}: kinds differ")
        return tuple(align(g, e, what, ctx) for g, e in zip(got, exp))
    if isinstance(exp, (xr.DataArray, xr.Dataset)):
        ctx.check(type(got) is type(exp), f"{what}: kinds differ")
        for d in exp.dims:
            if d not in exp.coords or d not in got.dims or d not in got.coords:
                continue
            pos = {l: i for i, l in enumerate(got[d].values.tolist())}
            want = exp[d].values.tolist()
            ctx.check(set(pos) == set(want) and len(pos) == len(want), f"{what}: labels of {d}", lambda: f"{sorted(pos, key=str)} {want}")
            got = got.isel({d: [pos[l] for l in want]})
    return got


def renamed(ctx, c):
    rng = ctx.rng
    roles = sorted(c.names)
    if rng.random() < 0.3:
        roles = [roles[int(rng.integers(len(roles)))]]
    pool = list(POOL)
    if ctx.flip("swap", 0.12) and len(c.names) > 3:
        pool = [c.names[r] for r in c.names]          # names of other roles
        roles = sorted(c.names)
    p = rng.permutation(len(pool))
    new = dict(c.names)
    for i, r in enumerate(roles):
        new[r] = pool[int(p[i])]
    # a reference dataset may not contain a coordinate called time, whatever it stands for
    for r in new:
        if new[r].lower() == "time" and r != "t":
            raise Skip()
    m = {c.names[r]: new[r] for r in c.names if c.names[r] != new[r]}

    def f(o):
        k = {a: b for a, b in m.items() if a in names(o)}
        nm = o.name if isinstance(o, xr.DataArray) else None
        o = o.rename(k) if k else o
        return o.rename(k[nm]) if nm in k else o

    c2 = c.mapped(f, c.rename(new))
    back = {b: a for a, b in m.items()}
    return c2, back


def rename_back(r, back):
    if isinstance(r, tuple):
        return tuple(rename_back(x, back) for x in r)
    if isinstance(r, (xr.DataArray, xr.Dataset)):
        k = {a: b for a, b in back.items() if a in names(r)}
        return r.rename(k) if k else r
    return r


def case(ctx):
    c = K.draw(ctx, K.GRIDDED, unlabelled=False)
    if c.rename is None:
        return
    exp = K.computed(ctx.call(c))
    kind = ctx.pick("transform", ["permute", "shuffle", "rename", "all", "disagree"], p=[0.27, 0.23, 0.27, 0.13, 0.1])
    c2, back = c, {}
    if kind == "disagree":
        c2 = disagreeing(ctx, c)
        if c2 is None:
            ctx.ncompared += 1
            return
        ok, got = ctx.attempt(c2)
        if ok:
            ok, got = ctx.attempt(lambda: K.computed(got))
        ctx.note(accepted=ok)
        ctx.count("disagreeing label orders " + ("accepted" if ok else "rejected"))
        if ok:
            got = align(got, exp, f"{c.name} with one input in another order", ctx)
            ctx.equal_xr(got, exp, f"{c.name} with one input in another order", rtol=c.rtol, atol=c.atol, order=False)
        else:
            ctx.ncompared += 1
        return
    if kind in ("permute", "all") and not c.fixed_order:
        c2 = permuted(ctx, c2)
    if kind in ("shuffle", "all"):
        s = shuffled(ctx, c2)
        if s is not None:
            c2 = s
    if ctx.flip("chunked", 0.2):
        c2 = c23.chunked(ctx, c2)
    if kind in ("rename", "all"):
        c2, back = renamed(ctx, c2)
    if RESERVED & set(back):
        # names the array library itself gives to groups of times: refused or handled, never wrong
        ok, got = ctx.attempt(lambda: K.computed(c2()))
        ctx.count("reserved names " + ("accepted" if ok else "rejected"))
        if not ok:
            ctx.ncompared += 1
            return
    else:
        got = K.computed(ctx.call(c2))
    got = rename_back(got, back)
    what = f"{c.name} after {kind}"
    got = align(got, exp, what, ctx)
    ctx.equal_xr(got, exp, what, rtol=c.rtol, atol=c.atol, order=False)

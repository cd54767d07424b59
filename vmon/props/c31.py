"""C31 mass, volume and mean density: budgets."""
import numpy as np
import xarray as xr

from vmon import gen as G
from vmon import oracle as O

CASES = {"quick": 5000, "thorough": 50000}
RULE = (
    "random densities and volumes over any dimensions (also different ones, broadcast against each other), any order, f8/f4, missing, zero and "
    "negative-free volumes, lazy, any name of the time dimension; totals compared with exactly rounded sums, and with the sum over a random "
    "partition of the domain; states run through the reference state are checked for the same budget; distinct by feature tuple"
)
ASSUMPTIONS = ["inputs share their labels"]

DIMS = ("time", "z_l", "yh", "xh", "member")


def exact(a, axes):
    """exactly rounded sums over axes, missing values contribute nothing"""
    import math
    a = np.where(np.isnan(a), 0.0, a)
    keep = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, keep + list(axes)).reshape(tuple(a.shape[i] for i in keep) + (-1,))
    out = np.empty(b.shape[:-1])
    for idx in np.ndindex(*b.shape[:-1]):
        out[idx] = math.fsum(b[idx])
    return out


def case(ctx):
    from momlevel import derived as D
    rng = ctx.rng
    tn = ctx.pick("tname", ["time", "Time", "t", "month"], p=[0.6, 0.15, 0.15, 0.1])
    names = {"time": tn}
    if ctx.flip("other names", 0.3):
        pool = [n for n in ("lev", "lat", "lon", "z_l", "yh", "xh", "ens", "basin", "time", "Time", "x", "y", "z", "month") if n != tn]
        for d, n in zip(DIMS[1:], G.perm(rng, pool)):
            names[d] = n
    nd = int(rng.integers(1, 6))
    some = set(G.perm(rng, DIMS)[:nd])
    if some == {"time"}:
        some.add("z_l")
    use = [d for d in DIMS if d in some]
    sizes = {d: int(rng.integers(1, 6)) for d in use}
    if ctx.flip("many cells", 0.03):
        sizes[use[-1]] = int(rng.integers(300, 3000))
    elif ctx.flip("some cells", 0.15):
        sizes[use[int(rng.integers(len(use)))]] = int(rng.integers(10, 90))
    lab = {d: G.labels(rng, sizes[d]) for d in use if rng.random() < 0.7}
    split = ctx.pick("dims", ["same", "volume without time", "different"], p=[0.35, 0.35, 0.3])
    dr = list(use)
    dv = list(use)
    if split == "volume without time":
        dv = [d for d in use if d != "time"]
    elif split == "different":
        dr = [d for d in use if rng.random() < 0.7]
        dv = [d for d in use if d not in dr or rng.random() < 0.6]
    if not set(dr + dv) - {"time"}:
        dr = [d for d in use]
    full = [d for d in use if d in dr or d in dv]

    def make(name, kind, dims):
        shp = tuple(sizes[d] for d in dims)
        if kind == "rho":
            a = rng.normal(1030, 5, shp)
            if rng.random() < 0.15:
                a = rng.normal(0, 5, shp)  # anomalies
        else:
            a = rng.uniform(0.3, 3, shp) * float(rng.choice([1e12, 1.0, 1e-3, 1e17, 1e-9], p=[0.4, 0.2, 0.1, 0.2, 0.1]))
            if rng.random() < 0.3:
                a = np.where(rng.random(shp) < 0.3, 0.0, a)
        m = ctx.pick("missing_" + kind, ["none", "some", "most", "all"], p=[0.5, 0.35, 0.1, 0.05])
        if m != "none":
            a = np.where(rng.random(shp) < {"some": 0.2, "most": 0.8, "all": 1.1}[m], np.nan, a)
        a = np.asarray(a)
        raw = a.astype("f4") if ctx.flip("f4_" + kind, 0.12) else a
        nm = [names.get(d, d) for d in dims]
        da = xr.DataArray(raw, dims=nm, coords={names.get(d, d): lab[d] for d in dims if d in lab}, name=name, attrs={"units": "x"})
        if len(nm) > 1 and ctx.flip("perm_" + kind, 0.5):
            da = da.transpose(*G.perm(rng, nm))
        if nm and ctx.flip("lazy_" + kind, 0.12):
            da = G.chunk(rng, da)
        return da, raw.astype(float)

    rho, R = make("rho", "rho", dr)
    vol, V = make("volcello", "vol", dv)
    exp = lambda a, dims: a.reshape([sizes[d] if d in dims else 1 for d in full])  # noqa: E731
    prod = np.broadcast_to(exp(R, dr) * exp(V, dv), [sizes[d] for d in full])
    f4 = "f4" in str(rho.dtype) + str(vol.dtype) or rho.dtype == np.float32 or vol.dtype == np.float32
    axes = [i for i, d in enumerate(full) if d != "time"]
    want = exact(prod, axes)
    mag = exact(np.abs(prod), axes)
    kw = {} if tn == "time" and rng.random() < 0.7 else {"tcoord": tn}
    ot = (tn,) if "time" in full else ()
    tol = (2e-4 if f4 else 1e-12) * mag + 1e-300
    cc = {tn: lab["time"]} if "time" in full and "time" in lab else None
    m = ctx.call(D.calc_masso, rho, vol, **kw)
    ctx.check(tuple(m.dims) == ot, "the mass depends on time only", lambda: f"{m.dims} expected {ot}")
    ctx.same(m, want, ot, "mass", rtol=0, atol=tol, coords=cc)
    # ---- pieces of the domain add up
    cut = [d for d in full if d != "time" and sizes[d] > 1]
    if cut and ctx.flip("pieces", 0.4):
        d = cut[int(rng.integers(len(cut)))]
        k = int(rng.integers(1, sizes[d]))
        parts = []
        for sl in (slice(0, k), slice(k, None)):
            parts.append(ctx.call(D.calc_masso, *(a.isel({names.get(d, d): sl}) if names.get(d, d) in a.dims else a for a in (rho, vol)), **kw))
        s = parts[0].transpose(*ot).values.astype(float) + parts[1].transpose(*ot).values.astype(float)
        ctx.close(s, want, "mass of two halves", rtol=0, atol=2 * tol)
    # ---- one time level on its own
    if ot and ctx.flip("one time", 0.3):
        i = int(rng.integers(sizes["time"]))
        one = ctx.call(D.calc_masso, *(a.isel({tn: i}) if tn in a.dims else a for a in (rho, vol)), **kw)
        ctx.check(one.ndim == 0, "mass of one time level is a scalar")
        ctx.close(np.ravel(one.values), np.ravel(want[i]), "mass of one time level", rtol=0, atol=np.ravel(tol)[i] if np.ndim(tol) else tol)
    # ---- volume: three dimensions, whatever they are
    if len(dv) == 3:
        v = ctx.call(D.calc_volo, vol)
        ctx.check(v.ndim == 0, "volume is a scalar")
        ev = exact(V, [0, 1, 2])
        ctx.close(np.ravel(v.values), np.ravel(ev), "volume", rtol=1e-5 if f4 else 1e-12)
        if ev > 0 and "time" not in dv:
            g = ctx.call(D.calc_rhoga, m, v)
            ctx.check(tuple(g.dims) == ot, "mean density depends on time only")
            ctx.same(g, want / ev, ot, "mean density", rtol=1e-4 if f4 else 1e-11, atol=np.max(tol) / ev)
            if not f4 and not np.isnan(R).any() and split != "different" and (R > 0).all():
                gv = np.ravel(g.values)
                ctx.check(bool((gv >= R.min() * (1 - 1e-9)).all() and (gv <= R.max() * (1 + 1e-9)).all()) or np.isnan(V).any(), "mean density outside the range of the densities", lambda: f"{gv} {R.min()} {R.max()}")
    else:
        ctx.rejects(D.calc_volo, vol)

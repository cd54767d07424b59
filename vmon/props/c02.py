"""C02 gridded density, expansion, contraction, potential density."""
import numpy as np
import xarray as xr

from vmon import gen as G
from vmon import oracle as O

CASES = {"quick": 5200, "thorough": 52000}
RULE = (
    "random labelled fields over subsets of (t, z, y, x) in random dimension orders, f8/f4/int, eager/lazy, with missing "
    "values; pressure as scalar, profile or field; names of the equation of state in random letter case; reference levels "
    "including the limits and rejected ones; results compared per label with an independent formula; distinct by feature tuple"
)
ASSUMPTIONS = ["inputs share their labels; when they list them in different orders the call is rejected or matches them by label"]

DIMS = ("time", "z_l", "yh", "xh")


def field(ctx, name, arr, dims, coords, dt=True, lazy=None):
    rng = ctx.rng
    da = xr.DataArray(arr, dims=dims, coords={d: coords[d] for d in dims if d in coords}, name=name)
    if len(dims) > 1 and ctx.flip("perm_" + name, 0.5):
        da = da.transpose(*G.perm(rng, dims))
    if lazy if lazy is not None else ctx.flip("lazy_" + name, 0.2):
        da = G.chunk(rng, da)
    if rng.random() < 0.5:
        da.attrs = {"units": "x", "long_name": "y"}
    return da


def subset(ctx, name, full, keep=0.6):
    if ctx.rng.random() < keep:
        return full
    return tuple(d for d in full if ctx.rng.random() < 0.6)


def expand(arr, dims, full):
    """to an array that broadcasts in the order `full`"""
    a = np.asarray(arr)
    src = [d for d in full if d in dims]
    a = np.transpose(a, [dims.index(d) for d in src]) if a.ndim else a
    return a.reshape([a.shape[src.index(d)] if d in src else 1 for d in full])


def case(ctx):
    from momlevel import derived as D
    rng = ctx.rng
    nd = int(rng.integers(1, 5))
    use = set(G.perm(rng, DIMS)[:nd])
    full = tuple(d for d in DIMS if d in use)
    sizes = {d: int(rng.integers(1, 6)) for d in full}
    if rng.random() < 0.05:
        sizes[full[0]] = int(rng.integers(30, 90))
    elif rng.random() < 0.05:
        # one long dimension, any of them
        d = full[int(rng.integers(len(full)))]
        sizes = {k: min(v, 2) for k, v in sizes.items()}
        sizes[d] = G.long_size(rng)
        ctx.note(long=d)
    coords = {d: G.labels(rng, sizes[d]) for d in full if rng.random() < 0.8}
    dT = subset(ctx, "T", full)
    dS = subset(ctx, "S", full)
    if not dT and not dS:
        dT = full
    name = ctx.pick("eos", ["Wright", "wright", "WRIGHT", "wRiGhT", "linear", "Linear", "LINEAR"],
                    p=[0.3, 0.15, 0.1, 0.1, 0.15, 0.1, 0.1])
    eos = name.lower()
    pk = ctx.pick("pres", ["scalar", "profile", "field", "int"], p=[0.25, 0.35, 0.3, 0.1])
    base = tuple(d for d in full if d in dT or d in dS)
    if pk in ("scalar", "int"):
        dP = ()
    elif pk == "profile":
        dP = ("z_l",) if "z_l" in base else (base[0],)
    else:
        dP = tuple(d for d in base if rng.random() < 0.7)
    out = tuple(d for d in full if d in dT or d in dS or d in dP)
    ctx.note(dT=len(dT), dS=len(dS), dP=len(dP))
    nan = ctx.pick("nan", [0.0, 0.2])
    T = G.sprinkle_nan(rng, G.temperature(ctx, tuple(sizes[d] for d in dT)), nan)
    S = G.sprinkle_nan(rng, G.salinity(ctx, tuple(sizes[d] for d in dS)), nan)
    P = np.array(G.pressure(ctx, tuple(sizes[d] for d in dP)))
    if eos == "wright" and dP:
        P = G.sprinkle_nan(rng, P, nan / 4)
    rT, T = G.cast(ctx, "dtT", T)
    rS, S = G.cast(ctx, "dtS", S)
    rP = P
    if dP and rng.random() < 0.12:
        rP, P = G.cast(ctx, "dtP", P)
    f4 = any(np.asarray(a).dtype == np.float32 for a in (rT, rS, rP))
    aT = field(ctx, "thetao", rT, dT, coords)
    aS = field(ctx, "so", rS, dS, coords)
    if pk == "scalar":
        aP = float(P)
    elif pk == "int":
        aP = int(P)
        P = np.float64(aP)
    else:
        aP = field(ctx, "pres", rP, dP, coords)
    eT, eS, eP = expand(T, dT, out), expand(S, dS, out), expand(P, dP, out)
    shp = tuple(sizes[d] for d in out)
    full_ = lambda a: np.broadcast_to(a, shp)
    rt = 6e-6 if f4 else 1e-10
    cc = {d: coords[d] for d in out if d in coords}

    movable = [(i, d) for i, (ds, a) in enumerate(((dT, aT), (dS, aS), (dP, aP))) if isinstance(a, xr.DataArray)
               for d in ds if d in coords and sizes[d] > 1 and sum(d in q for q in (dT, dS, dP)) > 1]
    if movable and ctx.flip("disagree", 0.08):
        # one input lists its labels in another order: matched by label, or rejected
        i, d = movable[int(rng.integers(len(movable)))]
        arrs = [aT, aS, aP]
        if rng.random() < 0.35:
            # one input lacks a label, or has another one: rejected, or nothing is cut off silently
            if rng.random() < 0.5:
                arrs[i] = arrs[i].isel({d: slice(1, None) if rng.random() < 0.5 else slice(0, -1)})
            else:
                lab = np.array(coords[d]).copy()
                lab[-1] = lab.max() + 7
                arrs[i] = arrs[i].assign_coords({d: lab})
            ok, got = ctx.attempt([D.calc_rho, D.calc_alpha, D.calc_beta][int(rng.integers(3))], *arrs, eos=name)
            ctx.count("partly different labels " + ("accepted" if ok else "rejected"))
            ctx.check(not ok or (d in got.coords and set(np.asarray(coords[d]).tolist()) <= set(got[d].values.tolist())), "labels were cut off silently", lambda: f"{d}: {got.sizes}")
            return
        arrs[i] = arrs[i].isel({d: rng.permutation(sizes[d]) if rng.random() < 0.6 else np.arange(sizes[d])[::-1]})
        fn, ex, tol = [(D.calc_rho, O.rho, (rt, 0.0)), (D.calc_alpha, O.alpha, (1e-4, 2e-7) if f4 else (1e-10, 2e-14)), (D.calc_beta, O.beta, (1e-4, 2e-6) if f4 else (1e-10, 2e-13))][int(rng.integers(3))]
        ok, got = ctx.attempt(fn, *arrs, eos=name)
        ctx.count("disagreeing label orders " + ("accepted" if ok else "rejected"))
        if ok:
            pos = {l: k for k, l in enumerate(got[d].values.tolist())}
            got = got.isel({d: [pos[l] for l in np.asarray(coords[d]).tolist()]})
            ctx.same(got, full_(ex(eos, eT, eS, eP)), out, fn.__name__ + " with labels in another order", rtol=tol[0], atol=tol[1], coords=cc)
        else:
            ctx.ncompared += 1
        return

    which = ctx.pick("fn", ["rho", "alpha", "beta", "pdens", "reject"], p=[0.3, 0.2, 0.2, 0.24, 0.06])
    if which == "rho":
        got = ctx.call(D.calc_rho, aT, aS, aP, eos=name) if rng.random() < 0.8 or eos != "wright" else ctx.call(D.calc_rho, aT, aS, aP)
        ctx.same(got, full_(O.rho(eos, eT, eS, eP)), out, "calc_rho", rtol=rt, coords=cc)
    elif which == "alpha":
        got = ctx.call(D.calc_alpha, aT, aS, aP, eos=name) if rng.random() < 0.8 or eos != "wright" else ctx.call(D.calc_alpha, aT, aS, aP)
        e = O.alpha(eos, eT, eS, eP)
        ctx.same(got, full_(e), out, "calc_alpha", rtol=1e-4 if f4 else 1e-10, atol=2e-7 if f4 else 2e-14, coords=cc)
    elif which == "beta":
        got = ctx.call(D.calc_beta, aT, aS, aP, eos=name) if rng.random() < 0.8 or eos != "wright" else ctx.call(D.calc_beta, aT, aS, aP)
        e = O.beta(eos, eT, eS, eP)
        ctx.same(got, full_(e), out, "calc_beta", rtol=1e-4 if f4 else 1e-10, atol=2e-6 if f4 else 2e-13, coords=cc)
    elif which == "pdens":
        level = ctx.pick("level", [0.0, 7500.0, 1, 2000.0, 4000, "random", "default"])
        kw = {"eos": name}
        if str(name).lower() == "wright" and rng.random() < 0.5:
            kw = {}  # the documented default
        lv = 0.0
        if level == "random":
            lv = float(rng.uniform(0, 7500))
            kw["level"] = lv
        elif level != "default":
            lv = level
            kw["level"] = level
        pa = ctx.pick("patm", ["default", "zero", "scalar", "field"])
        patm = 101325.0
        op = tuple(d for d in out if d in dT or d in dS)
        if pa == "zero":
            patm = 0.0
            kw["patm"] = 0.0
        elif pa == "scalar":
            patm = float(rng.uniform(9e4, 2e6))
            kw["patm"] = patm
        elif pa == "field":
            dA = tuple(d for d in op if rng.random() < 0.6) or (op[0],)
            a = rng.uniform(9e4, 1.1e5, tuple(sizes[d] for d in dA))
            kw["patm"] = field(ctx, "patm", a, dA, coords, lazy=False)
            patm = expand(a, dA, op)
        got = ctx.call(D.calc_pdens, aT, aS, **kw)
        e = O.rho(eos, expand(T, dT, op), expand(S, dS, op), lv * 1.0e4 + patm)
        ctx.same(got, np.broadcast_to(e, tuple(sizes[d] for d in op)), op, "calc_pdens", rtol=rt, coords=cc)
        # positional use
        if rng.random() < 0.3 and pa == "scalar":
            got = ctx.call(D.calc_pdens, aT, aS, lv, patm, name)
            ctx.same(got, np.broadcast_to(e, tuple(sizes[d] for d in op)), op, "calc_pdens positional", rtol=rt)
    else:
        bad = ctx.pick("bad", ["teos", "Wrigh", "wright97", "", "level_low", "level_high", "nonstr", " wright", "Linear ", "_wright_", "wright.density", "linear-1", "wright\n", "eos.wright", "wright_97"])
        if bad in ("level_low", "level_high"):
            lv = -float(rng.choice([1e-6, 1e-3, 1.0, 100.0])) if bad == "level_low" else 7500.0 + float(rng.choice([1e-6, 1e-3, 1.0, 500.0]))
            ctx.rejects(D.calc_pdens, aT, aS, level=lv)
            ctx.check(True, "rejected")
        else:
            b = 7 if bad == "nonstr" else bad
            for fn in (D.calc_rho, D.calc_alpha, D.calc_beta):
                ctx.rejects(fn, aT, aS, aP, eos=b)
            ctx.rejects(D.calc_pdens, aT, aS, eos=b)
            ctx.check(True, "rejected")

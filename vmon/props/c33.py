"""C33 algebraic laws: superposition, scaling, projection and composition."""
import numpy as np
import xarray as xr

from vmon import catalogue as K
from vmon import gen as G
from vmon import oracle as O
from vmon import trendlib as L

CASES = {"quick": 8000, "thorough": 100000}
RULE = (
    "pairs and chains of calls on related inputs (sum and multiple of two random records, records plus a constant or a straight line, the result "
    "of a call fed back into it, another reference, gravity, radius or layer thickness); the results must be related as the operations are; "
    "records over all calendars, lengths, dimensions, orders, names, missing patterns, array or dataset, lazy or not; distinct by feature tuple"
)
ASSUMPTIONS = ["comparisons allow for the rounding of the arithmetic, scaled by the size of the data"]

OPS = ["annual_average", "monthly_average", "annual_cycle", "calc_linear_trend", "linear_detrend", "seasonal_model", "deseason"]


def data(ctx, tn, tv, full=False, od=None):
    """two records with the same labels and the same missing cells"""
    rng = ctx.rng
    nt = len(tv)
    od = od if od is not None else [(), ("xh",), ("yh", "xh"), ("member", "yh")][int(rng.integers(4))]
    shp = (nt,) + tuple(int(rng.integers(1, 5)) for _ in od)
    if od and nt < 100 and ctx.flip("long", 0.03):
        shp = (nt, G.long_size(rng)) + shp[2:]
    mean, std = float(rng.choice([0.0, 5.0, -300.0])), float(rng.choice([1.0, 1e-3, 40.0]))
    a = rng.normal(mean, std, shp)
    b = rng.normal(float(rng.choice([0.0, 2.0])), std, shp)
    if ctx.flip("whole", 0.1):
        a, b = np.round(a * 10), np.round(b * 10)
    m = "none" if full else ctx.pick("missing", ["none", "some", "columns", "early"], p=[0.4, 0.25, 0.2, 0.15])
    if m == "some":
        k = rng.random(shp) < 0.15
    elif m == "columns":
        k = np.broadcast_to(rng.random(shp[1:]) < 0.4, shp)
    elif m == "early":
        k = np.broadcast_to(np.arange(nt).reshape((-1,) + (1,) * len(od)) < nt // 4, shp)
    else:
        k = np.zeros(shp, bool)
    a, b = np.where(k, np.nan, a), np.where(k, np.nan, b)
    cs = {tn: tv, **{d: G.labels(rng, n) for d, n in zip(od, shp[1:]) if rng.random() < 0.7}}
    A = xr.DataArray(a, dims=(tn,) + od, coords=cs, name="zos", attrs={"units": "m"})
    B = A.copy(data=b)
    if od and ctx.flip("perm", 0.3):
        p = G.perm(rng, A.dims)
        A, B = A.transpose(*p), B.transpose(*p)
    if ctx.flip("lazy", 0.15):
        A, B = G.chunk(rng, A), G.chunk(rng, B)
    return A, B


def series_axis(ctx, op):
    rng = ctx.rng
    cal = ctx.pick("calendar", O.CALENDARS)
    y0 = int(rng.choice([1999, 2000, 1896, 1600]))
    if op in ("monthly_average", "deseason") or op == "seasonal_model" and rng.random() < 0.4:
        return G.obj_time(G.daily_axis(y0, int(rng.integers(1, 3)), cal, int(rng.choice([0, 12])))), cal
    n = int(rng.integers(1, 5))
    return G.obj_time(G.monthly_axis(rng, y0, n, cal, str(rng.choice(["mid", "any"])))), cal


def ap(ctx, op, x, tn, **kw):
    from momlevel import trend as TR
    from momlevel import util as U
    fn = getattr(TR, op, None) or getattr(U, op)
    key = {"calc_linear_trend": "dim", "linear_detrend": "dim", "deseason": "tdim"}.get(op, "tcoord")
    if tn != "time" or ctx.rng.random() < 0.3:
        kw[key] = tn
    return ctx.call(fn, x, **kw)


def lift(r, f):
    """a result of any form as a dict of arrays"""
    if isinstance(r, xr.Dataset):
        return {k: f(r[k]) for k in r.data_vars}
    if isinstance(r, tuple):
        return {str(i): f(v) for i, v in enumerate(r)}
    return {"": f(r)}


def mix(r, s, f):
    a, b = lift(r, lambda v: v), lift(s, lambda v: v)
    return {k: f(a[k], b[k]) for k in a}


def agree(ctx, got, want, what, atol):
    g = lift(got, lambda v: v) if not isinstance(got, dict) else got
    ctx.check(set(g) == set(want), what + ": variables", lambda: f"{set(g)} {set(want)}")
    for k in want:
        w = want[k]
        ctx.check(set(g[k].dims) == set(w.dims), what + ": dimensions", lambda: f"{g[k].dims} {w.dims}")
        ctx.close(g[k].transpose(*w.dims).values, w.values, what, rtol=1e-7, atol=atol[k] if isinstance(atol, dict) else atol)


def time_laws(ctx):
    from momlevel import trend as TR
    rng = ctx.rng
    op = ctx.pick("op", OPS)
    tn = ctx.pick("tname", ["time", "t", "Time"], p=[0.6, 0.2, 0.2])
    tv, cal = series_axis(ctx, op)
    fit = op in ("seasonal_model", "deseason")
    X, Y = data(ctx, tn, tv, full=fit)
    kw = {}
    if op == "annual_cycle":
        kw["func"] = ctx.pick("func", ["mean", "min", "max", "std"])
    elif op == "linear_detrend":
        kw["mode"] = ctx.pick("mode", ["remove", "correct"])
    elif op == "seasonal_model":
        kw["return_model"] = True
    elif op == "deseason":
        kw["output_format"] = ctx.pick("format", ["residuals", "model", "coeff"])
    elif op == "calc_linear_trend":
        kw["time_units"] = ctx.pick("units", L.UNITS)
    func = kw.get("func", "mean")
    a, b = float(rng.uniform(-3, 3)), float(rng.uniform(-3, 3))
    c = float(rng.choice([1.0, -7.5, 250.0]))
    size = float(np.nanmax(np.abs(np.concatenate([np.ravel(X.values), np.ravel(Y.values), [1e-12]])))) + abs(c)
    x = np.array([L.ns_since_1970(t) for t in tv])
    span = max(float(x[-1] - x[0]), 1.0)
    far = 1 + float(np.abs(x).max()) / span  # how far from the record the intercept lies

    def tol(k=1.0, size=size):
        t = 1e-9 * size * k * (far if op in ("calc_linear_trend", "linear_detrend") else 1)
        if op == "calc_linear_trend":
            u = O.unit_ns(kw["time_units"])
            return {"zos_slope": 1e-8 * size * k * u / span * far, "zos_intercept": t * far}
        return t * (30 if fit else 1)

    rx = ap(ctx, op, X, tn, **kw)
    law = ctx.pick("law", ["linear", "shift", "scale", "again", "dataset", "bounds"])
    if op == "annual_cycle" and func != "mean" and law == "linear":
        law = "scale"
    if law == "linear":
        ry = ap(ctx, op, Y, tn, **kw)
        rz = ap(ctx, op, (a * X + b * Y).assign_attrs(X.attrs).rename("zos"), tn, **kw)
        agree(ctx, rz, mix(rx, ry, lambda p, q: a * p + b * q), "superposition", tol(10))
    elif law == "scale":
        k = ctx.pick("factor", [-1.0, 2.0, -0.5, 0.0, 1000.0, 2.0**-55, -(2.0**55)], p=[0.1, 0.1, 0.1, 0.1, 0.1, 0.3, 0.2])
        own = float(np.nanmax(np.abs(np.append(np.ravel(X.values), 0.0)))) or 1.0  # tolerances shrink with the data
        rz = ap(ctx, op, (k * X).assign_attrs(X.attrs).rename("zos"), tn, **kw)
        if func in ("min", "max") and k < 0:
            rx = ap(ctx, op, X, tn, **{**kw, "func": {"min": "max", "max": "min"}[func]})
        agree(ctx, rz, lift(rx, lambda p: (abs(k) if func == "std" else k) * p), "scaling", tol(abs(k) or 1.0, own) if isinstance(tol(), dict) else tol(abs(k) or 1.0, own) * (30 if func == "std" else 1))
    elif law == "shift":
        rz = ap(ctx, op, (X + c).assign_attrs(X.attrs).rename("zos"), tn, **kw)
        if op in ("annual_average", "monthly_average") or func in ("min", "max") or (op == "annual_cycle" and func == "mean"):
            want = lift(rx, lambda p: p + c)
        elif op == "annual_cycle" or kw.get("mode") == "remove" or kw.get("output_format") == "residuals":
            want = lift(rx, lambda p: p)
        elif kw.get("mode") == "correct" or kw.get("output_format") == "model":
            want = lift(rx, lambda p: p + c)
        elif op == "seasonal_model":
            want = {"0": rx[0] + c, "1": rx[1]}
        elif op == "deseason":
            add = xr.DataArray([c, 0, 0, 0, 0, 0], dims=("coeff",), coords={"coeff": ["constant", "trend", "sin_annual", "cos_annual", "sin_semiannual", "cos_semiannual"]})
            want = {"": (rx + add).transpose(*rx.dims)}
        else:
            want = {"zos_slope": rx["zos_slope"], "zos_intercept": rx["zos_intercept"] + c}
        t = tol(10)
        agree(ctx, rz, want, "adding a constant", t if isinstance(t, dict) else t * (30 if func == "std" else 1))
    elif law == "dataset" and op in OPS[:3] + ["linear_detrend"]:
        ds = xr.Dataset({"q": Y.rename("q"), "zos": X})
        if rng.random() < 0.4:
            ds["p"] = (X * 0 + 1).isel({d: 0 for d in X.dims if d != tn}, drop=True)
        rd = ap(ctx, op, ds, tn, **kw)
        agree(ctx, rd["zos"], lift(rx, lambda p: p), "a variable of a dataset", 0.0)
        agree(ctx, rd["q"], lift(ap(ctx, op, Y.rename("q"), tn, **kw), lambda p: p), "a variable of a dataset", 0.0)
    elif law == "again":
        if op == "linear_detrend":
            if kw["mode"] == "remove":
                agree(ctx, ap(ctx, op, rx, tn, **kw), lift(rx, lambda p: p), "detrending twice", tol(10))
            tr = ap(ctx, "calc_linear_trend", rx, tn)
            ctx.close(tr["zos_slope"].values, tr["zos_slope"].values * 0, "a detrended record has no trend", atol=1e-8 * size / span * far * 10)
            line = X.copy(data=X.values) + (xr.DataArray(x - x[0], dims=(tn,), coords={tn: X[tn]}) / span * c)
            line = line.transpose(*X.dims).assign_attrs(X.attrs).rename("zos")
            if kw["mode"] == "remove":
                agree(ctx, ap(ctx, op, line, tn, **kw), lift(rx, lambda p: p), "adding a line before detrending", tol(10))
            else:
                # the line's part that remains is its value at the origin of time
                agree(ctx, ap(ctx, op, line, tn, **kw), lift(rx, lambda p: p - c * x[0] / span), "adding a line before detrending", tol(100) * far)
        elif op == "seasonal_model":
            agree(ctx, ap(ctx, op, rx[1], tn), {"": rx[1]}, "residual of the residual", tol(10))
            agree(ctx, ap(ctx, op, rx[0], tn, return_model=True)[0], {"": rx[0]}, "model of the model", tol(10))
            agree(ctx, rx[0] + rx[1], {"": X}, "model plus residual", tol(10))
        elif op == "deseason":
            r = ap(ctx, op, X, tn)
            m = ap(ctx, op, X, tn, output_format="model")
            agree(ctx, r + m, {"": X}, "model plus residual", tol(10))
            agree(ctx, ap(ctx, op, r, tn), {"": r}, "residual of the residual", tol(10))
            agree(ctx, ap(ctx, op, m, tn, output_format="coeff"), {"": ap(ctx, op, X, tn, output_format="coeff")}, "coefficients of the model", tol(100))
        elif op == "calc_linear_trend":
            r1 = ap(ctx, op, X, tn)
            f = O.unit_ns(kw["time_units"])
            agree(ctx, rx, {"zos_slope": r1["zos_slope"] * f, "zos_intercept": r1["zos_intercept"]}, "the unit of the slope", tol())
            if kw["time_units"] not in ("mon", "yr"):
                # the line runs through the mean of a complete record
                g = ctx.call(TR.broadcast_trend, rx["zos_slope"], X[tn]) + rx["zos_intercept"]
                ok = X.notnull().all(tn)
                ctx.close(g.mean(tn).where(ok).values, X.mean(tn).where(ok).transpose(*g.mean(tn).dims).values, "the line runs through the mean", rtol=1e-7, atol=1e-8 * size * far * far)
        elif op == "monthly_average":
            # months are averaged to themselves; years from months are years from days
            mm = ap(ctx, op, rx, tn)
            agree(ctx, mm, lift(rx, lambda p: p), "monthly average of monthly averages", tol())
            if X.notnull().all():
                yy = ap(ctx, "annual_average", rx, tn)
                yr = np.array([t.year for t in tv])
                for i, q in enumerate(sorted(set(yr))):
                    w = X.isel({tn: np.flatnonzero(yr == q)}).mean(tn)
                    agree(ctx, yy.isel({tn: i}), {"": w}, "annual average of monthly averages", tol(10))
        elif op == "annual_average":
            yr = np.array([t.year for t in tv])
            for i, q in enumerate(sorted(set(yr))):
                one = ap(ctx, op, X.isel({tn: np.flatnonzero(yr == q)}), tn)
                agree(ctx, one.isel({tn: 0}), {"": rx.isel({tn: i})}, "a year on its own", 0.0)
        else:
            mon = np.array([t.month for t in tv])
            for q in range(1, 13):
                one = getattr(X.isel({tn: np.flatnonzero(mon == q)}), func)(tn)
                agree(ctx, rx.isel({tn: q - 1}), {"": one}, "a month on its own", tol(30))
            if func == "mean" and X.notnull().all():
                rep = rx.isel({tn: mon - 1}).assign_coords({tn: X[tn]}).rename("zos")
                agree(ctx, ap(ctx, op, rep, tn, **kw), lift(rx, lambda p: p), "cycle of the repeated cycle", tol(10))
    else:
        # bounds by the data
        lo, hi = X.min(tn), X.max(tn)
        if op in OPS[:3] and func != "std":
            v = rx
            eps = 1e-9 * size
            bad = ((v < lo - eps) | (v > hi + eps)).values.any()
            ctx.check(not bad, "an average outside the range of the data")
            if op == "annual_cycle":
                rs = {f: ap(ctx, op, X, tn, func=f) for f in ("min", "mean", "max", "std")}
                order = ((rs["min"] > rs["mean"] + eps) | (rs["mean"] > rs["max"] + eps) | (rs["std"] < 0) | (rs["std"] > (rs["max"] - rs["min"]) / 2 + 100 * eps)).values.any()
                ctx.check(not order, "minimum, mean, maximum and spread out of order")
        elif op == "annual_cycle":
            ctx.check(not (rx < 0).values.any(), "a negative spread")
        elif op in ("linear_detrend",) and kw["mode"] == "remove" or kw.get("output_format") == "residuals" or op == "seasonal_model":
            r = rx[1] if isinstance(rx, tuple) else rx
            ss = (r ** 2).sum(tn)
            st = ((X - X.mean(tn)) ** 2).sum(tn)
            ctx.check(not (ss > st * (1 + 1e-9) + len(tv) * (1e-9 * size * far) ** 2).values.any(), "a fit enlarges the variance")
        else:
            ctx.ncompared += 1
            flat = (X * 0 + c).assign_attrs(X.attrs).rename("zos")
            rf = ap(ctx, op, flat, tn, **kw)
            if op == "calc_linear_trend":
                ctx.close(rf["zos_slope"].values, np.where(np.isnan(rf["zos_slope"].values), np.nan, 0.0), "a constant record has no trend", atol=tol()["zos_slope"])
            elif kw.get("output_format") == "model" or kw.get("mode") == "correct":
                ctx.close(rf.values, rf.values * 0 + c, "a constant record is its own model", atol=tol(10))


def scaling_laws(ctx):
    from momlevel import derived as D
    import momlevel as ml
    from momlevel import util as U
    from momlevel import reference as RF
    rng = ctx.rng
    op = ctx.pick("op", ["ibh", "n2", "vort", "pv", "wave", "radius", "dz", "area", "steric rhozero", "steric reference", "steric bottom", "geolocate", "coriolis"])
    k = float(rng.choice([2.0, 0.5, 3.7, 1e-3, 1e3]))
    if op == "ibh":
        c = K.b_ibh(ctx)
        g = c.kwargs.pop("gravity")
        a = ctx.call(c.fn, *c.args, gravity=g, **c.kwargs)
        ctx.equal_xr(ctx.call(c.fn, *c.args, gravity=g * k, **c.kwargs) * k, a, "gravity scaling", rtol=1e-10)
        # a whole and its halves
    elif op == "n2":
        cs = K.grid(ctx, nz=(3, 7))
        T, S = K.state(ctx, cs)
        kw = {"eos": str(rng.choice(["Wright", "linear"]))}
        a = ctx.call(D.calc_n2, T, S, gravity=-9.8, **kw)
        ctx.equal_xr(ctx.call(D.calc_n2, T, S, gravity=-9.8 * k, **kw), a * k, "gravity scaling", rtol=1e-9, atol=1e-18)
        # the sign of gravity is the sign of the result
        ctx.equal_xr(ctx.call(D.calc_n2, T, S, gravity=9.8, **kw), -a, "sign of gravity", rtol=1e-9, atol=1e-18)
        # no gradient, no stratification; only gradients count at constant coefficients
        z = ctx.call(D.calc_n2, T * 0 + 8.0, S * 0 + 35.0, **kw)
        ctx.close(z.values, (T * 0 + S * 0).transpose(*z.dims).where(z.notnull()).values * 0, "a uniform column is neutral", atol=1e-15)
        if kw["eos"] == "linear":
            b = ctx.call(D.calc_n2, T, S, patm=0.0, **kw)
            ctx.equal_xr(b, a, "no pressure in the linear equation of state", rtol=1e-12, atol=1e-20)
    elif op == "vort":
        c = K.b_vort(ctx)
        while c.name != "calc_rel_vort":
            c = K.b_vort(ctx)
        ds = c.args[0]
        p, q = float(rng.uniform(-3, 3)), float(rng.uniform(-3, 3))
        f = lambda u, v: ctx.call(c.fn, ds.assign(uo=u, vo=v), **c.kwargs)  # noqa: E731
        U1, V1 = ds["uo"], ds["vo"]
        U2, V2 = U1.copy(data=rng.normal(0, 1, U1.shape)) + U1 * 0, V1.copy(data=rng.normal(0, 1, V1.shape)) + V1 * 0
        ctx.equal_xr(f(p * U1 + q * U2, p * V1 + q * V2), p * f(U1, V1) + q * f(U2, V2), "superposition", rtol=1e-7, atol=1e-10)
        two = ctx.call(c.fn, ds.assign(dxCu=ds["dxCu"] * k, dyCv=ds["dyCv"] * k, areacello_bu=ds["areacello_bu"] * k * k), **c.kwargs)
        ctx.equal_xr(two * k, f(U1, V1), "grid scaling", rtol=1e-8, atol=1e-12)
    elif op == "pv":
        c = K.b_vort(ctx)
        while c.name != "calc_pv":
            c = K.b_vort(ctx)
        z, f, n2 = c.args
        g = c.kwargs.pop("gravity", 9.8)
        a = ctx.call(c.fn, z, f, n2, gravity=g, **c.kwargs)
        t = dict(rtol=1e-8, atol=c.atol)
        ctx.equal_xr(ctx.call(c.fn, z, f, n2, gravity=g * k, **c.kwargs) * k, a, "gravity scaling", **t)
        ctx.equal_xr(ctx.call(c.fn, z, f, n2 * k, gravity=g, **c.kwargs), a * k, "stratification scaling", rtol=1e-8, atol=c.atol * max(k, 1))
        b = ctx.call(c.fn, -z, -f, n2, gravity=g, **c.kwargs)
        ctx.equal_xr(b, a if c.kwargs["units"] == "cm" else -a, "sign of rotation", **t)
        # only the sum of relative and planetary vorticity counts
        s = z * 0 + f * 0 + 1e-5
        ctx.equal_xr(ctx.call(c.fn, (z - s).transpose(*z.dims), (f + s).transpose(*z.dims), n2, gravity=g, **c.kwargs), a, "only absolute vorticity counts", rtol=1e-7, atol=max(c.atol, 1e-20), order=False)
    elif op == "wave":
        c = K.b_adjust(ctx)
        while c.name != "calc_wave_speed":
            c = K.b_adjust(ctx)
        n2, dz = c.args
        n2 = n2 * float(10 ** rng.uniform(-6, 2))
        if rng.random() < 0.4:
            n2 = np.abs(n2)
        a = ctx.call(c.fn, n2, dz, **c.kwargs)
        ctx.equal_xr(ctx.call(c.fn, n2, dz * k, **c.kwargs), a * k, "thickness scaling", rtol=1e-9)
        if bool((n2.isel(z_l=0) > 0).where(n2.isel(z_l=0).notnull(), True).all()):
            ctx.equal_xr(ctx.call(c.fn, n2 * k, dz, **c.kwargs), a * np.sqrt(k), "stratification scaling", rtol=1e-9)
        h = ctx.call(D.adjust_negative_n2, n2)
        ctx.equal_xr(ctx.call(D.adjust_negative_n2, h), h, "adjusting twice", rtol=1e-14, atol=0)
        ctx.equal_xr(ctx.call(c.fn, h, dz, **c.kwargs), a, "wave speed of the adjusted profile", rtol=1e-12)
        z1, z2 = dz * 0.3, dz * 0.7
        ctx.equal_xr(ctx.call(c.fn, n2, z1, **c.kwargs) + ctx.call(c.fn, n2, z2, **c.kwargs), a, "additive in thickness", rtol=1e-9)
    elif op == "radius":
        cs = K.grid(ctx)
        w = np.abs(K.fld(rng, 2, 0.5, ("yh", "xh"), cs, "c1", "m s-1", 0.1))
        f = K.fld(rng, 0, 1e-4, ("yh", "xh"), cs, "f", "s-1")
        a = ctx.call(D.calc_rossby_rd, w, f)
        ctx.equal_xr(ctx.call(D.calc_rossby_rd, w * k, f), a * k, "speed scaling", rtol=1e-9)
        ctx.equal_xr(ctx.call(D.calc_rossby_rd, w, -f), a, "hemispheres", rtol=1e-12)
        ctx.equal_xr(ctx.call(D.calc_rossby_rd, w, f * k) * k, a, "rotation scaling", rtol=1e-9)
        ctx.check(not (a * np.abs(f) - w > 1e-9 * w).any(), "radius times rotation is the speed")
    elif op == "coriolis":
        la = K.fld(rng, 0, 40, ("yh", "xh"), K.grid(ctx), "geolat")
        a = ctx.call(D.calc_coriolis, la)
        ctx.equal_xr(ctx.call(D.calc_coriolis, -la), -a, "hemispheres", rtol=1e-12, atol=1e-20)
        ctx.equal_xr(ctx.call(D.calc_coriolis, 180.0 - la), a, "supplementary latitude", rtol=1e-9, atol=1e-18)
        p = ctx.call(D.calc_coriolis, 90.0 - la)
        w = a ** 2 + p ** 2
        ctx.close(w.values, np.full(w.shape, (4 * np.pi / 86400) ** 2), "squares of complementary latitudes", rtol=1e-9)
    elif op == "dz":
        c = K.b_dz(ctx)
        kw = dict(c.kwargs)
        lev, itf, dep = c.args
        a = ctx.call(D.calc_dz, lev, itf, dep, **kw)
        kw2 = {q: (v * k if q in ("top", "bottom") else v) for q, v in kw.items()}
        s = lambda v, n: xr.DataArray(v.values * k, dims=v.dims, coords={n: v.values * k}, name=n, attrs=v.attrs)  # noqa: E731
        b = ctx.call(D.calc_dz, s(lev, "z_l"), s(itf, "z_i"), dep * k, **kw2)
        w = a if kw.get("fraction") else a * k
        ctx.check(set(a.dims) == set(b.dims), "dimensions")
        # cells that vanish only because of rounding are left out
        x, y = b.transpose(*w.dims).values, w.values
        if kw.get("fraction"):
            tiny = (np.isnan(x) != np.isnan(y)) & (np.where(np.isnan(x), y, x) < 1e-9)
            x, y = np.where(tiny, 0, x), np.where(tiny, 0, y)
        ctx.close(x, y, "unit of length", rtol=1e-9, atol=1e-9 * (1 if kw.get("fraction") else k) * float(itf.max()))
        if not kw.get("fraction") and not kw:
            # two depths: the shallower is nowhere thicker
            d2 = dep * 0.7
            ctx.check(not (ctx.call(D.calc_dz, lev, itf, d2) > a + 1e-9).any(), "a shallower column is thicker somewhere")
    elif op == "area":
        ny, nx = int(rng.integers(2, 12)), int(rng.integers(2, 12))
        la = -90 + (np.arange(ny) + 0.5) * 180 / ny
        lo = (np.arange(nx) + 0.5) * 360 / nx
        r = float(rng.uniform(1, 7e6))
        a = ctx.call(U.standard_grid_cell_area, la, lo, r_earth=r)
        ctx.close(ctx.call(U.standard_grid_cell_area, la, lo, r_earth=r * k), a * k * k, "radius scaling", rtol=1e-9)
        ctx.close(ctx.call(U.standard_grid_cell_area, la[::-1], lo, r_earth=r), a[::-1], "hemispheres", rtol=1e-9)
        ctx.close(ctx.call(U.standard_grid_cell_area, la, lo[::-1], r_earth=r), a, "direction of longitude", rtol=1e-9)
        ctx.close(ctx.call(U.standard_grid_cell_area, la, lo + 360 * rng.integers(-2, 3), r_earth=r), a, "longitudes wrap", rtol=1e-9)
        # halving the cells
        la2 = np.repeat(la, 2) + np.tile([-45.0 / ny, 45.0 / ny], ny)
        b = np.asarray(ctx.call(U.standard_grid_cell_area, la2, lo, r_earth=r))
        ctx.close(b.reshape(ny, 2, nx).sum(1), a, "half cells", rtol=1e-8, atol=1e-9 * r * r)
    elif op == "geolocate":
        c = K.b_geoloc(ctx)
        c.kwargs.pop("threshold", None)
        a = ctx.call(c.fn, *c.args, **c.kwargs)
        b = ctx.call(c.fn, *c.args, rad_earth=6.378e3 * k, **c.kwargs)
        ctx.close(b["distance"].values, a["distance"].values * k, "radius scaling", rtol=1e-9, atol=1e-9)
        # all longitudes turned together
        m, l = c.args[0].copy(), c.args[1].copy()
        turn = float(rng.uniform(-180, 180))
        m["geolon"], l["lon"] = m["geolon"] + turn, l["lon"] + turn
        t = ctx.call(c.fn, m, l, **c.kwargs)
        ctx.close(t["distance"].values, a["distance"].values, "turning the globe", rtol=1e-6, atol=1e-3)
        m2, l2 = c.args[0].copy(), c.args[1].copy()
        m2["geolat"], l2["lat"] = -m2["geolat"], -l2["lat"]
        t = ctx.call(c.fn, m2, l2, **c.kwargs)
        ctx.close(t["distance"].values, a["distance"].values, "mirroring the globe", rtol=1e-6, atol=1e-3)
    else:
        cs = K.grid(ctx)
        ds = K.ocean_ds(ctx, cs)
        eos = str(rng.choice(["Wright", "linear"]))
        dom = ctx.pick("domain", ["local", "global"])
        if op == "steric rhozero":
            var = ctx.pick("variant", ["steric", "thermosteric", "halosteric"])
            kw = dict(variant=var, equation_of_state=eos, domain=dom)
            r0 = float(rng.choice([1035.0, 1000.0, 1.0, 0.3]))
            a = ctx.call(ml.steric, ds, rhozero=r0, **kw)[0]
            b = ctx.call(ml.steric, ds, rhozero=r0 * k, **kw)[0]
            ctx.equal_xr(b[var] * (k if dom == "local" else 1.0), a[var], "reference density scaling", rtol=1e-8, atol=1e-12)
            if dom == "local":
                ctx.equal_xr(b["delta_rho"], a["delta_rho"], "the density anomaly does not depend on rhozero", rtol=1e-12, atol=1e-12)
            else:
                # a larger area of the same volume gives a proportionally lower sea level
                small = float(rng.uniform(0.985, 1.015))
                d2 = ds.assign(areacello=ds["areacello"] * small)
                e = ctx.call(ml.steric, d2, **kw)[0]
                ctx.equal_xr(e[var] * small, a[var], "area scaling", rtol=1e-8, atol=1e-13)
                e = ctx.call(ml.steric, ds.assign(volcello=ds["volcello"] * k), **kw)[0]
                ctx.equal_xr(e[var], a[var] * k, "volume scaling", rtol=1e-6, atol=1e-9 * k)
        elif op == "steric reference":
            # another reference moves the whole series by one field
            r1 = RF.setup_reference_state(ds, eos=eos)
            d2 = ds.assign(thetao=ds["thetao"] + float(rng.uniform(-3, 3)), so=ds["so"] + float(rng.uniform(-1, 1)))
            d2["volcello"] = ds["volcello"].isel(time=0, drop=True).expand_dims(time=ds["time"]).transpose(*ds["volcello"].dims)
            r2 = RF.setup_reference_state(d2, eos=eos)
            kw = dict(equation_of_state=eos, domain=dom)
            a = ctx.call(ml.steric, ds, reference=r1, **kw)[0]["steric"]
            b = ctx.call(ml.steric, ds, reference=r2, **kw)[0]["steric"]
            d = (a - b).transpose("time", ...)
            # missing cells of the series (which count as no change) are where the shift is not constant
            full = ds["thetao"].notnull() & ds["so"].notnull()
            if dom == "local":
                full = full.all("z_l") & r1["rho"].notnull().all("z_l")
                d = d.where(full.broadcast_like(d).transpose(*d.dims))
                ok = full.isel(time=0).values
                w = np.where(full.values, d.isel(time=0).values, np.nan)
                ctx.close(d.where(d.isel(time=0).notnull()).values, np.where(np.isnan(d.values), np.nan, w), "another reference moves the series by one field", rtol=1e-6, atol=1e-6)
                ctx.count("columns_compared", int(ok.sum()))
            else:
                ctx.close(d.values, np.full(d.shape, float(d.values[0])), "another reference moves the series by one number", rtol=1e-6, atol=1e-7 * max(1.0, float(np.abs(a).max())))
        else:
            # a column cut off at an interface loses exactly the layers below it
            var = ctx.pick("variant", ["steric", "thermosteric", "halosteric"])
            kw = dict(variant=var, equation_of_state=eos)
            deep = ds.assign(deptho=ds["deptho"] * 0 + float(cs["z_i"][-1]))
            i = int(rng.integers(1, len(cs["z_i"])))
            cut = ds.assign(deptho=ds["deptho"] * 0 + float(cs["z_i"][i]))
            a, b = ctx.call(ml.steric, deep, **kw)[0], ctx.call(ml.steric, cut, **kw)[0]
            th = xr.DataArray(np.diff(cs["z_i"]), dims=("z_l",), coords={"z_l": cs["z_l"]})
            below = (a["delta_rho"] * th).isel(z_l=slice(i, None)).sum("z_l") * (-1 / 1035.0)
            below = below.where(ds["deptho"].notnull(), 0.0).transpose(*a[var].dims)
            ctx.equal_xr(b[var] + below, a[var], "layers below the bottom contribute nothing", rtol=1e-7, atol=1e-9)


def case(ctx):
    if ctx.pick("family", ["time", "scaling"], p=[0.6, 0.4]) == "time":
        time_laws(ctx)
    else:
        scaling_laws(ctx)

"""C19 tide gauge extraction."""
import os

import numpy as np
import pandas as pd
import xarray as xr

from vmon import core
from vmon import gen as G
from vmon import oracle as O

CASES = {"quick": 2100, "thorough": 21000}
RULE = (
    "random regional and global grids (curvilinear 2-D or 1-D coordinates, by name or as arrays, unlabelled or labelled, both longitude "
    "conventions), data of 2-5 dimensions in any order, masks with gaps, generated site files and the two shipped ones, thresholds; each "
    "site's series and metadata compared with a brute-force nearest wet cell; distinct by feature tuple"
)
ASSUMPTIONS = ["data, coordinates and mask carry the same labels", "ties may be resolved to any of the nearest cells", "site names are unique (for the shipped file: as shipped)"]


def case(ctx):
    from momlevel import tidegauge as TG
    rng = ctx.rng
    ny, nx = int(rng.integers(2, 9)), int(rng.integers(2, 9))
    if rng.random() < 0.05:
        ny, nx = 40, 50
    elif rng.random() < 0.04:
        ny, nx = G.perm(rng, [G.long_size(rng), int(rng.integers(2, 5))])
    region = ctx.pick("region", ["us", "global", "dateline"], p=[0.4, 0.4, 0.2])
    y0, y1, x0, x1 = {"us": (20, 50, -100, -60), "global": (-75, 75, -180, 179), "dateline": (-20, 20, 170, 195)}[region]
    yn, xn = ctx.pick("dims", [("yh", "xh"), ("lat", "lon"), ("j", "i")], p=[0.5, 0.25, 0.25])
    la1, lo1 = np.sort(rng.uniform(y0, y1, ny)), np.sort(rng.uniform(x0, x1, nx))
    if rng.random() < 0.3:
        la1 = la1[::-1].copy()
    if rng.random() < 0.3:
        lo1 = lo1 % 360
    ctx.note(ny=ny, nx=nx)
    cdim = ctx.pick("coords", ["2d", "1d"], p=[0.65, 0.35])
    given = ctx.pick("given", ["name", "array"])
    if cdim == "2d":
        lat2 = la1[:, None] + rng.uniform(-1, 1, (ny, nx))
        lon2 = lo1[None, :] + rng.uniform(-1, 1, (ny, nx))
        yl, xl = G.labels(rng, ny), G.labels(rng, nx)
        labelled = ctx.flip("labelled", 0.8)
    else:
        lat2, lon2 = np.broadcast_to(la1[:, None], (ny, nx)), np.broadcast_to(lo1[None, :], (ny, nx))
        yl, xl, labelled = la1, lo1, True
    lab = {yn: yl, xn: xl} if labelled else {}
    # ---- data
    ed = [(), ("time",), ("time", "z_l")][int(rng.choice(3, p=[0.2, 0.6, 0.2]))]
    es = tuple(int(rng.integers(1, 6)) for _ in ed)
    if ed and max(ny, nx) < 9 and rng.random() < 0.04:
        es = (G.long_size(rng),) + tuple(1 for _ in ed[1:])
    a = rng.normal(0, 1, es + (ny, nx))
    if rng.random() < 0.3:
        a[..., rng.random((ny, nx)) < 0.2] = np.nan
    if ctx.flip("f4", 0.15):
        a = a.astype("f4")
    da = xr.DataArray(a, dims=ed + (yn, xn), coords={**lab, **{d: np.arange(n) * 2.0 for d, n in zip(ed, es)}}, name="ssh", attrs={"units": "m"})
    if ctx.flip("attr_clash", 0.15):
        # attributes of the data called like entries of the site's metadata
        for k in ("distance", "model_coords", "real_coords", "dim_vals", "dims", "name", "mod_index", "lat"):
            if rng.random() < 0.5:
                da.attrs[k] = -1.0
    perm = ctx.flip("permute", 0.45)
    if perm:
        da = da.transpose(*G.perm(rng, da.dims))
    cname = ctx.pick("cnames", [("geolon", "geolat"), ("LON", "LAT")], p=[0.75, 0.25])
    kw = {}
    may_reject = False
    if cdim == "2d":
        cx = xr.DataArray(lon2, dims=(yn, xn), coords=lab, name=cname[0])
        cy = xr.DataArray(lat2, dims=(yn, xn), coords=lab, name=cname[1])
        if ctx.flip("cperm", 0.3):
            cx, cy = cx.transpose(xn, yn), cy.transpose(xn, yn)
        if ctx.flip("cmixed", 0.06):
            # the two coordinates disagree on the order of their dimensions: rejected, or right
            cx, may_reject = cx.transpose(), True
        if given == "name":
            da = da.assign_coords({cname[0]: cx, cname[1]: cy})
            if cname[0] != "geolon":
                kw.update(xcoord=cname[0], ycoord=cname[1])
        else:
            kw.update(xcoord=cx, ycoord=cy)
    else:
        if given == "name":
            kw.update(xcoord=xn, ycoord=yn)
        else:
            kw.update(xcoord=da[xn], ycoord=da[yn])
    wet = np.ones((ny, nx), bool)
    if ctx.flip("mask", 0.7):
        m = (rng.random((ny, nx)) < float(rng.choice([0.4, 0.8]))).astype(float)
        if rng.random() < 0.5:
            m[rng.random((ny, nx)) < 0.25] = np.nan
        if not (m == 1).any():
            m[int(rng.integers(ny)), int(rng.integers(nx))] = 1.0
        if ctx.flip("fractional", 0.2):
            # partly wet cells are not valid points
            fr = (m != 1) & (rng.random((ny, nx)) < 0.5)
            m[fr] = rng.choice([0.3, 0.51, 0.75, 0.999, 1.5, 2.0], int(fr.sum()))
        none = ctx.flip("no_wet_cell", 0.03)
        if none:
            m[m == 1] = 0.0
        wet = m == 1
        md = xr.DataArray(m, dims=(yn, xn), coords=lab, name=str(rng.choice(["mask", "wet", "wet_c"])))
        if ctx.flip("mperm", 0.4):
            md = md.transpose(xn, yn)
        if rng.random() < 0.3 and np.isfinite(m).all() and (m == np.round(m)).all():
            md = md.astype(int)
        kw["mask"] = md
    if ctx.flip("lazy", 0.12):
        da = da.chunk({d: 2 for d in da.dims})
    # ---- sites
    src = ctx.pick("sites", ["file", "us", "us_default", "global"], p=[0.7, 0.1, 0.1, 0.1])
    if src == "file":
        k = int(rng.integers(1, 9))
        sy = rng.uniform(y0, y1, k)
        sx = rng.uniform(x0, x1, k) + 360 * rng.integers(-1, 2, k)
        j = rng.integers(0, ny * nx, k)
        near = rng.random(k) < 0.6
        sy = np.where(near, lat2.ravel()[j] + rng.normal(0, 0.2, k), sy)
        sx = np.where(near, lon2.ravel()[j] + rng.normal(0, 0.2, k), sx)
        if k > 1 and ctx.flip("repeated sites", 0.15):
            j = rng.integers(0, k, k)
            sy, sx = sy[j], sx[j]
        names = [f"SITE_{chr(65 + i)}" for i in rng.permutation(k)]
        fr = pd.DataFrame({str(rng.choice(["name", "PSMSL_site"])): names, "lat": sy, "lon": sx, "ID": np.arange(k)})
        fr = fr[G.perm(rng, fr.columns)]
        path = os.path.join(ctx.tmpdir(), ctx.pick("file_name", ["sites.csv", "us.csv", "global.csv", "us", "global", "us_tide_gauges.csv", "my sites.txt", "sites.v2.dat"], p=[0.4] + [0.1] * 3 + [0.05, 0.05] + [0.1] * 2))
        fr.to_csv(path, index=False)
        fr = pd.read_csv(path)
        sy, sx = fr["lat"].values, fr["lon"].values
        kw["csv"] = path
    else:
        fn = "us_tide_gauges.csv" if src.startswith("us") else "global_tide_gauges.csv"
        fr = pd.read_csv(os.path.join(core.SRC, "momlevel", "resources", fn), encoding="utf-8-sig")
        names, sy, sx = list(fr["PSMSL_site"]), fr["lat"].values, fr["lon"].values
        if src != "us_default":
            kw["csv"] = src
    vi = np.where(wet.ravel())[0]
    if len(vi) == 0:
        # no cell can be used: nothing may be returned
        if rng.random() < 0.5:
            kw["threshold"] = 1e5
        ok, res = ctx.attempt(TG.extract_tidegauge, da, **kw)
        ctx.check(not ok or len(res.data_vars) == 0, "series returned although every cell is land", lambda: str(res))
        return
    D = O.haversine_km(sy[:, None], sx[:, None], lat2.ravel()[None, vi], lon2.ravel()[None, vi], 6378.0)
    best = D.min(axis=1)
    T = None
    if ctx.flip("threshold", 0.6):
        q = np.sort(best)
        i = int(rng.integers(len(q)))
        T = float(0.5 * (q[i] + q[i + 1])) if i + 1 < len(q) else float(q[i] + 1.0)
        if np.abs(best - T).min() < 1e-6:
            T = T + 1e-3
            if np.abs(best - T).min() < 1e-6:
                T = None
        if T is not None:
            kw["threshold"] = T if rng.random() < 0.8 else float(T)
    if rng.random() < 0.2:
        kw["disable_warning"] = False
    if may_reject:
        ok, res = ctx.attempt(TG.extract_tidegauge, da, **kw)
        if not ok:
            ctx.ncompared += 1
            return
    else:
        res = ctx.call(TG.extract_tidegauge, da, **kw)
    if rng.random() < 0.03 and cdim == "2d":
        # coordinates of different ranks cannot describe one grid
        ctx.rejects(TG.extract_tidegauge, da, **{**kw, "xcoord": cx.isel({yn: 0}, drop=True), "ycoord": cy})
    kept = [i for i in range(len(names)) if T is None or best[i] <= T]
    ctx.check(isinstance(res, xr.Dataset), "a dataset")
    ctx.check(set(res.data_vars) == {names[i] for i in kept}, "sites in the result", lambda: f"{sorted(res.data_vars)[:8]} expected {sorted(names[i] for i in kept)[:8]}")
    for nm in {names[i] for i in kept}:
        rows = [i for i in kept if names[i] == nm]
        v = res[nm]
        ctx.check(set(v.dims) == set(ed), "dimensions of a site", lambda: f"{v.dims}")
        got = v.transpose(*ed).values
        for d, n in zip(ed, es):
            ctx.check((v[d].values == np.arange(n) * 2.0).all(), "labels of a site")
        why = None
        for i in rows:
            cand = vi[np.where(D[i] <= best[i] + 1e-6)[0]]
            for c in cand:
                j, kx = divmod(int(c), nx)
                if not np.array_equal(got, a[..., j, kx], equal_nan=True):
                    why = why or f"values of {nm}: {got.ravel()[:4]} expected {a[..., j, kx].ravel()[:4]}"
                    continue
                at = v.attrs
                if abs(float(at["distance"]) - best[i]) > 1e-5:
                    why = f"distance {at['distance']} expected {best[i]}"
                elif tuple(at["model_coords"]) != (lat2[j, kx], lon2[j, kx]):
                    why = f"model_coords {at['model_coords']} expected {(lat2[j, kx], lon2[j, kx])}"
                elif tuple(at["real_coords"]) != (sy[i], sx[i]):
                    why = f"real_coords {at['real_coords']} expected {(sy[i], sx[i])}"
                else:
                    want = {yn: yl[j] if labelled else j, xn: xl[kx] if labelled else kx}
                    if dict(zip(at["dims"], at["dim_vals"])) != want:
                        why = f"dim_vals {at['dims']} {at['dim_vals']} expected {want}"
                    elif at.get("units") != "m":
                        why = "attributes of the data lost"
                    else:
                        why = None
                        break
            else:
                continue
            why = None
            break
        ctx.check(why is None, "site does not hold its nearest wet cell", why)
        ctx.nvalues += got.size

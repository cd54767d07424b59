"""C18 geolocation."""
import numpy as np
import pandas as pd

from vmon import gen as G
from vmon import oracle as O

CASES = {"quick": 4200, "thorough": 42000}
RULE = (
    "random model point sets (regular, curvilinear, clustered at poles or the date line, duplicated points, 1-2500 points, both longitude "
    "conventions), masks (with missing values), locations, radii, thresholds (also equal to a reported distance), column names and indexes; "
    "each location compared with a brute-force great-circle search; distinct by feature tuple"
)
ASSUMPTIONS = ["coordinates of usable points are finite", "ties may be resolved to any of the nearest points"]


def points(ctx, name, n):
    rng = ctx.rng
    m = ctx.pick(name, ["global", "region", "dateline", "north", "south", "regular", "greenwich"])
    if m == "global":
        lat, lon = np.degrees(np.arcsin(rng.uniform(-1, 1, n))), rng.uniform(-180, 180, n)
    elif m == "region":
        lat, lon = rng.uniform(30, 45, n), rng.uniform(-80, -60, n)
    elif m == "dateline":
        lat, lon = rng.uniform(-40, 40, n), 180 + rng.uniform(-5, 5, n)
    elif m == "greenwich":
        lat, lon = rng.uniform(-60, 60, n), rng.uniform(-4, 4, n)
    elif m == "north":
        lat, lon = rng.uniform(85, 90, n), rng.uniform(-180, 180, n)
        lat[rng.random(n) < 0.1] = 90.0
    elif m == "south":
        lat, lon = rng.uniform(-90, -82, n), rng.uniform(-180, 180, n)
    else:
        k = int(np.ceil(np.sqrt(n)))
        la, lo = np.meshgrid(np.linspace(-85, 85, k), np.arange(k) * 360.0 / k)
        lat, lon = la.ravel()[:n], lo.ravel()[:n]
    conv = ctx.pick(name + "_lon", ["180", "360", "mixed"])
    lon = (lon + 180) % 360 - 180
    if conv == "360":
        lon = lon % 360
    elif conv == "mixed":
        lon = lon + 360 * rng.integers(-1, 2, n)
    return lat, lon


def case(ctx):
    from momlevel import util as U
    rng = ctx.rng
    n = G.size(ctx, "npoints", (1, 60), (200, 2500), 0.15)
    k = G.size(ctx, "nlocs", (1, 15), (100, 1600), 0.03)
    mlat, mlon = points(ctx, "model", n)
    if ctx.flip("dups", 0.15) and n > 3:
        mlat[: n // 3] = mlat[0]
        mlon[: n // 3] = mlon[0]
    llat, llon = points(ctx, "locs", k)
    if ctx.flip("near", 0.5):
        j = rng.integers(0, n, k)
        llat = np.clip(mlat[j] + rng.normal(0, 0.3, k), -90, 90)
        llon = mlon[j] + rng.normal(0, 0.3, k) + 360 * rng.integers(-1, 2, k)
    if ctx.flip("same", 0.1):
        llat[0], llon[0] = mlat[-1], mlon[-1]
    if k > 1 and ctx.flip("repeated locations", 0.15):
        j = rng.integers(0, k, k)
        llat, llon = llat[j], llon[j]  # records of several gauges at one harbour
    mc = ctx.pick("mcols", [("geolat", "geolon"), ("lat", "lon"), ("y", "x")], p=[0.6, 0.2, 0.2])
    lc = ctx.pick("lcols", [("lat", "lon"), ("latitude", "longitude")], p=[0.7, 0.3])
    idx = ctx.pick("index", ["multi", "range", "shuffled", "text"])
    if idx == "multi":
        w = max(1, int(np.sqrt(n)))
        index = pd.MultiIndex.from_tuples([(float(i // w) + 0.5, float(i % w) + 0.5) for i in range(n)], names=["yh", "xh"])
    elif idx == "range":
        index = pd.RangeIndex(n)
    elif idx == "shuffled":
        index = pd.Index(rng.permutation(n) + 100)
    else:
        index = pd.Index([f"p{i}" for i in rng.permutation(n)])
    cols = {mc[1]: mlon, mc[0]: mlat}
    if ctx.flip("maskcol", 0.7):
        mask = (rng.random(n) < float(rng.choice([0.3, 0.7, 0.95]))).astype(float)
        if rng.random() < 0.3:
            mask[rng.random(n) < 0.2] = rng.choice([np.nan, 0.5, 2.0, 1.4, 0.999, 1e3, -1.0])
        if not (mask == 1).any():
            mask[int(rng.integers(n))] = 1.0
        cols["mask"] = mask
    else:
        mask = None
    use = ctx.pick("apply_mask", ["default", "true", "false"], p=[0.5, 0.25, 0.25])
    ok = np.ones(n, bool)
    if mask is not None and use != "false":
        ok = mask == 1.0
        if rng.random() < 0.3:
            # land without coordinates
            bad = ~ok & (rng.random(n) < 0.5)
            cols[mc[0]] = np.where(bad, np.nan, mlat)
            cols[mc[1]] = np.where(bad, np.nan, mlon)
    df = pd.DataFrame(cols, index=index)
    if ctx.flip("extra_cols", 0.3):
        df["other"] = rng.normal(size=n)
    if ctx.flip("dupcols", 0.15):
        df = pd.concat([df, df[[mc[0]]]], axis=1)
    name = [f"site {i}" for i in rng.permutation(k)]
    ld = pd.DataFrame({"name": name, "id": rng.integers(0, 99, k), lc[0]: llat, lc[1]: llon, "note": rng.normal(size=k)})
    if ctx.flip("gaps", 0.25):
        ld.loc[rng.random(k) < 0.4, "note"] = np.nan  # incomplete records
    if ctx.flip("text", 0.15):
        ld["text"] = [None if rng.random() < 0.4 else f"t{i}" for i in range(k)]
    if ctx.flip("locs with mask", 0.2):
        ld["mask"] = rng.choice([0.0, 1.0, np.nan], k)  # of the locations' own, says nothing about the model
    if ctx.flip("locindex", 0.4):
        ld.index = rng.permutation(k) + 7
    own, ld0 = [c for c in ld.columns if c not in ("name",) + lc], ld.copy(deep=True)
    kw = {}
    if mc != ("geolat", "geolon") or rng.random() < 0.2:
        kw["model_coords"] = mc
    if lc != ("lat", "lon") or rng.random() < 0.2:
        kw["loc_coords"] = lc
    if use != "default":
        kw["apply_mask"] = use == "true"
    R = 6378.0
    if ctx.flip("radius", 0.3):
        R = float(rng.choice([6371.0, 1.0, 3389.5]))
        kw["rad_earth"] = R
    vi = np.where(ok)[0]
    D = O.haversine_km(llat[:, None], llon[:, None], mlat[None, vi], mlon[None, vi], R)
    best = D.min(axis=1)
    tol = 1e-8 * R * (1 + 20 * (best > 0.99 * np.pi * R))

    def verify(out, kept):
        ctx.check(list(out["name"]) == [name[i] for i in kept], "kept locations and their order", lambda: f"{list(out['name'])} expected {[name[i] for i in kept]}")
        ctx.check(list(out.index) == list(ld.index[kept]), "index of the locations")
        for col in own:
            ctx.check(col in out.columns and out[col].equals(ld0[col].iloc[kept]), "other columns", col)
        for r, i in zip(range(len(out)), kept):
            row = out.iloc[r]
            ctx.close(row["distance"], best[i], "smallest distance", rtol=1e-9, atol=tol[i])
            la, lo = row["model_coords"]
            cand = vi[np.where(D[i] <= best[i] + 2 * tol[i])[0]]
            hits = [c for c in cand if mlat[c] == la and mlon[c] == lo]
            ctx.check(len(hits) > 0, "model coordinates are not those of a nearest allowed point", lambda: f"{(la, lo)} nearest {[(mlat[c], mlon[c]) for c in cand]}")
            ctx.check(row["dim_vals"] in [index[c] for c in hits], "dimension values do not belong to the point", lambda: f"{row['dim_vals']}")
            rl = row["real_coords"]
            ctx.check(tuple(rl) == (llat[i], llon[i]), "real coordinates")
            mi = int(row["mod_index"])
            full, masked = [int(h) for h in hits], [int(np.where(vi == h)[0][0]) for h in hits]
            if mi in full:
                continue
            ctx.check(mi in masked, "index of the model point", lambda: f"{mi} expected {full} (or {masked})")
            ctx.known_finding("KF-GEO-INDEX", f"{mi} among the unmasked points is {full} in the frame")

    out = ctx.call(U.geolocate_points, df, ld, **kw, **({"disable_warning": False} if rng.random() < 0.2 else {}))
    verify(out, list(range(k)))
    dist = out["distance"].values
    th = ctx.pick("threshold", ["none", "equal", "between", "all", "nothing"])
    if th == "none":
        return
    if th == "equal":
        T = float(rng.choice(dist))
    elif th == "between":
        T = float(rng.uniform(dist.min(), dist.max() + 1e-9))
    elif th == "all":
        T = float(dist.max() + 1)
    else:
        T = float(dist.min()) - 1e-3 * R
    kept = [i for i in range(k) if dist[i] <= T]
    if rng.random() < 0.2 and th != "nothing":
        kw["disable_warning"] = False
    out = ctx.call(U.geolocate_points, df, ld, threshold=T, **kw)
    verify(out, kept)

"""C20 cell areas and tiling."""
import numpy as np
import xarray as xr

from vmon import gen as G

CASES = {"quick": 12000, "thorough": 120000}
RULE = (
    "uniform global and regional grids of 2-400 points per axis, ascending or descending, both longitude conventions, lists, plain and "
    "labelled arrays of floating or integer type, any radius: areas against the spherical zone integral and the area of the sphere; "
    "tilings of random coordinate vectors; distinct by feature tuple"
)
ASSUMPTIONS = ["cells stay between the poles (no cell is centred on a pole)", "labelled axes carry their coordinate"]


def case(ctx):
    from momlevel import util as U
    rng = ctx.rng
    if ctx.flip("tile", 0.35):
        tile(ctx, U)
        return
    kind = ctx.pick("grid", ["global", "regional", "band"], p=[0.45, 0.4, 0.15])
    ny = G.size(ctx, "ny", (2, 30), (100, 400), 0.05)
    nx = G.size(ctx, "nx", (2, 30), (100, 400), 0.05)
    if rng.random() < 0.03:
        ny, nx = G.perm(rng, [int(rng.choice([512, 1000, 1080, 1440])), int(rng.integers(2, 12))])
    if kind == "global":
        lat = -90 + (np.arange(ny) + 0.5) * 180.0 / ny
        lon = float(rng.choice([0.0, -180.0, 60.0])) + (np.arange(nx) + 0.5) * 360.0 / nx
    elif kind == "regional":
        dy = float(rng.choice([0.125, 0.25, 1.0, rng.uniform(0.01, 2)]))
        dy = min(dy, 140.0 / ny)
        a = rng.uniform(-89, 89 - ny * dy)
        a = round(a * 8) / 8 if rng.random() < 0.5 else a
        a = max(a, -90)
        lat = a + (np.arange(ny) + 0.5) * dy
        dx = min(float(rng.choice([0.125, 0.25, 1.0, rng.uniform(0.01, 3)])), 360.0 / nx)
        lon = rng.uniform(-180, 300) + np.arange(nx) * dx
    else:
        m = int(rng.integers(1, 20))
        lat = np.arange(-m, m + 1) * float(rng.uniform(0.5, 80.0 / (m + 1)))
        ny = len(lat)
        lon = np.arange(nx) * 360.0 / nx
    dlat, dlon = lat[1] - lat[0], lon[1] - lon[0]
    if ctx.flip("lat_down", 0.35):
        lat = lat[::-1].copy()
    if ctx.flip("lon_down", 0.2):
        lon = lon[::-1].copy()
    dt = ctx.pick("dtype", ["f8", "f4", "i8"], p=[0.8, 0.1, 0.1])
    if dt == "i8":
        k = int(rng.integers(2, 20))
        lat = np.arange(k) * int(rng.choice([1, 2, 4])) - int(rng.integers(0, 30))
        lon = np.arange(nx) * 2 - 40
        lat = lat[::-1].copy() if ctx.features["lat_down"] else lat
        ny, kind = k, "regional"
        dlat, dlon = abs(lat[1] - lat[0]), 2
    rl, ro = lat.astype(dt), lon.astype(dt)
    if dt == "f8" and ctx.flip("mixed_types", 0.15):
        # one axis of integers, the other of fractions
        if rng.random() < 0.5:
            st = int(rng.choice([1, 2, 5, 10]))
            nx = int(rng.integers(2, 360 // st + 1))
            ro = lon = np.arange(nx) * st - int(rng.integers(0, 180))
            dlon, kind = st, "regional"
        else:
            ny = int(rng.integers(2, 20))
            rl = lat = np.arange(ny) * 2 - int(rng.integers(0, 40))
            dlat, kind = 2, "regional"
    R = 6371.0e3
    kw = {}
    if ctx.flip("radius", 0.4):
        R = float(rng.choice([1.0, 6378137.0, 3389.5e3, 6371]))
        kw["r_earth"] = R
    form = ctx.pick("form", ["numpy", "labelled", "list", "mixed"], p=[0.3, 0.45, 0.15, 0.1])
    yn, xn = ctx.pick("names", [("lat", "lon"), ("yh", "xh")])
    la = xr.DataArray(rl, dims=(yn,), coords={yn: rl}, name=yn, attrs={"units": "degrees_north"})
    lo = xr.DataArray(ro, dims=(xn,), coords={xn: ro}, name=xn)
    if form == "labelled":
        args = (la, lo)
    elif form == "numpy":
        args = (rl, ro)
    elif form == "list":
        args = (list(rl), list(ro))
    else:
        args = (la, ro) if rng.random() < 0.5 else (rl, lo)
    got = ctx.call(U.standard_grid_cell_area, *args, **kw)
    lf = lat.astype(float)
    # exact integral over the cell, via the product form of the difference of sines
    z = 2 * np.cos(np.deg2rad(lf)) * np.sin(np.deg2rad(abs(dlat)) / 2)
    exp = R * R * np.outer(z, np.full(nx, np.deg2rad(abs(dlon))))
    f4 = dt == "f4"
    tol = R * R * np.deg2rad(abs(dlon)) * (3e-5 if f4 else 1e-12)
    rt = 1e-2 if f4 else 1e-9
    if f4:
        # float32 labels carry a spacing error of a few 1e-5 degrees
        rt = max(rt, 3e-5 / abs(dlon) + 3e-5 / abs(dlat))
    if form == "labelled":
        ctx.same(got, exp, (yn, xn), "cell area", rtol=rt, atol=tol, coords={yn: rl, xn: ro})
    else:
        ctx.check(isinstance(got, np.ndarray) or isinstance(got, xr.DataArray), "kind of result")
        ctx.close(np.asarray(got), exp, "cell area", rtol=rt, atol=tol)
    if kind == "global" and not f4:
        ctx.close(np.asarray(got).sum(), 4 * np.pi * R * R, "area of the sphere", rtol=1e-9)


def tile(ctx, U):
    rng = ctx.rng
    ny, nx = G.size(ctx, "ny", (1, 12), (50, 200), 0.05), G.size(ctx, "nx", (1, 12), (50, 200), 0.05)
    yn, xn = ctx.pick("names", [("lat", "lon"), ("yh", "xh"), ("y", "x")])
    y, x = G.labels(rng, ny), G.labels(rng, nx)
    if rng.random() < 0.3:
        x = rng.permutation(np.arange(nx) * 3)
    da_y = xr.DataArray(y, dims=(yn,), coords={yn: y}, name=yn)
    da_x = xr.DataArray(x, dims=(xn,), coords={xn: x}, name=xn)
    kw = ctx.pick("warn", [{}, {"warn": True}, {"warn": False}])
    out = ctx.call(U.tile_nominal_coords, da_x, da_y, **kw)
    ctx.check(isinstance(out, tuple) and len(out) == 2, "two fields")
    lon, lat = out
    ctx.same(lon, np.broadcast_to(x[None, :], (ny, nx)), (yn, xn), "longitude field", rtol=0, coords={yn: y, xn: x})
    ctx.same(lat, np.broadcast_to(y[:, None], (ny, nx)), (yn, xn), "latitude field", rtol=0, coords={yn: y, xn: x})
    ctx.check(lon.name == "geolon" and lat.name == "geolat", "names of the fields")
    if rng.random() < 0.1:
        ctx.rejects(U.tile_nominal_coords, x, da_y)
        ctx.rejects(U.tile_nominal_coords, da_x, list(y))

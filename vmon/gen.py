"""Seeded workload generators."""

import cftime
import numpy as np
import xarray as xr

from vmon import oracle as O

OCEAN_AREA = 3.6111092e14


def perm(rng, seq):
    seq = list(seq)
    return [seq[i] for i in rng.permutation(len(seq))]


def rand_chunks(rng, n):
    """a random composition of n"""
    mode = rng.integers(6)
    if n == 0:
        return (0,)
    if mode == 0 or n == 1:
        return (n,)
    if mode == 4:  # one cut
        k = int(rng.integers(1, n))
        return (k, n - k)
    if mode == 5:  # equal pieces and a rest, as xarray.chunk(int) makes them
        k = int(rng.integers(max(1, n // 8), n))
        return (k,) * (n // k) + ((n % k,) if n % k else ())
    if mode == 1 and n <= 12:
        return (1,) * n
    out = []
    left = n
    lo = max(1, n // 12)
    while left:
        c = min(left, int(rng.integers(lo, max(lo, left // 2) + 1)))
        out.append(c)
        left -= c
    return tuple(out)


def chunk(rng, da):
    if not da.dims:
        return da
    # at most about 16 chunks in all: graphs stay small
    spec, budget = {}, 16
    for d in perm(rng, da.dims):
        c = rand_chunks(rng, da.sizes[d])
        if len(c) > budget:
            k = -(-da.sizes[d] // budget)
            c = (k,) * (da.sizes[d] // k) + ((da.sizes[d] % k,) if da.sizes[d] % k else ())
        budget = max(1, budget // max(1, len(c)))
        spec[d] = c
    return da.chunk(spec)


def temperature(ctx, shape, name="T"):
    rng = ctx.rng
    mode = ctx.pick(name, ["typical", "cold", "hot", "wide", "const", "zeros", "ints"],
                    p=[0.4, 0.12, 0.12, 0.15, 0.07, 0.07, 0.07])
    if mode == "typical":
        return rng.normal(15.0, 5.0, shape)
    if mode == "cold":
        return rng.uniform(-2.6, 1.0, shape)
    if mode == "hot":
        return rng.uniform(24.0, 42.0, shape)
    if mode == "wide":
        return rng.uniform(-2.6, 40.0, shape)
    if mode == "const":
        return np.full(shape, float(rng.uniform(-2, 30)))
    if mode == "zeros":
        a = np.array(rng.normal(4.0, 4.0, shape))
        a[rng.random(shape) < 0.4] = 0.0
        return a
    return np.round(rng.uniform(-2, 35, shape))


def salinity(ctx, shape, name="S"):
    rng = ctx.rng
    mode = ctx.pick(name, ["typical", "fresh", "salty", "wide", "const", "zeros", "ints"],
                    p=[0.4, 0.12, 0.12, 0.15, 0.07, 0.07, 0.07])
    if mode == "typical":
        return rng.normal(35.0, 1.5, shape)
    if mode == "fresh":
        return rng.uniform(0.0, 6.0, shape)
    if mode == "salty":
        return rng.uniform(36.0, 44.0, shape)
    if mode == "wide":
        return rng.uniform(0.0, 43.0, shape)
    if mode == "const":
        return np.full(shape, float(rng.uniform(0, 40)))
    if mode == "zeros":
        a = np.array(rng.normal(30.0, 4.0, shape)).clip(0)
        a = np.array(a)
        a[rng.random(shape) < 0.4] = 0.0
        return a
    return np.round(rng.uniform(0, 40, shape))


def pressure(ctx, shape, name="P"):
    rng = ctx.rng
    mode = ctx.pick(name, ["surface", "deep", "wide", "zero", "const"],
                    p=[0.2, 0.2, 0.4, 0.1, 0.1])
    if mode == "surface":
        return rng.uniform(9.0e4, 1.1e5, shape)
    if mode == "deep":
        return rng.uniform(3.0e7, 1.1e8, shape)
    if mode == "wide":
        return rng.uniform(0.0, 1.1e8, shape)
    if mode == "zero":
        return np.zeros(shape)
    return np.full(shape, float(rng.uniform(0, 8e7)))


DTYPES = ["f8", "f4", "i8", "i4"]


def cast(ctx, name, arr, p=(0.7, 0.18, 0.06, 0.06)):
    """casts (rounding integers); returns (array in its dtype, the same values as float64)"""
    dt = ctx.pick(name, DTYPES, p=list(p))
    if dt in ("i8", "i4"):
        if np.isnan(arr).any():
            dt = "f8"
            ctx.features[name] = dt
            return arr.astype(float), arr.astype(float)
        a = np.round(arr).astype(dt)
        return a, a.astype(float)
    a = arr.astype(dt)
    return a, a.astype(float)


def sprinkle_nan(rng, arr, frac):
    a = np.array(arr, dtype=float)
    if frac > 0:
        a[rng.random(a.shape) < frac] = np.nan
    return a


def size(ctx, name, small=(1, 7), big=None, pbig=0.08):
    if big is not None and ctx.rng.random() < pbig:
        n = int(ctx.rng.integers(*big))
    else:
        n = int(ctx.rng.integers(*small))
    ctx.features[name] = n
    return n


LONG = [101, 127, 128, 129, 200, 256, 257, 400, 513, 1001, 1025]


def long_size(rng):
    """the size of an occasional long dimension, around the thresholds code tends to have"""
    return int(rng.choice(LONG))


def labels(rng, n, kind=None):
    """horizontal labels: unique, any order"""
    kind = kind if kind is not None else rng.integers(4)
    if kind == 0:
        return np.arange(n, dtype=float) + 0.5
    if kind == 1:
        return np.sort(rng.uniform(-180, 180, n))
    if kind == 2:
        return np.sort(rng.uniform(-90, 90, n))[::-1].copy()
    return np.arange(n)


def levels(ctx, nz):
    """interfaces and centres"""
    rng = ctx.rng
    mode = ctx.pick("zgrid", ["even", "uneven", "wide", "thin"], p=[0.2, 0.5, 0.2, 0.1])
    if mode == "even":
        th = np.full(nz, float(rng.choice([1.0, 5.0, 10.0, 100.0])))
    elif mode == "uneven":
        th = rng.uniform(1.0, 60.0, nz) * np.linspace(1, 10, nz)
    elif mode == "wide":
        th = rng.uniform(50.0, 1500.0, nz)
    else:
        th = rng.uniform(0.05, 2.0, nz)
    zi = np.concatenate([[0.0], np.cumsum(th)])
    if rng.random() < 0.3:
        zi = np.round(zi * 4) / 4
        for k in range(1, nz + 1):  # keep increasing after rounding
            if zi[k] <= zi[k - 1]:
                zi[k] = zi[k - 1] + 0.25
    if zi[-1] > 11000:
        zi = zi * (11000 / zi[-1])
    if rng.random() < 0.2:
        zl = zi[:-1] + rng.uniform(0.2, 0.8, nz) * np.diff(zi)
    else:
        zl = 0.5 * (zi[1:] + zi[:-1])
    return zi, zl


def bathymetry(ctx, zi, ny, nx):
    rng = ctx.rng
    mode = ctx.pick("bathy", ["mixed", "deep", "shallow", "interfaces", "flat"],
                    p=[0.45, 0.15, 0.1, 0.2, 0.1])
    H = zi[-1]
    if mode == "mixed":
        d = rng.uniform(0.0, 1.2 * H, (ny, nx))
    elif mode == "deep":
        d = rng.uniform(H, 2 * H, (ny, nx))
    elif mode == "shallow":
        d = rng.uniform(0.0, zi[1], (ny, nx))
    elif mode == "interfaces":
        d = rng.choice(zi, (ny, nx))
    else:
        d = np.full((ny, nx), float(rng.uniform(0.1, 1.1) * H))
    d = d.copy()
    if rng.random() < 0.4:
        d[rng.random((ny, nx)) < 0.2] = 0.0
    if rng.random() < 0.4:
        d[rng.random((ny, nx)) < 0.2] = np.nan
    return d


def monthly_axis(rng, start, nyears, cal, stamp="mid"):
    out = []
    for y in range(start, start + nyears):
        for m in range(1, 13):
            nd = O.month_days(y, cal)[m - 1]
            if stamp == "mid":
                out.append(O.mid_month(y, m, cal))
            elif stamp == "first":
                out.append(O.cf(y, m, 1, cal=cal))
            elif stamp == "last":
                out.append(O.cf(y, m, nd, 23, 30, cal=cal))
            else:
                out.append(O.cf(y, m, int(rng.integers(1, nd + 1)), int(rng.integers(0, 24)), cal=cal))
    return out


def daily_axis(start, nyears, cal, hour=12):
    out = []
    for y in range(start, start + nyears):
        for m, nd in enumerate(O.month_days(y, cal), start=1):
            for d in range(1, nd + 1):
                out.append(O.cf(y, m, d, hour, cal=cal))
    return out


def start_year(ctx, cal):
    rng = ctx.rng
    mode = ctx.pick("epoch", ["modern", "leap", "century", "far_past", "future", "1970"],
                    p=[0.3, 0.25, 0.1, 0.15, 0.15, 0.05])
    if mode == "modern":
        y = int(rng.integers(1950, 2060))
    elif mode == "leap":
        y = int(rng.choice([1980, 1996, 2000, 2004, 1999, 1979]))
    elif mode == "century":
        y = int(rng.choice([1899, 1900, 2099, 2100]))
    elif mode == "far_past":
        y = int(rng.choice([1, 2, 9, 98, 99, 100, 850, 998, 999, 1300, 1700, 1850]))
    elif mode == "future":
        y = int(rng.choice([2150, 2299, 3000, 5000]))
    else:
        y = int(rng.choice([1968, 1969, 1970, 1971]))
    if cal in ("standard", "gregorian") and 1560 < y < 1590:
        y = 1700
    return y


def obj_time(vals):
    a = np.empty(len(vals), dtype=object)
    a[:] = vals
    return a


TATTRS = {"long_name": "time", "cartesian_axis": "T"}

NAMESETS = [
    {"t": "time", "z": "z_l", "zi": "z_i", "y": "yh", "x": "xh"},
    {"t": "time", "z": "z_l", "zi": "z_i", "y": "lat", "x": "lon"},
    {"t": "Time", "z": "lev", "zi": "lev_bnds1", "y": "j", "x": "i"},
    {"t": "year", "z": "depth_c", "zi": "depth_i", "y": "y", "x": "x"},
    {"t": "t", "z": "z", "zi": "zi", "y": "eta", "x": "xi"},
]


class Ocean:
    """A generated ocean state with its plain arrays in (t, z, y, x) order."""

    def __init__(self, ctx, annual=False, minxy=1, names="any", mask="any", big=True,
                 nt=None, dtypes=True, chunks=None, nz=None, permute=None):
        rng = ctx.rng
        self.ctx = ctx
        self.names = NAMESETS[0] if names == "default" else NAMESETS[
            int(rng.choice(len(NAMESETS), p=[0.5, 0.14, 0.12, 0.12, 0.12]))]
        ctx.features["names"] = self.names["t"] + "/" + self.names["z"]
        self.nz = nz or size(ctx, "nz", (1, 7), (20, 60) if big else None)
        self.ny = size(ctx, "ny", (minxy, 6), (20, 40) if big else None, 0.04)
        self.nx = size(ctx, "nx", (minxy, 6), (20, 40) if big else None, 0.04)
        # now and then one dimension is long (thresholds on a size) and the others short
        long = str(rng.choice(["z", "y", "x", "t"])) if big and rng.random() < 0.05 else None
        if long is not None:
            ctx.features["long"] = long
            m = long_size(rng)
            self.nz = nz or (m if long == "z" else min(self.nz, 3))
            self.ny = m if long == "y" else min(self.ny, 3)
            self.nx = m if long == "x" else min(self.nx, 3)
            if long == "t" and nt is None:
                nt = m
            elif nt is None:
                nt = int(rng.integers(1, 4))
        # ---- time
        if annual:
            self.cal = ctx.pick("calendar", O.CALENDARS)
            y0 = start_year(ctx, self.cal)
            ny = int(rng.integers(1, 4))
            if max(self.nz, self.ny, self.nx) < 10 and rng.random() < 0.08:
                ny = int(rng.integers(5, 32))
            stamp = ctx.pick("stamp", ["mid", "first", "last", "any"])
            self.tvals = obj_time(monthly_axis(rng, y0, ny, self.cal, stamp))
            self.y0, self.nyears = y0, ny
            self.nt = len(self.tvals)
        else:
            self.nt = nt or size(ctx, "nt", (1, 7), (30, 60) if big else None)
            kind = ctx.pick("taxis", ["int", "float", "cftime", "datetime64", "none"])
            if kind == "int":
                self.tvals = np.arange(self.nt) + int(rng.integers(0, 5))
            elif kind == "float":
                self.tvals = np.cumsum(rng.uniform(0.5, 30, self.nt))
            elif kind == "cftime":
                self.cal = ctx.pick("calendar", O.CALENDARS)
                ax = monthly_axis(rng, start_year(ctx, self.cal), self.nt // 12 + 1, self.cal)
                self.tvals = obj_time(ax[: self.nt])
            elif kind == "datetime64":
                self.tvals = np.datetime64(f"{int(rng.choice([1681, 1899, 1969, 1981, 1999, 2024, 2100]))}-01-16", "ns") + np.arange(
                    self.nt) * np.timedelta64(30, "D").astype("timedelta64[ns]")
            else:
                self.tvals = None
        # ---- grid
        self.zi, self.zl = levels(ctx, self.nz)
        self.xl = labels(rng, self.nx)
        self.yl = labels(rng, self.ny)
        if big:
            for k in ("xl", "yl"):
                r = rng.random()
                v = getattr(self, k)
                if r < 0.08:
                    v = rng.permutation(v)
                elif r < 0.12:
                    v = np.array([f"s{i:04d}" for i in rng.permutation(len(v))])
                setattr(self, k, v)
        self.depth = bathymetry(ctx, self.zi, self.ny, self.nx)
        area = rng.uniform(0.2, 1.0, (self.ny, self.nx))
        self.area = area / area.sum() * OCEAN_AREA * (1 + rng.uniform(-0.015, 0.015))
        shape = (self.nt, self.nz, self.ny, self.nx)
        self.shape = shape
        T = temperature(ctx, shape)
        S = salinity(ctx, shape)
        V = rng.uniform(0.3, 3.0, shape) * 1e12
        if big and ctx.flip("still", 0.06):
            # nothing changes but one cell at one time
            T[:], S[:] = T[:1], S[:1]
            at = tuple(int(rng.integers(n)) for n in shape)
            T[at] = np.clip(T[at] + rng.uniform(5, 12), -2, 40)
        vmode = ctx.pick("vol", ["random", "steady", "zeros", "small", "huge"], p=[0.45, 0.25, 0.15, 0.1, 0.05])
        if vmode == "steady":
            V[:] = V[0]
        elif vmode == "zeros":
            V[:, rng.random(shape[1:]) < 0.2] = 0.0
            V[:, 0, 0, 0] = 1e12
        elif vmode == "small":
            V *= 1e-9
        elif vmode == "huge":
            V *= 1e12
        # ---- masks
        mk = mask if mask != "any" else ctx.pick(
            "mask", ["none", "columns", "floor", "vol", "ts", "gaps", "surface", "drift", "slab"],
            p=[0.2, 0.15, 0.2, 0.1, 0.1, 0.08, 0.06, 0.06, 0.05])
        self.mask = mk
        if mk == "columns":
            dry = rng.random((self.ny, self.nx)) < 0.35
            dry[0, 0] = False
            for a in (T, S, V):
                a[:, :, dry] = np.nan
            self.depth[dry] = rng.choice([np.nan, 0.0])
            self.area[dry] = np.nan
            self.area *= OCEAN_AREA / np.nansum(self.area)
        elif mk == "floor":
            below = self.zi[:-1, None, None] >= np.nan_to_num(self.depth, nan=0.0)[None]
            below[:, 0, 0] = False
            for a in (T, S, V):
                a[:, below] = np.nan
        elif mk == "vol":
            b = rng.random(shape[1:]) < 0.25
            b[:, 0, 0] = False
            V[:, b] = np.nan
        elif mk == "ts":
            T[rng.random(shape) < 0.12] = np.nan
            S[rng.random(shape) < 0.12] = np.nan
            T[:, 0, 0, 0] = 10.0
            S[:, 0, 0, 0] = 35.0
        elif mk == "slab":
            # a whole row or column of land, first or last
            if max(self.ny, self.nx) > 1:
                ax = 2 if self.nx == 1 or (self.ny > 1 and rng.random() < 0.5) else 3
                at = [slice(None)] * 4
                at[ax] = int(rng.choice([0, -1]))
                for a in (T, S, V):
                    a[tuple(at)] = np.nan
                self.depth[tuple(at[2:])] = rng.choice([np.nan, 0.0])
                self.area[tuple(at[2:])] = np.nan
                self.area *= OCEAN_AREA / np.nansum(self.area)
        elif mk == "gaps":
            if self.nz > 1:
                b = rng.random((self.nz - 1, self.ny, self.nx)) < 0.3
                b[:, 0, 0] = False
                V[:, 1:][:, b] = np.nan
        elif mk == "surface":
            b = rng.random((self.ny, self.nx)) < 0.4
            b[0, 0] = False
            V[:, 0][:, b] = np.nan
        elif mk == "drift":
            V[rng.random(shape) < 0.15] = np.nan
            V[:, 0, 0, 0] = 1e12
        # ---- dtypes
        self.raw = {}
        self.f4 = False
        for n, a in (("thetao", T), ("so", S), ("volcello", V)):
            if dtypes and n != "volcello":
                raw, f = cast(ctx, "dt_" + n, a, p=(0.78, 0.12, 0.05, 0.05))
            elif dtypes and rng.random() < 0.1:
                raw = a.astype("f4")
                f = raw.astype(float)
            elif dtypes and np.isfinite(a).all() and rng.random() < 0.12:
                # counted in units small enough to make whole numbers, and few of them
                a = np.round(a / np.max(a) * float(rng.choice([50.0, 1e4, 1e9])))
                raw, f = a.astype("i8"), a
                if not f.reshape(len(f), -1).sum(axis=1).all():
                    raw = f = np.ones_like(a)
            else:
                raw, f = a, a
            if raw.dtype == np.float32:
                self.f4 = True
            self.raw[n] = raw
            setattr(self, {"thetao": "T", "so": "S", "volcello": "V"}[n], f)
        # ---- types of the static fields
        self.static = {}
        if dtypes and rng.random() < 0.15:
            kind = ctx.pick("static", ["depth i8", "depth f4", "zi f4", "zi i8", "area f4"])
            what, ty = kind.split()
            a = {"depth": self.depth, "zi": self.zi, "area": self.area}[what]
            if ty == "i8":
                a = np.round(np.nan_to_num(a))
            if what == "zi" and (np.diff(a.astype(ty)) <= 0).any():
                ty = "f8"
            if ty != "f8":
                raw = a.astype(ty)
                self.static[what] = ty
                self.f4 = self.f4 or kind in ("zi f4", "area f4")
                setattr(self, what, raw.astype(float))
        self.permute = bool(rng.random() < 0.45) if permute is None else permute
        ctx.features["permuted"] = self.permute
        if chunks is None:
            self.lazy = ctx.flip("lazy", 0.2)
        else:
            self.lazy = chunks

    def coord_names(self):
        n = self.names
        if n["t"] == "time" and n["z"] == "z_l" and n["zi"] == "z_i":
            if self.ctx.rng.random() < 0.7:
                return None
        m = {"t": n["t"], "z": n["z"], "zbounds": n["zi"]}
        r = self.ctx.rng.random()
        if r < 0.35:
            # only what differs from the defaults
            m = {k: v for k, v in m.items() if v != {"t": "time", "z": "z_l", "zbounds": "z_i"}[k]}
        elif r < 0.6:
            m.update(x=n["x"], y=n["y"])
        return m

    def coords(self):
        n = self.names
        return {n["t"]: self.tvals, n["z"]: self.zl, n["y"]: self.yl, n["x"]: self.xl}

    @property
    def dims(self):
        n = self.names
        return (n["t"], n["z"], n["y"], n["x"])

    def var(self, arr, dims, name=None):
        """builds one variable with a random layout"""
        rng = self.ctx.rng
        c = {d: v for d, v in self.coords().items() if d in dims and v is not None}
        da = xr.DataArray(arr, dims=dims, coords=c, name=name)
        if self.permute:
            da = da.transpose(*perm(rng, dims))
        if self.lazy:
            da = chunk(rng, da)
        return da

    def typed(self, what):
        """a static field in the type it is stored in"""
        a, ty = getattr(self, what), getattr(self, "static", {}).get(what)
        if ty is None or not np.isfinite(a).all() and ty == "i8" or not np.array_equal(a.astype(ty).astype(float), a, equal_nan=True):
            return a
        return a.astype(ty)

    def dataset(self, deptho=True):
        rng = self.ctx.rng
        n = self.names
        ds = xr.Dataset()
        for v in ("thetao", "so", "volcello"):
            ds[v] = self.var(self.raw[v], self.dims, v)
        ds["areacello"] = self.var(self.typed("area"), (n["y"], n["x"]))
        if deptho:
            ds["deptho"] = self.var(self.typed("depth"), (n["y"], n["x"]))
        ds = ds.assign_coords({n["zi"]: self.typed("zi")})
        for k, u in (("thetao", "degC"), ("so", "psu"), ("volcello", "m3"), ("areacello", "m2")):
            ds[k].attrs = {"units": u, "long_name": "field " + k}
        for c in ds.coords:
            ds[c].attrs = {"long_name": f"axis {c}", "note": "kept"}
        if rng.random() < 0.25:
            ds = ds.assign_coords(
                geolon=((n["y"], n["x"]), rng.uniform(-180, 180, (self.ny, self.nx))),
                geolat=((n["y"], n["x"]), rng.uniform(-90, 90, (self.ny, self.nx))),
            )
        if rng.random() < 0.25:
            ds["extra_static"] = ((n["y"], n["x"]), rng.normal(size=(self.ny, self.nx)))
            ds["extra_1d"] = ((n["x"],), rng.normal(size=self.nx))
        ds.attrs["title"] = "generated"
        return ds

    # -------- oracle values, canonical (t, z, y, x)
    def pres(self, patm):
        p = self.zl[:, None, None] * 1.0e4
        return p + np.asarray(patm)  # scalar or (y, x)

    @property
    def rho_tol(self):
        return 6e-3 if self.f4 else 1e-9

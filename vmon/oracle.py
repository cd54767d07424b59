"""Independent reference formulas on plain numpy arrays.  Never imports momlevel."""

import math

import cftime
import numpy as np

# ---------------------------------------------------------------- equations of state

# Wright (1997), reduced-range fit, J. Atmos. Ocean. Tech. 14, 735-740 (as used by MOM6)
_WA = (7.057924e-4, 3.480336e-7, -1.112733e-7)
_WB = (5.790749e8, 3.516535e6, -4.002714e4, 2.084372e2, 5.944068e5, -9.643486e3)
_WC = (1.704853e5, 7.904722e2, -7.984422, 5.140652e-2, -2.302158e2, -3.079464)


def _wright_parts(T, S):
    a = _WA[0] + _WA[1] * T + _WA[2] * S
    b = _WB[0] + _WB[1] * T + _WB[2] * T**2 + _WB[3] * T**3 + _WB[4] * S + _WB[5] * S * T
    c = _WC[0] + _WC[1] * T + _WC[2] * T**2 + _WC[3] * T**3 + _WC[4] * S + _WC[5] * S * T
    return a, b, c


def _wright_any(T, S, p):
    a, b, c = _wright_parts(T, S)
    return 1.0 / (a + c / (p + b))


def _f(x):
    return np.asarray(x, dtype=float)


def rho_wright(T, S, p):
    T, S, p = np.broadcast_arrays(_f(T), _f(S), _f(p))
    return np.asarray(_wright_any(T, S, p))


_H = 1e-20


def drho_dt_wright(T, S, p):
    """complex-step derivative of the density formula (exact to rounding)"""
    T, S, p = np.broadcast_arrays(_f(T), _f(S), _f(p))
    return np.asarray(np.imag(_wright_any(T + 1j * _H, S + 0j, p + 0j)) / _H)


def drho_ds_wright(T, S, p):
    T, S, p = np.broadcast_arrays(_f(T), _f(S), _f(p))
    return np.asarray(np.imag(_wright_any(T + 0j, S + 1j * _H, p + 0j)) / _H)


def rho_linear(T, S, p=None):
    if p is None:
        T, S = np.broadcast_arrays(_f(T), _f(S))
    else:
        T, S, p = np.broadcast_arrays(_f(T), _f(S), _f(p))
        # an absent pressure does not make density missing in the linear equation of state
    return np.asarray(1000.0 - 0.2 * T + 0.8 * S)


def rho(eos, T, S, p):
    return rho_wright(T, S, p) if eos.lower() == "wright" else rho_linear(T, S, p)


def drho_dt(eos, T, S, p):
    if eos.lower() == "wright":
        return drho_dt_wright(T, S, p)
    return np.full(np.broadcast(_f(T), _f(S), _f(p)).shape, -0.2)


def drho_ds(eos, T, S, p):
    if eos.lower() == "wright":
        return drho_ds_wright(T, S, p)
    return np.full(np.broadcast(_f(T), _f(S), _f(p)).shape, 0.8)


def alpha(eos, T, S, p):
    return -drho_dt(eos, T, S, p) / rho(eos, T, S, p)


def beta(eos, T, S, p):
    return drho_ds(eos, T, S, p) / rho(eos, T, S, p)


# ---------------------------------------------------------------- spiciness (Flament 2002)

_SPICE = {
    0: [0.0, 7.7442e-1, -5.85e-3, -9.84e-4, -2.06e-4],
    1: [5.1655e-2, 2.034e-3, -2.742e-4, -8.5e-6, 1.36e-5],
    2: [6.64783e-3, -2.4681e-4, -1.428e-5, 3.337e-5, 7.894e-6],
    3: [-5.4023e-5, 7.326e-6, 7.0036e-6, -3.0412e-6, -1.0853e-6],
    4: [3.949e-7, -3.029e-8, -3.8209e-7, 1.0012e-7, 4.7133e-8],
    5: [-6.36e-10, -1.309e-9, 6.048e-9, -1.1409e-9, -6.676e-10],
}


def spice(T, S):
    """returns (value, sum of absolute terms)"""
    T, S = np.broadcast_arrays(_f(T), _f(S))
    s = S - 35.0
    out = np.zeros(T.shape)
    mag = np.zeros(T.shape)
    for i in range(5, -1, -1):
        row = np.zeros(T.shape)
        rmag = np.zeros(T.shape)
        for j in range(4, -1, -1):
            row = row * s + _SPICE[i][j]
            rmag = rmag * np.abs(s) + abs(_SPICE[i][j])
        out = out * T + row
        mag = mag * np.abs(T) + rmag
    return out, mag


# ---------------------------------------------------------------- layers


def dz(zi, depth, top=0.0, bottom=None):
    """(z, ...) thickness of each cell between max(top) and min(floor, bottom)"""
    zi = _f(zi)
    d = np.nan_to_num(_f(depth), nan=0.0)
    if bottom is not None:
        d = np.minimum(d, bottom)
    out = np.empty((len(zi) - 1,) + d.shape)
    for k in range(len(zi) - 1):
        up = max(zi[k], top)
        out[k] = np.maximum(0.0, np.minimum(zi[k + 1], d) - up)
    return out


def dz_legacy(zi, depth, top=0.0, bottom=None):
    """what the shipped code gives when top and floor cut the same cell (known finding)"""
    zi = _f(zi)
    d = np.nan_to_num(_f(depth), nan=0.0)
    if bottom is not None:
        d = np.minimum(d, bottom)
    out = np.empty((len(zi) - 1,) + d.shape)
    for k in range(len(zi) - 1):
        a = np.maximum(0.0, d - zi[k])
        b = max(0.0, zi[k + 1] - top)
        out[k] = np.minimum(np.minimum(a, zi[k + 1] - zi[k]), b)
    return out


def gradient2(f, z):
    """second-order derivative along axis 0 on an uneven axis, one-sided at the ends"""
    f = _f(f)
    z = _f(z)
    n = len(z)
    out = np.empty_like(f)

    def lagr(i0, i1, i2, at):
        x0, x1, x2, x = z[i0], z[i1], z[i2], z[at]
        w0 = (2 * x - x1 - x2) / ((x0 - x1) * (x0 - x2))
        w1 = (2 * x - x0 - x2) / ((x1 - x0) * (x1 - x2))
        w2 = (2 * x - x0 - x1) / ((x2 - x0) * (x2 - x1))
        idx = (i0, i1, i2)
        w = (w0, w1, w2)
        # a weight that is exactly zero does not propagate missing values in central differences
        r = 0.0
        for i, wi in zip(idx, w):
            r = r + wi * f[i]
        return r

    for k in range(n):
        if k == 0:
            out[k] = lagr(0, 1, 2, 0)
        elif k == n - 1:
            out[k] = lagr(n - 3, n - 2, n - 1, n - 1)
        else:
            out[k] = lagr(k - 1, k, k + 1, k)
    return out


# ---------------------------------------------------------------- calendars

CALENDARS = [
    "noleap", "365_day", "standard", "gregorian", "proleptic_gregorian",
    "julian", "all_leap", "366_day", "360_day",
]


def is_leap(year, cal):
    if cal in ("noleap", "365_day", "360_day"):
        return False
    if cal in ("all_leap", "366_day"):
        return True
    if cal == "julian" or (cal in ("standard", "gregorian") and year < 1582):
        return year % 4 == 0
    return year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)


def month_days(year, cal):
    if cal == "360_day":
        return [30] * 12
    d = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    if is_leap(year, cal):
        d[1] = 29
    return d


def year_days(year, cal):
    return sum(month_days(year, cal))


# the classes that decoding a file gives
_CF = {
    "noleap": cftime.DatetimeNoLeap, "365_day": cftime.DatetimeNoLeap,
    "standard": cftime.DatetimeGregorian, "gregorian": cftime.DatetimeGregorian,
    "proleptic_gregorian": cftime.DatetimeProlepticGregorian, "julian": cftime.DatetimeJulian,
    "all_leap": cftime.DatetimeAllLeap, "366_day": cftime.DatetimeAllLeap,
    "360_day": cftime.Datetime360Day,
}


def cf(y, m, d, h=0, mi=0, cal="noleap"):
    return _CF[cal](y, m, d, h, mi)


def mid(a, b):
    return a + (b - a) / 2


def mid_year(y, cal):
    return mid(cf(y, 1, 1, cal=cal), cf(y + 1, 1, 1, cal=cal))


def mid_month(y, m, cal):
    y2, m2 = (y, m + 1) if m < 12 else (y + 1, 1)
    return mid(cf(y, m, 1, cal=cal), cf(y2, m2, 1, cal=cal))


# ---------------------------------------------------------------- least squares


def ols(t, y):
    """slope and mean-centred fit of each column of y (n, m) on t (n,), ignoring NaN"""
    t = np.asarray(t, dtype=np.longdouble)
    y = np.asarray(y, dtype=np.longdouble)
    m = y.shape[1]
    slope = np.full(m, np.nan, dtype=np.longdouble)
    tb = np.full(m, np.nan, dtype=np.longdouble)
    yb = np.full(m, np.nan, dtype=np.longdouble)
    for j in range(m):
        ok = ~np.isnan(y[:, j])
        if ok.sum() < 1:
            continue
        tt, yy = t[ok], y[ok, j]
        tb[j] = tt.mean()
        yb[j] = yy.mean()
        den = ((tt - tb[j]) ** 2).sum()
        slope[j] = ((tt - tb[j]) * (yy - yb[j])).sum() / den if den > 0 else np.nan
    return slope, tb, yb


def harmonic_matrix(td):
    td = np.asarray(td, dtype=float)
    return np.stack(
        [
            np.ones(len(td)),
            td - td.mean(),
            np.sin(2 * np.pi * td),
            np.cos(2 * np.pi * td),
            np.sin(4 * np.pi * td),
            np.cos(4 * np.pi * td),
        ],
        axis=1,
    )


# ---------------------------------------------------------------- sphere


def haversine_km(lat1, lon1, lat2, lon2, r):
    """great-circle distance via 3-D chord (independent of the haversine formula)"""
    la1, lo1, la2, lo2 = (np.deg2rad(_f(x)) for x in (lat1, lon1, lat2, lon2))
    x = np.cos(la1) * np.cos(lo1) - np.cos(la2) * np.cos(lo2)
    y = np.cos(la1) * np.sin(lo1) - np.cos(la2) * np.sin(lo2)
    z = np.sin(la1) - np.sin(la2)
    c = np.sqrt(x * x + y * y + z * z)
    return 2.0 * r * np.arcsin(np.clip(c / 2.0, 0.0, 1.0))


NS = {
    "ns": 1.0,
    "s": 1e9,
    "min": 60e9,
    "hr": 3600e9,
    "day": 86400e9,
}


def unit_ns(u, dpm=30.417, dpy=365.0):
    if u == "mon":
        return NS["day"] * dpm
    if u == "yr":
        return NS["day"] * dpy
    return NS[u]

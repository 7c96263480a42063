"""Reference definitions of trends and seasonal fits."""
import cftime
import numpy as np
import pandas as pd
import xarray as xr
from xarray.core.missing import get_clean_interp_index

from momlevel.trend import broadcast_trend, calc_linear_trend, linear_detrend

SECONDS = {"ns": 1.0e-9, "s": 1.0, "min": 60.0, "hr": 3600.0, "day": 86400.0}


def length(unit, days_per_month, days_per_year):
    if unit == "mon":
        return 86400.0 * days_per_month
    if unit == "yr":
        return 86400.0 * days_per_year
    return SECONDS[unit]


def factor(src, dst, days_per_month, days_per_year):
    return length(src, days_per_month, days_per_year) / length(dst, days_per_month, days_per_year)


def factor_default(src, dst):
    return factor(src, dst, 30.417, 365.0)


def cf_axis(x, dim):
    return isinstance(x.indexes[dim], xr.CFTimeIndex)


def np_axis(x, dim):
    return isinstance(x.indexes[dim], pd.DatetimeIndex)


def coeff(x, dim, degree):
    return x.polyfit(dim, 1).polyfit_coefficients.sel(degree=degree)


def per_unit(x, dim, unit):
    return coeff(x, dim, 1) * (length(unit, 30.417, 365.0) / 1.0e-9)


def per_step(x, dim):
    return coeff(x, dim, 1)


def intercept(x, dim):
    return coeff(x, dim, 0)


def axis_of(d, name):
    """Elapsed time in nanoseconds, or the coordinate itself"""
    return xr.DataArray(get_clean_interp_index(d, name), coords={name: d})


def line(slope, d):
    return slope * axis_of(d, d.dims[0])


def line_from_zero(slope, d):
    r = line(slope, d)
    return r - r.isel({d.dims[0]: 0})


def line_in(slope, d, unit):
    return line(slope, d) * (1.0e-9 / length(unit, 30.417, 365.0))


# ---- the code, with a slope that carries a given unit
def labelled(slope, d, units):
    return broadcast_trend(slope.assign_attrs({"units": units}), d)


def unlabelled(slope, d):
    slope = slope.assign_attrs({})
    slope.attrs = {}
    return broadcast_trend(slope, d)


def labelled_from_zero(slope, d, units):
    return broadcast_trend(slope.assign_attrs({"units": units}), d, subtract_time_zero=True)


def there_and_back(x, dim, unit, units):
    x = x.assign_attrs({"units": units})
    t = calc_linear_trend(x, dim=dim, time_units=unit)
    return broadcast_trend(t[f"{x.name}_slope"], x[dim])


def there_and_back_unlabelled(x, dim, unit):
    x = x.assign_attrs({})
    x.attrs = {}
    t = calc_linear_trend(x, dim=dim, time_units=unit)
    return broadcast_trend(t[f"{x.name}_slope"], x[dim])


def back(x, dim):
    return coeff(x, dim, 1) * axis_of(x[dim], dim)


def slope_label(x, dim, unit, units):
    x = x.assign_attrs({"units": units})
    return calc_linear_trend(x, dim=dim, time_units=unit)[f"{x.name}_slope"].attrs["units"]


# ---- detrending
def detrended(x, dim, mode, units):
    return linear_detrend(x.assign_attrs({"units": units}), dim=dim, mode=mode)


def remove(x, dim):
    return x - (coeff(x, dim, 1) * axis_of(x[dim], dim) + coeff(x, dim, 0))


def correct(x, dim):
    return x - coeff(x, dim, 1) * axis_of(x[dim], dim)


def each_remove(x, dim):
    return xr.Dataset({v: remove(x[v], dim) if dim in x[v].dims else x[v] for v in x.data_vars})


def each_correct(x, dim):
    return xr.Dataset({v: correct(x[v], dim) if dim in x[v].dims else x[v] for v in x.data_vars})


# ---- seasonal fit
def terms(time):
    return np.array([
        np.ones(len(time)), time - np.mean(time), np.sin(2 * np.pi * time), np.cos(2 * np.pi * time),
        np.sin(4 * np.pi * time), np.cos(4 * np.pi * time),
    ])


def fit(ts, time):
    m = terms(time)
    c = np.dot(ts, np.linalg.pinv(m))
    s = np.dot(c, m)
    return c, ts - s, s


def cycle(ts, daysinyear):
    steps = np.ones(ts.shape[0]) / daysinyear
    return fit(ts, np.cumsum(steps) - steps)


def cycle_default(ts):
    return cycle(ts, 365.0)


def year_lengths(time):
    calendar = time.dt.calendar
    if calendar == "360_day":
        return np.full(len(time), 360)
    return np.array([366 if cftime.is_leap_year(y, calendar) else 365 for y in time.dt.year.values])


def seasonal(x, tdim):
    x = x.reset_coords(drop=True)
    t = x[tdim]
    time = t.dt.year + (t.dt.dayofyear - 1 + t.dt.hour / 24) / year_lengths(t)
    m = terms(time)
    model = xr.DataArray(m, dims=["coeff", tdim], coords={tdim: t})
    inverse = xr.DataArray(np.linalg.pinv(m), dims=[tdim, "coeff"], coords={tdim: t})
    c = inverse.dot(x, dims=tdim)
    s = model.dot(c, dims="coeff")
    return s, x - s

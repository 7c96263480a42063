"""Reference definitions of the time averages."""
import xarray as xr
from momlevel.steric import steric
from momlevel.util import annual_average

SKIPPED = ("object", "timedelta64[ns]")


def numeric(ds):
    names = set(ds.variables) - set(ds.dims).union(set(ds.coords))
    return ds[[v for v in names if ds[v].dtype not in SKIPPED]]


def calendar_of(x, tc):
    return x[tc].dt.calendar


def edges(year, freq, periods, calendar):
    return xr.cftime_range(str(year).zfill(4) + "-01-01", freq=freq, periods=periods, calendar=calendar)


def year_middle(year, calendar):
    e = edges(year, "YS", 2, calendar)
    return e[0] + (e[1] - e[0]) / 2


def month_middles(year, calendar):
    e = edges(year, "MS", 13, calendar)
    return [e[i] + (e[i + 1] - e[i]) / 2 for i in range(12)]


def annual_of(data, x, tc):
    years = data.groupby(f"{tc}.year")
    means = []
    stamps = []
    for y in sorted(years.groups.keys()):
        one = years[y]
        if len(one[tc]) != 12:
            raise ValueError
        means.append(one.weighted(one[tc].dt.days_in_month).mean(tc))
        stamps.append(year_middle(y, calendar_of(x, tc)))
    return xr.concat(means, dim=tc).assign_coords({tc: stamps})


def monthly_of(data, x, tc):
    years = data.groupby(f"{tc}.year")
    parts = []
    for y in sorted(years.groups.keys()):
        one = years[y].groupby(f"{tc}.month").mean(tc).rename({"month": tc})
        parts.append(one.assign_coords({tc: month_middles(y, calendar_of(x, tc))}))
    return xr.concat(parts, dim=tc)


def cycle_of(data, x, tc, func, year):
    months = data.groupby(f"{tc}.month")
    if func == "mean":
        one = months.mean(tc)
    elif func == "min":
        one = months.min(tc)
    elif func == "max":
        one = months.max(tc)
    elif func == "std":
        one = months.std(tc)
    return one.rename({"month": tc}).assign_coords({tc: month_middles(year, calendar_of(x, tc))})


def mid_year(x, tc):
    first, last = x[tc].values[0], x[tc].values[-1]
    return (first + (last - first) / 2).year


def annual_array(x, tc):
    return annual_of(x, x, tc)


def annual_dataset(x, tc):
    return annual_of(numeric(x), x, tc)


def monthly_array(x, tc):
    return monthly_of(x, x, tc)


def monthly_dataset(x, tc):
    return monthly_of(numeric(x), x, tc)


def cycle_array(x, tc, func):
    return cycle_of(x, x, tc, func, mid_year(x, tc))


def cycle_dataset(x, tc, func):
    return cycle_of(numeric(x), x, tc, func, mid_year(x, tc))


def cycle_array_in(x, tc, func, year):
    return cycle_of(x, x, tc, func, int(year))


def cycle_dataset_in(x, tc, func, year):
    return cycle_of(numeric(x), x, tc, func, int(year))


def annual_steric(dset, tcoord, **options):
    result, reference = steric(dset, **options)
    return annual_average(result, tcoord=tcoord), reference

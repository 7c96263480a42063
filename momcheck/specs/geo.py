"""Reference definitions: which model point a location is mapped to."""
import numpy as np
import pandas as pd
import xarray as xr
from importlib_resources import files
from sklearn.neighbors import BallTree

from momlevel.util import geolocate_points


def candidates(model, mask):
    if mask:
        if "mask" in model.columns:
            return model[model["mask"] == 1.0]
    return model


def search(model, locs, mcoords, lcoords, mask):
    (my, mx), (ly, lx) = mcoords, lcoords
    pts = candidates(model, mask)
    rad = np.pi / 180.0
    pts["y"] = pts[my] * rad
    pts["x"] = pts[mx] * rad
    locs = locs.copy()
    locs["y"] = locs[ly] * rad
    locs["x"] = locs[lx] * rad
    tree = BallTree(pts[["y", "x"]].values, metric="haversine")
    return pts, tree.query(locs[["y", "x"]].values, k=1)


def kept(model, locs, mcoords, lcoords, radius, threshold, mask):
    pts, (d, i) = search(model, locs, mcoords, lcoords, mask)
    table = locs.copy()
    table["distance"] = d * radius
    table["point"] = i
    if threshold is not None:
        table = table[table["distance"] <= threshold]
    return table, pts.iloc[table["point"].values]


def distance(*a):
    return kept(*a)[0]["distance"]


def names(*a):
    return kept(*a)[0]["name"]


def dim_vals(*a):
    return list(kept(*a)[1].index)


def model_coords(model, locs, mcoords, *a):
    pts = kept(model, locs, mcoords, *a)[1]
    return list(zip(pts[mcoords[0]].values, pts[mcoords[1]].values))


def real_coords(model, locs, mcoords, lcoords, *a):
    t = kept(model, locs, mcoords, lcoords, *a)[0]
    return list(zip(t[lcoords[0]].values, t[lcoords[1]].values))


def dropped(model, locs, mcoords, lcoords, radius, threshold, mask):
    pts, (d, i) = search(model, locs, mcoords, lcoords, mask)
    return d * radius > threshold


# ------------------------------------------------------------- extraction
def points(x, xc, yc, mask):
    """The model points of an array"""
    return pd.concat([xc.to_dataframe(), yc.to_dataframe(), mask.rename("mask").to_dataframe()], axis=1)


def mapped(x, xc, yc, mask, path, threshold, quiet):
    locs = pd.read_csv(path).rename(columns={"PSMSL_site": "name"})
    return geolocate_points(points(x, xc, yc, mask), locs, threshold=threshold, model_coords=(yc.name, xc.name), disable_warning=quiet)


def everywhere(xc):
    return xr.ones_like(xc)


def given(mask):
    return mask.fillna(0.0)


def series(x, xc, yc, mask, path, threshold, quiet):
    out = {}
    for _, row in mapped(x, xc, yc, mask, path, threshold, quiet).iterrows():
        out[row["name"]] = x.sel(**dict(zip(xc.dims, row["dim_vals"])))
    return xr.Dataset(out)


def all_points(x, xc, yc, path, threshold, quiet):
    return series(x, xc, yc, everywhere(xc), path, threshold, quiet)


def masked(x, xc, yc, mask, path, threshold, quiet):
    return series(x, xc, yc, given(mask), path, threshold, quiet)


def table(name):
    return str(files("momlevel.resources") / name)


def given_coord(c):
    return c


def tiled(xc, yc):
    """x varies along x only, y along y only"""
    xx, yy = np.meshgrid(xc, yc)
    dims, coords = (yc.name, xc.name), {yc.name: yc, xc.name: xc}
    return xr.DataArray(xx, dims=dims, coords=coords, name="geolon"), xr.DataArray(yy, dims=dims, coords=coords, name="geolat")


def all_points_1d(x, xc, yc, path, threshold, quiet):
    xx, yy = tiled(xc, yc)
    return all_points(x, xx, yy, path, threshold, quiet)


def masked_1d(x, xc, yc, mask, path, threshold, quiet):
    xx, yy = tiled(xc, yc)
    return masked(x, xx, yy, mask, path, threshold, quiet)


# -------------------------------------------------------------- cell area
def area_values(lat, lon, r):
    y, x = np.array(lat)[:, None], np.array(lon)[None, :]
    dy, dx = np.array(lat)[1] - np.array(lat)[0], np.array(lon)[1] - np.array(lon)[0]
    rad = np.pi / 180.0
    return r * r * rad * np.abs(dx) * np.abs(np.sin((y + dy / 2) * rad) - np.sin((y - dy / 2) * rad))


def area(lat, lon, r):
    i, j = lat.dims[0], lon.dims[0]
    return xr.DataArray(area_values(lat, lon, r), dims=(i, j), coords={i: lat.coords[i], j: lon.coords[j]})

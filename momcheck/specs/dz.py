"""Reference definitions: layer thickness"""
import numpy as np
import xarray as xr


def overlap(ztop, zbot, depth, top, bottom):
    """length of the intersection of [ztop, zbot], [0, depth] and [top, bottom]"""
    depth = depth.fillna(0.0)
    return np.maximum(0.0, np.minimum(np.minimum(zbot, depth), bottom) - np.maximum(ztop, top))


def overlap_open(ztop, zbot, depth, top):
    depth = depth.fillna(0.0)
    return np.maximum(0.0, np.minimum(zbot, depth) - np.maximum(ztop, top))


def fraction(ztop, zbot, depth, top, bottom):
    length = overlap(ztop, zbot, depth, top, bottom)
    return xr.where(length == 0, np.nan, length / (zbot - ztop))


def fraction_open(ztop, zbot, depth, top):
    length = overlap_open(ztop, zbot, depth, top)
    return xr.where(length == 0, np.nan, length / (zbot - ztop))


def same_cell(ztop, zbot, depth, top, bottom):
    """what the code returns if top and sea floor lie in one cell (a known finding)"""
    depth = np.minimum(depth.fillna(0.0), bottom)
    return np.maximum(0.0, np.minimum(zbot - top, depth - ztop))


def same_cell_open(ztop, zbot, depth, top):
    depth = depth.fillna(0.0)
    return np.maximum(0.0, np.minimum(zbot - top, depth - ztop))


def same_cell_fraction(ztop, zbot, depth, top, bottom):
    length = same_cell(ztop, zbot, depth, top, bottom)
    return xr.where(length == 0, np.nan, length / (zbot - ztop))


def same_cell_fraction_open(ztop, zbot, depth, top):
    length = same_cell_open(ztop, zbot, depth, top)
    return xr.where(length == 0, np.nan, length / (zbot - ztop))


def checks(levels, interfaces, depth):
    assert bool(np.all(depth.fillna(0.0) >= 0))
    assert bool(np.all(levels >= 0))
    assert bool(np.all(interfaces >= 0))

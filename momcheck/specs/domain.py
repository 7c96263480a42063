"""When the routines accept their arguments (the values returned do not matter here)"""
import os
import numpy as np


def pdens(level):
    assert level >= 0.0
    assert level <= 7500.0


def volo(volcello):
    assert len(volcello.dims) == 3


def dz(levels, interfaces, depth):
    assert bool(np.all(depth.fillna(0.0) >= 0))
    assert bool(np.all(levels >= 0))
    assert bool(np.all(interfaces >= 0))


def pv(units):
    if units != "m":
        assert units == "cm"


def rel_vort(dset, names):
    for n in names:
        assert n in dset.variables


def broadcast(dim_arr):
    assert len(dim_arr.dims) == 1


def factor(src, dst):
    known = ("ns", "s", "min", "hr", "day", "mon", "yr")
    assert src in known
    assert dst in known


def detrend(order, mode):
    assert order == 1
    assert mode in ("remove", "correct")


def deseason(arr, tdim, output_format):
    assert tdim in arr.dims
    assert output_format in ("residuals", "model", "coeff")


def tide_names(arr, xcoord, ycoord):
    assert xcoord in list(arr.coords)
    assert ycoord in list(arr.coords)


def tide_table(csv):
    if csv not in ("us", "global"):
        assert os.path.exists(csv)


def cycle(func):
    assert func in ("mean", "min", "max", "std")


def tide_axes(x, y):
    if len(x.shape) != len(y.shape):
        raise ValueError("ranks")
    if len(x.shape) != 1 and tuple(x.dims) != tuple(y.dims):
        raise ValueError("axes")
    return True

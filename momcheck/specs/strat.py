"""Reference definitions: stratification, vorticity, mass and volume.

Density and its derivatives come from the package (they have properties of
their own)."""
import numpy as np
import xarray as xr
import xgcm
from momlevel.derived import calc_alpha, calc_beta, calc_rho


def adjust(n2, zcoord):
    """non-positive values take the nearest positive value above, 1e-8 at the surface"""
    positive = n2.where(n2 > 0.0)
    positive[{zcoord: 0}] = positive.isel({zcoord: 0}).fillna(1.0e-8)
    return positive.ffill(zcoord).where(n2.notnull())


def adjust_leading(n2, zcoord):
    """as the code does it: the leading dimension stands for the vertical one"""
    positive = n2.where(n2 > 0.0)
    positive[0] = positive[0].fillna(1.0e-8)
    return positive.ffill(zcoord).where(n2.notnull())


def adjust_default(n2):
    return adjust(n2, "z_l")


def adjust_leading_default(n2):
    return adjust_leading(n2, "z_l")


def wave_speed_of(n2, adjusted, dz, zcoord):
    return (np.sqrt(adjusted) * dz).sum(zcoord) / np.pi


def wave_speed(n2, dz, zcoord):
    c = wave_speed_of(n2, adjust(n2, zcoord), dz, zcoord)
    return c.where(n2.isel({zcoord: 0}).notnull())


def wave_speed_leading(n2, dz, zcoord):
    c = wave_speed_of(n2, adjust_leading(n2, zcoord), dz, zcoord)
    return c.where(n2[0].notnull())


def wave_speed_default(n2, dz):
    return wave_speed(n2, dz, "z_l")


def wave_speed_leading_default(n2, dz):
    return wave_speed_leading(n2, dz, "z_l")


def n2(thetao, so, eos, gravity, patm, zcoord):
    pres = thetao[zcoord] * 1.0e4 + patm
    alpha = calc_alpha(thetao, so, pres, eos=eos)
    beta = calc_beta(thetao, so, pres, eos=eos)
    return gravity * (alpha * thetao.differentiate(zcoord, edge_order=2) - beta * so.differentiate(zcoord, edge_order=2))


def n2_default(thetao, so):
    return n2(thetao, so, "Wright", -9.8, 101325.0, "z_l")


def n2_interfaces(thetao, so, eos, gravity, patm, zcoord, interfaces):
    both = xr.Dataset({"thetao": thetao, "so": so})
    grid = xgcm.Grid(both, coords={"Z": {"center": zcoord}})
    thetao = grid.transform(thetao, "Z", interfaces, method="linear")
    so = grid.transform(so, "Z", interfaces, method="linear")
    return n2(thetao, so, eos, gravity, patm, interfaces.name)


def n2_adjusted(thetao, so, eos, gravity, patm, zcoord):
    return adjust(n2(thetao, so, eos, gravity, patm, zcoord), zcoord)


def n2_adjusted_leading(thetao, so, eos, gravity, patm, zcoord):
    return adjust_leading(n2(thetao, so, eos, gravity, patm, zcoord), zcoord)


def stability_angle(thetao, so, pres, eos, zcoord):
    alpha = calc_alpha(thetao, so, pres, eos=eos)
    beta = calc_beta(thetao, so, pres, eos=eos)
    ratio = (beta * so.differentiate(zcoord, edge_order=2)) / (alpha * thetao.differentiate(zcoord, edge_order=2))
    return 180.0 / np.pi * np.arctan((1.0 + ratio) / (1.0 - ratio))


def stability_angle_default(thetao, so, pres):
    return stability_angle(thetao, so, pres, "Wright", "z_l")


def rossby_rd(wave_speed, coriolis):
    return wave_speed / np.abs(coriolis)


def inverse_barometer(tos, sos, pso, gravity, equation_of_state):
    rho = calc_rho(tos, sos, pso, eos=equation_of_state)
    return -pso / (rho * gravity)


def inverse_barometer_default(tos, sos, pso):
    return inverse_barometer(tos, sos, pso, 9.8, "Wright")


def coriolis(lat):
    return 2.0 * (2.0 * np.pi / 86400.0) * np.sin(lat * np.pi / 180.0)


def grid(dset, xc, yc, xq, yq, position):
    return xgcm.Grid(
        dset, coords={"X": {"center": xc, position: xq}, "Y": {"center": yc, position: yq}}, boundary=None
    )


def rel_vort(dset, u, v, dx, dy, area, xc, yc, xq, yq, position):
    for name in [u, v, dx, dy, area]:
        if name not in dset.variables:
            raise ValueError("missing")
    g = grid(dset, xc, yc, xq, yq, position)
    dvdx = g.diff(dset[v] * dset[dy], "X", boundary="fill")
    dudy = g.diff(dset[u] * dset[dx], "Y", boundary="fill")
    return (dvdx - dudy) / dset[area]


def pv(zeta, f, n2, gravity, units):
    q = (zeta + f) * n2 / gravity
    if units == "cm":
        q = np.abs(q / 100.0) * 1.0e14
    return q


def pv_interp(zeta, f, n2, gravity, units, xc, yc, xq, yq, position):
    dset = xr.Dataset({"zeta": zeta, "coriolis": f, "n2": n2})
    g = grid(dset, xc, yc, xq, yq, position)
    return pv(zeta, f, g.interp(n2, axis=["X", "Y"], boundary="fill"), gravity, units)


def masso(rho, volcello, tcoord):
    mass = rho * volcello
    return mass.sum([d for d in mass.dims if d != tcoord])


def masso_default(rho, volcello):
    return masso(rho, volcello, "time")


def volo(volcello):
    assert len(volcello.dims) == 3
    return volcello.sum()


def rhoga(mass, volume):
    return mass / volume

"""Reference definitions: reference state and steric sea level.

Composed of the package's own density, layer thickness, mass and volume
routines (which have properties of their own)."""
import numpy as np
import xarray as xr
from momlevel.derived import calc_dz, calc_masso, calc_rho, calc_rhoga, calc_volo
from momlevel.reference import setup_reference_state


def state(dset, ref, variant):
    thetao = ref["thetao"] if variant == "halosteric" else dset["thetao"]
    so = ref["so"] if variant == "thermosteric" else dset["so"]
    return thetao, so


def density(dset, ref, variant, zcoord, patm, eos):
    thetao, so = state(dset, ref, variant)
    return calc_rho(thetao, so, dset[zcoord] * 1.0e4 + patm, eos=eos)


def local(dset, ref, coord_names, rhozero, patm, equation_of_state, variant):
    tcoord, zcoord, zbounds = coord_names["t"], coord_names["z"], coord_names["zbounds"]
    rho = density(dset, ref, variant, zcoord, patm, equation_of_state)
    delta_rho = xr.where(ref["volcello"].isnull(), np.nan, rho - ref["rho"])
    dz = calc_dz(dset[zcoord], dset[zbounds], dset["deptho"])
    height = -(dz * delta_rho).sum(zcoord) / rhozero
    surface = ref["volcello"].isel({zcoord: 0})
    height = xr.where(surface.isnull(), np.nan, height)
    return xr.Dataset({"delta_rho": delta_rho, "sealevel": height})


def global_(dset, ref, coord_names, patm, equation_of_state, variant):
    tcoord, zcoord = coord_names["t"], coord_names["z"]
    rho = density(dset, ref, variant, zcoord, patm, equation_of_state)
    mass = rho * ref["volcello"]
    mass = mass.sum([d for d in mass.dims if d != tcoord])
    height = ref["volo"] / ref["areacello"].sum()
    return xr.Dataset({"reference_height": height, "sealevel": height * np.log(ref["rhoga"] / (mass / ref["volo"]))})


def local_derived(dset, coord_names, rhozero, patm, equation_of_state, variant):
    ref = setup_reference_state(dset, patm=patm, eos=equation_of_state, coord_names=coord_names)
    return local(dset, ref, coord_names, rhozero, patm, equation_of_state, variant)


def global_derived(dset, coord_names, patm, equation_of_state, variant):
    ref = setup_reference_state(dset, patm=patm, eos=equation_of_state, coord_names=coord_names)
    return global_(dset, ref, coord_names, patm, equation_of_state, variant)


def reference(dset, patm, eos, coord_names, time_index):
    tcoord, zcoord = coord_names["t"], coord_names["z"]
    out = xr.Dataset()
    for var in ["thetao", "so", "volcello"]:
        out[var] = dset[var].isel({tcoord: time_index})
    out["areacello"] = dset["areacello"]
    out["rho"] = calc_rho(out["thetao"], out["so"], dset[zcoord] * 1.0e4 + patm, eos=eos)
    out["volo"] = out["volcello"].sum()
    mass = out["rho"] * out["volcello"]
    out["masso"] = mass.sum([d for d in mass.dims if d != tcoord])
    out["rhoga"] = out["masso"] / out["volo"]
    return out


NAMES = {"t": "time", "z": "z_l", "zbounds": "z_i"}


def local_default(dset):
    ref = setup_reference_state(dset)
    return local(dset, ref, NAMES, 1035.0, 101325.0, "Wright", "steric")


def global_default(dset):
    ref = setup_reference_state(dset)
    return global_(dset, ref, NAMES, 101325.0, "Wright", "steric")


def renamed(dset, ref, mapping, domain):
    dset = dset.rename(mapping)
    if domain == "global":
        return global_(dset, ref, NAMES, 101325.0, "Wright", "steric")
    return local(dset, ref, NAMES, 1035.0, 101325.0, "Wright", "steric")


def any_variant(variant):
    if variant not in ["steric", "thermosteric", "halosteric"]:
        raise ValueError("variant")
    return variant

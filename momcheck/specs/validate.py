"""Reference definitions: which datasets are valid."""
from momlevel.reference import setup_reference_state


def near(area):
    total = area.sum()
    return abs(total - 3.6111092e14) < 0.02 * 3.6111092e14


def rank(ds, name, n):
    if name in ds.variables:
        if len(ds[name].dims) != n:
            raise ValueError(name)


def common(ds, n, strict):
    for v in ("thetao", "so", "volcello", "areacello"):
        if v not in ds.variables:
            raise ValueError(v)
    for v in ("thetao", "so", "volcello"):
        rank(ds, v, n)
    for v in ("areacello", "deptho"):
        rank(ds, v, 2)
    if strict:
        if not near(ds["areacello"]):
            raise ValueError("area")


def valid_input(ds, strict):
    common(ds, 4, strict)


def valid_reference(ds, strict):
    common(ds, 3, strict)
    for c in ds.coords:
        if c.lower() == "time":
            raise ValueError("time")
    for v in ("rho", "volo", "masso", "rhoga"):
        if v not in ds.variables:
            raise ValueError(v)
    rank(ds, "rho", 3)
    for v in ("volo", "masso", "rhoga"):
        rank(ds, v, 0)


def has_all(ds, names):
    for n in names:
        if n not in ds.variables:
            raise ValueError(n)


def input_with(ds, strict, names):
    valid_input(ds, strict)
    has_all(ds, names)


def reference_with(ds, strict, names):
    valid_reference(ds, strict)
    has_all(ds, names)


def area_off(ds):
    return "areacello" in ds.variables and not near(ds["areacello"])


# the steric routines
def steric_global(ds, strict, patm, eos, names, zb):
    valid_input(ds, strict)


def steric_local(ds, strict, patm, eos, names, zb):
    valid_input(ds, strict)
    has_all(ds, [zb, "deptho"])


def derived(ds, strict, patm, eos, names, zb):
    valid_reference(setup_reference_state(ds, patm=patm, eos=eos, coord_names=names), strict)

"""How results describe themselves"""


def seasonal(x, what, short):
    a = x.attrs
    out = {}
    if "standard_name" in a:
        out["standard_name"] = a["standard_name"] + "_" + short
    else:
        out["standard_name"] = short
    if "long_name" in a:
        out["long_name"] = what + ", " + a["long_name"]
    else:
        out["long_name"] = what
    if "units" in a:
        out["units"] = a["units"]
    else:
        out["units"] = ""
    return out


def fitted(x, suffix, processing):
    out = dict(x.attrs)
    out.pop("standard_name", None)
    if "long_name" in out:
        out["long_name"] = out["long_name"] + suffix
    out["processing"] = processing
    return out


def coefficients(x, suffix, processing):
    out = fitted(x, suffix, processing)
    out.pop("units", None)
    return out


def trend_part(x, comment):
    out = dict(x.attrs)
    out["comment"] = comment
    return out


def same(x):
    return dict(x.attrs)


def adjusted(x):
    out = dict(x.attrs)
    out["comment"] = "adjustment applied for negative values"
    return out


def station(x, row):
    return {**x.attrs, **dict(row)}


def slope_name(x):
    return f"{x.name}_slope"


def intercept_name(x):
    return f"{x.name}_intercept"

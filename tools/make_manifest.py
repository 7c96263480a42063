"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from momcheck.__main__ import PROPS
NA = {
    "N01": "Bounding rounding error needs the magnitudes of run-time values (cancellation between nearly equal densities, conditioning of the fit); no static argument over the unbounded input ranges bounds it.",
    "N02": "Optimality of the tree search and of the fits is a property of the numerical code inside scikit-learn and LAPACK and of the run-time data, not of this repository's source.",
    "N03": "The numbers for a given chunking are produced by dask's graph construction and the summation order at run time, outside this source; the parts that are visible in it (the seasonal fit needs one chunk along time, nothing is decided by chunk) are C18 and C13.",
    "N04": "Peak memory depends on the run-time chunk sizes and on dask's scheduler.",
}
TECH = {
    "C01": "abstract interpretation to expressions; formal differentiation and comparison of normal forms",
    "C02": "abstract interpretation to expressions; comparison with the published rational function",
    "C03": "dataflow from the option to every equation-of-state call (uninterpreted), all paths",
    "C04": "dataflow of the pressure argument to every equation-of-state call (uninterpreted), all paths",
    "C05": "abstract interpretation of all variants over symbolic datasets; comparison of normal forms with the steric relation and between variants",
    "C06": "abstract interpretation; exact case analysis of the piecewise linear thickness (Fourier-Motzkin over polyhedra)",
    "C12": "effect analysis: writes to anything reachable from an argument, on all paths",
    "C13": "effect and dataflow analysis: loads of, and branches on, lazy fields reachable on any path",
    "C14": "non-interference: the analysed result is the default-name result with the names substituted; no default-name literal remains",
    "C15": "path conditions of the validators compared with the required predicate",
    "C19": "abstract interpretation with symbolic time axes; comparison with the weighted-mean definition, path conditions of the refusals",
    "C20": "abstract interpretation of tables and loops over symbolic points; dataflow from the matched row to the extracted series",
    "C24": "dimension inference over the analysed expressions, compared with the declared units",
    "C25": "effect analysis: randomness, clock, environment, global state and file reads on all paths",
    "C27": "abstract interpretation; comparison with the spherical area formula after trigonometric expansion",
    "C28": "dataflow of the requested data type and names to encodings and attributes, effects in loops included",
    "C29": "abstract domain of calendar axes (first date, step, end) over the time coordinate; constants, ranges of random draws and sums of the grid variables",
    "C31": "path conditions of every normal return compared with the documented domain, both directions; types of objects enumerated",
    "C32": "abstract interpretation of attribute dictionaries over symbolic inputs; entry-by-entry comparison with the documented attributes, a symbolic key standing for all others",
    "C33": "relational abstract interpretation: the routine with the option omitted and with its documented default (or by position and by name) must reduce to the same value, path condition and warnings",
    "C34": "dimension-order dataflow over the value graph of each result; coordinates left by selections",
    "C35": "effect analysis: path conditions of every warning and print compared with the conditions that call for it",
    "C30": "effect analysis: which entries of whose encoding are removed, loops over the variables included",
    "C26": "abstract interpretation to expressions; comparison with the published polynomial",
}
NOTE = ("All inputs of the stated kinds and all paths are covered by abstract interpretation of /repo's current source. "
        "Trusted: the analyser's model of Python and of the numpy, xarray, pandas, dask, xgcm and scikit-learn calls used "
        "(exact arithmetic; library functions do what they document). Code with operations outside the model is reported "
        "as not decided, not as a violation.")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = [{
    "property": p, "level": "other", "level_note": NOTE,
    "technique": "static analysis: " + TECH.get(p, "abstract interpretation over symbolic inputs, compared with the rule"),
    "quick_cmd": f"python3 -m momcheck {p} --tier quick",
    "thorough_cmd": f"python3 -m momcheck {p} --tier thorough",
} for p in sorted(PROPS)]
na = [{"property": k, "reason": v} for k, v in sorted(NA.items())]
for line in open(os.path.join(here, "properties.jsonl")):
    i = json.loads(line)["id"]
    if i not in PROPS and i not in NA:
        na.append({"property": i, "reason": "not built yet"})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")

"""Writes /verif/properties.jsonl (kept as a script so that the text can be edited)."""
import json, os
S = "src/momlevel/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": [S + f for f in files],
                    "state": state or [],
                    "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                    "observe_at": observe or [], "hook_needed": None}})

p("C01", "Density derivatives are the exact derivatives of the density",
  "For each equation of state (Wright, linear) the functions that return the density derivative with respect to temperature and to salinity equal the exact partial derivatives of that equation of state's own density function, and the thermal expansion and haline contraction coefficients equal -(1/rho) drho/dT and (1/rho) drho/dS of that same equation of state. This holds at every temperature, salinity and pressure, for integer or floating-point, scalar or array input.",
  ["inputs"], "all (T, S, p), both equations of state, integer and float input",
  "The tests compare one scalar and one 5x5 array per function with stored numbers, all at nearly the same state and at almost no pressure.",
  ["eos/wright.py", "eos/linear.py"],
  [("density / drho_dtemp / drho_dsal / alpha / beta", "eos/wright.py"), ("the same five functions", "eos/linear.py")],
  ["momlevel.eos.*.{density,drho_dtemp,drho_dsal,alpha,beta}", "derived.calc_alpha", "derived.calc_beta"])
p("C02", "Densities follow the published equations of state everywhere",
  "The Wright density equals the Wright (1997) formula with its published coefficients, and the linear density equals 1000 - 0.2 T + 0.8 S kg m-3 (less the reference density when one is given), for every temperature, salinity and pressure. No range of the inputs is clipped, special-cased or approximated, and the in situ and potential density of the xarray front end are that density, evaluated pointwise at the given (or reference-level) pressure.",
  ["inputs"], "all (T, S, p), all equations of state, all reference levels",
  "Stored numbers at a handful of states near T=15, S=35; deep, cold, fresh or hot water is never evaluated.",
  ["eos/wright.py", "eos/linear.py", "derived.py"],
  [("density", "eos/wright.py"), ("density", "eos/linear.py"), ("calc_rho, calc_pdens", "derived.py")],
  ["eos.wright.density", "eos.linear.density", "derived.calc_rho", "derived.calc_pdens"])
p("C03", "The selected equation of state is honoured everywhere",
  "The equation-of-state name is matched without regard to case, an unknown name is rejected with a ValueError, and a known one selects the function of that name from that equation of state. In every calculation that takes an equation of state, all densities and coefficients it evaluates, including those of the reference state, use the selected one.",
  ["inputs", "configurations"], "all entry points with an equation-of-state option x all equation-of-state names",
  "Nearly all tests run the default Wright equation; the linear one is never used through steric, reference, n2, stability angle or inverse barometer.",
  ["util.py", "derived.py", "steric.py", "reference.py", "dynamic.py", "eos/__init__.py"],
  [("eos_func_from_str", "util.py"), ("eos=/equation_of_state= arguments", "derived.py"), ("calc_rho calls", "steric.py"), ("calc_rho call", "reference.py"), ("calc_rho call", "dynamic.py")])
p("C04", "Pressure is depth times 1e4 Pa/m plus the surface pressure",
  "The in situ densities of the steric routines, of the reference state, and the expansion coefficients of the buoyancy frequency are evaluated at the pressure depth * 1e4 + patm, where depth is the requested vertical coordinate and patm the caller's surface pressure; potential density uses the reference level's depth instead. The reference and the evolving state always use the same pressure.",
  ["inputs", "configurations"], "all vertical coordinates, all patm (scalar or field), all variants and domains",
  "The tests only use the default patm and coordinate name, and compare global sums with stored numbers.",
  ["steric.py", "reference.py", "derived.py"],
  [("pres = z * 1e4 + patm", "steric.py"), ("pres = z * 1e4 + patm", "reference.py"), ("pres in calc_n2, calc_pdens", "derived.py")])
p("C05", "Local steric height is -(1/rho0) times the column sum of dz * delta rho",
  "With the local domain, the density change returned is rho(t) - rho(reference) and the sea level returned is -(1/rhozero) times its sum over the vertical, weighted with the layer thickness of the caller's depth grid and bathymetry. This holds for every variant, rhozero, equation of state and coordinate naming, whether the reference state is supplied or derived, and with no other term or condition.",
  ["inputs", "configurations"], "all datasets, reference states, rhozero, variants, coordinate names",
  "Six tests compare sums over one random 5x5x5x5 dataset; rhozero, patm and coordinate names are never changed.",
  ["steric.py", "derived.py"], [("local branch of steric", "steric.py"), ("calc_dz", "derived.py")],
  ["steric(...)[0]['delta_rho']", "steric(...)[0][variant]"])
p("C06", "Global steric height is (V0/A) ln(rho0/rho(t))",
  "With the global domain, the sea level returned is the reference volume divided by the total reference area, times the logarithm of the reference mean density over the current mean density, where the current mean density is the current in situ density summed over the reference cell volumes, divided by the reference volume. The reference height returned is the reference volume over the total reference area.",
  ["inputs", "configurations"], "all datasets, reference states, variants, equations of state",
  "Three sums over one dataset, compared with absolute tolerance 1e-8 although the values are of order 1e-13: the tests pass for almost any formula.",
  ["steric.py", "derived.py"], [("global branch of steric", "steric.py"), ("calc_masso", "derived.py")],
  ["steric(..., domain='global')[0]"])
p("C07", "Thermosteric and halosteric vary exactly one field",
  "The thermosteric result is the steric result with salinity held at the reference state, the halosteric one with temperature held at the reference state, and the steric one varies both; everything else is the same. The result is stored under the variant's name, the two wrappers equal the general routine with that variant, and any other variant is rejected with a ValueError.",
  ["inputs", "configurations"], "all variants x domains x reference states",
  "Only sums over one dataset with default options; an unknown variant is never passed.",
  ["steric.py"], [("variant selection", "steric.py"), ("halosteric, thermosteric", "steric.py")])
p("C08", "The reference state is one time level and is self-consistent",
  "The reference state holds temperature, salinity and volume at the requested time index (the first by default), without time dimension or time coordinate, and the caller's cell area; its density is that of its own temperature and salinity, its volume, mass and mean density are those of its own fields. A steric routine without a supplied reference uses that of its own dataset, surface pressure, equation of state and coordinates, uses a supplied one unchanged, and returns the one it used.",
  ["inputs", "configurations"], "all datasets, time indices, coordinate names, surface pressures",
  "One test checks the names of the variables; the time index and coordinate names are never changed.",
  ["reference.py", "steric.py", "derived.py"], [("setup_reference_state", "reference.py"), ("reference handling", "steric.py"), ("calc_volo, calc_masso, calc_rhoga", "derived.py")])
p("C09", "A state equal to the reference has zero steric sea level",
  "Whenever the temperature and salinity passed equal those of the reference state, and that reference state was built with the same options, the density change and the local and global sea level are zero for every variant and equation of state.",
  ["inputs", "configurations"], "all states, variants, domains, equations of state",
  "No test evaluates the reference time level on its own.",
  ["steric.py", "reference.py", "derived.py"], [("steric", "steric.py"), ("setup_reference_state", "reference.py")])
p("C10", "Layer thickness is the overlap of cell, water column and depth range",
  "The thickness returned for a cell is the length of the overlap of the cell between its interfaces, the water column from the surface to the bathymetry (missing bathymetry is zero depth), and the requested range from top to bottom; it is never negative and never more than the cell. With the fraction option it is that length over the cell thickness, and missing where the length is zero; negative depths, levels or interfaces are rejected.",
  ["inputs"], "all interfaces, bathymetries and depth ranges, i.e. all orderings of cell top, cell bottom, sea floor, range top and range bottom",
  "The tests compare the sum of 125 cells with stored numbers for one depth range.",
  ["derived.py"], [("calc_dz", "derived.py")], ["derived.calc_dz"])
p("C11", "Missing cells stay missing and are only those",
  "The local density change is missing exactly in the cells without reference volume, and the local sea level is missing exactly in the columns without surface reference volume. Adjusting the buoyancy frequency leaves missing cells missing, replaces only non-positive values, by the nearest positive value above or 1e-8 at the surface, and the wave speed is missing exactly where the buoyancy frequency is missing at the surface.",
  ["inputs"], "all masks and all fields",
  "The test data have no missing ocean cells.",
  ["steric.py", "derived.py"], [("where(notnull)", "steric.py"), ("adjust_negative_n2, calc_wave_speed", "derived.py")])
p("C12", "No analysis routine modifies the objects passed to it",
  "No public routine changes its arguments: not the values, coordinates, variables, attributes, encoding or columns of an array, dataset or table, nor a dictionary or list. Excepted are the routine that resets encodings and the test-data builders that extend a given dataset, whose documented purpose it is.",
  ["inputs", "histories"], "all public routines, all options, any sequence of calls on the same objects",
  "No test looks at an argument after the call.",
  ["derived.py", "dynamic.py", "reference.py", "steric.py", "tidegauge.py", "trend.py", "util.py", "eos/wright.py", "eos/linear.py", "spice/flament.py"],
  [("copies of attributes and frames before modification", "trend.py"), ("df_model.copy(), df_locs.copy()", "util.py")])
p("C13", "Lazy fields stay lazy",
  "Given dask-backed fields, the density, expansion-coefficient, stratification, vorticity, mass and volume routines, the reference state, the steric and inverse-barometer routines, the time averages, trends, detrending and deseasonalizing build their result without loading or computing any of those (time-dependent) fields, nor deciding anything by their values; deseasonalizing a field held in memory gives a result held in memory; coordinate axes, grid areas and the bathymetry may be read.",
  ["inputs", "schedules"], "all routines named, all options, dask-backed fields",
  "No test uses dask-backed input.",
  ["derived.py", "dynamic.py", "reference.py", "steric.py", "trend.py", "util.py"],
  [("dask='allowed'", "derived.py"), ("keep_lazy", "trend.py")])
p("C14", "Caller-supplied names replace the default names everywhere",
  "A routine that takes the name of a coordinate, dimension or column (time, vertical, bounds, trend dimension, grid-corner names, latitude/longitude columns) uses the caller's name wherever it would use the default: renaming the input and passing the new name gives the same result under the new name.",
  ["inputs", "configurations"], "all routines with a name option x all names",
  "Apart from one test of the name lookup, all tests use the default names.",
  ["util.py", "trend.py", "derived.py", "steric.py", "reference.py"],
  [("default_coords", "util.py"), ("tcoord/zcoord/tdim/dim/coord_dict/loc_coords/model_coords parameters", "util.py")])
p("C15", "Invalid datasets are rejected before anything is computed",
  "Dataset validation raises if any required variable (or, for a reference, derived quantity) or any requested additional one is missing, if temperature, salinity or volume is not 4-D (3-D in a reference, also its density), area or bathymetry not 2-D, a reference scalar not 0-D, if a reference has a coordinate named time (in any case), or, when strict, if the total area is 2% or more away from 3.6111092e14 m2 (a warning otherwise); it accepts every other dataset. The steric routines validate both the input and the reference so, before they compute.",
  ["inputs", "configurations"], "all combinations of missing variables, wrong ranks and areas",
  "The tests try five of the conditions, one at a time.",
  ["util.py", "steric.py"], [("validate_dataset, validate_areacello", "util.py"), ("calls", "steric.py")])
p("C16", "Trend units convert consistently and broadcasting inverts them",
  "The conversion factor between two recognized time units is the ratio of their lengths (month and year as given by the caller) and unknown units are rejected. A trend requested in any time unit is the per-nanosecond trend times the nanoseconds in that unit and is labelled with it, and a trend labelled with any one unit, broadcast along a time axis, gives slope times elapsed time in that unit; a label without time unit counts as per nanosecond (with a warning), one with an unknown or with several is rejected, and a trend without time axis is not rescaled.",
  ["inputs", "configurations"], "all pairs of units, cftime and datetime64 axes, any dimension",
  "The tests use ns and yr on one noleap axis.",
  ["trend.py"], [("time_conversion_factor, calc_linear_trend, broadcast_trend", "trend.py")])
p("C17", "Detrending removes the fitted line, correcting only its slope",
  "Removing a trend returns the input minus (slope * coordinate + intercept) of the input's own linear fit along the given dimension; correcting returns the input minus slope * coordinate only. A dataset is treated variable by variable, variables without the dimension pass through unchanged, names and attributes are kept, and other modes, orders and input types are rejected.",
  ["inputs"], "arrays and datasets of any content and units, any dimension, both modes",
  "The tests compare sums, which are zero for any mean-free residual.",
  ["trend.py", "util.py"], [("_detrend_array, linear_detrend, calc_linear_trend", "trend.py"), ("linear_detrend alias", "util.py")])
p("C18", "The seasonal fit is one least-squares fit over the whole record",
  "The seasonal routines fit constant, linear trend, annual sine and cosine, and semi-annual sine and cosine, in this order, by pseudo-inverse over the complete time axis, however the input is chunked; the model is the fitted combination, the residual is the input minus the model, and each coefficient carries the label of its own term. Time is in years of the calendar's own length, and unknown output formats are rejected.",
  ["inputs", "configurations"], "all arrays, chunkings, calendars, dimension orders and output formats",
  "One test checks that the residuals of one point sum to zero; the chunked routine has no test at all.",
  ["trend.py"], [("seasonal_model, seasonal_cycle_model, _detrend_deseason_chunk, _detrend_deseason_lazy, deseason", "trend.py")])
p("C19", "Time averages use the right weights, groups and time stamps",
  "Annual means weight each month with its number of days in the data's own calendar and refuse years that do not have twelve values; monthly means and climatologies are plain statistics (the one asked for) over the values of each month. Results are ordered in time and stamped with the midpoint of their year or month in the data's calendar; variables of object or timedelta type are skipped, and all others kept. The annual option of the steric routines gives the annual means of the result without it.",
  ["inputs", "configurations"], "all monthly or daily records, calendars, years and statistics",
  "The tests compare sums over noleap and one Gregorian record, never the time stamps.",
  ["util.py"], [("annual_average, monthly_average, annual_cycle", "util.py")])
p("C20", "Each location maps to its nearest valid model point within the threshold",
  "A location is compared with all model points whose mask is 1 (all, if masking is off or absent) by great-circle distance, latitude with latitude and longitude with longitude; it gets the nearest one's coordinates, dimension values and distance in km for the given Earth radius, and is kept iff no threshold is given or the distance does not exceed it, with a warning (when enabled) for each dropped one. Tide-gauge extraction returns, under each kept location's name, the input array at exactly those dimension values.",
  ["inputs", "configurations"], "all grids, masks, locations, thresholds and column names",
  "The tests check distances and sums for one regional grid with one mask and threshold.",
  ["util.py", "tidegauge.py"], [("geolocate_points, tile_nominal_coords, validate_tidegauge_data", "util.py"), ("extract_tidegauge, extract_point", "tidegauge.py")])
p("C21", "Stratification diagnostics follow their definitions",
  "The squared buoyancy frequency is gravity * (alpha dT/dz - beta dS/dz) of the locally evaluated coefficients and the vertical derivatives along the vertical coordinate, the stability angle is arctan((1+R)/(1-R)) in degrees with R = beta dS/dz / (alpha dT/dz), the wave speed is the column sum of N dz over pi, and the deformation radius is wave speed over |f|. The inverse barometer height is -p/(rho g) with the density of the surface state.",
  ["inputs", "configurations"], "all fields, gravities, equations of state",
  "The tests compare sums of one random field with stored numbers and default options.",
  ["derived.py", "dynamic.py"], [("calc_n2, calc_stability_angle, calc_wave_speed, calc_rossby_rd", "derived.py"), ("inverse_barometer", "dynamic.py")])
p("C22", "Vorticity diagnostics follow their definitions on the staggered grid",
  "The Coriolis parameter is 2 Omega sin(latitude in degrees) with Omega = 2 pi / 86400 s; relative vorticity is (difference along x of v*dy minus difference along y of u*dx) over the corner-cell area, and rejects datasets that lack a needed field; potential vorticity is (zeta + f) * N2 / g, with N2 interpolated to the corners unless told otherwise, and its centimetre form is its absolute value over 100 times 1e14. Symmetric and non-symmetric grids differ only in the position (outer or right) of the corner points, on both axes.",
  ["inputs", "configurations"], "all fields, grids, unit conventions and name mappings",
  "One sum per routine; the Coriolis test sums an antisymmetric field to zero, and grid metrics are all one.",
  ["derived.py", "util.py"], [("calc_coriolis, calc_rel_vort, calc_pv", "derived.py"), ("get_xgcm_grid", "util.py")])
p("C23", "Mass, volume and mean density cover the whole ocean at each time",
  "Total mass is density times cell volume summed over every dimension except time, total volume is the sum over all of a volume field that must be 3-D, and the mean density is mass over volume.",
  ["inputs"], "all fields, dimension names and orders, with and without a time dimension",
  "One dataset with the default time name.",
  ["derived.py"], [("calc_masso, calc_volo, calc_rhoga", "derived.py")])
p("C24", "Declared units agree with the physical dimensions computed",
  "Every derived field (densities, expansion coefficients, stratification, vorticity, wave speed, mass, volume, areas, heights) declares units, and they are those that follow, by dimensional analysis, from the documented (SI) units of its inputs; sums only combine quantities of the same dimension, and the equation of state gets temperature, salinity and pressure in their places.",
  ["inputs", "programs"], "all derived fields of the package",
  "The tests look at the units attribute of one trend only.",
  ["derived.py", "dynamic.py", "steric.py", "util.py"], [("attrs['units'] assignments", "derived.py"), ("attrs", "steric.py"), ("attrs", "dynamic.py"), ("standard_grid_cell_area", "util.py")])
p("C25", "Results depend on the arguments only",
  "Apart from reading the named tide-gauge table, no routine's result depends on anything but its arguments: no unseeded or global random numbers, clock, environment, or hidden state kept between calls. The synthetic data are a function of the arguments, including the seed.",
  ["inputs", "histories", "schedules"], "any sequence of calls, in any process, of any routine",
  "Tests run each generator once or twice in one process.",
  ["test_data/__init__.py", "test_data/time.py", "test_data/tripolar/horizontal.py", "test_data/tripolar/vertical.py", "util.py", "trend.py", "derived.py", "steric.py"],
  [("np.random.default_rng(seed)", "test_data/__init__.py")])
p("C26", "Spiciness is the Flament polynomial, pointwise",
  "Spiciness equals the sum over i=0..5, j=0..4 of b_ij T^i (S-35)^j with the published Flament (2002) coefficients at every point, and has the shape of the input.",
  ["inputs"], "all temperatures, salinities and shapes",
  "One sum over a regular T-S grid.",
  ["spice/flament.py", "derived.py"], [("spice", "spice/flament.py"), ("calc_spice", "derived.py")])
p("C27", "Cell areas are those of the sphere, whatever the grid's orientation",
  "The area of a cell of a regular latitude-longitude grid is R^2 times its width in radians times the absolute difference of the sines of its edge latitudes, where the edges lie half a spacing from the centres; it is non-negative for ascending and descending axes, and returned on (latitude, longitude) with the caller's dimension names and coordinates. Two-dimensional coordinates tiled from axes vary along their own axis only.",
  ["inputs"], "all regular grids, orientations, radii and dimension names",
  "The routine for cell areas has no test; tiling is tested by a sum that is the same for both results.",
  ["util.py"], [("standard_grid_cell_area, tile_nominal_coords", "util.py")])
p("C28", "Results carry the requested encoding and metadata",
  "Every data variable of a steric result, annual means included, is marked for output in the requested data type, the result's coordinates get the attributes of the input's, and the descriptions name the equation of state, reference level and steric variant that were actually used.",
  ["inputs", "configurations"], "all data types, variants, domains and equations of state",
  "Two tests check the encoding with two data types.",
  ["steric.py", "derived.py"], [("encoding and attrs assignments", "steric.py"), ("attrs", "derived.py")])
p("C29", "The synthetic datasets are consistent model datasets",
  "Whatever start year, number of years (at least one) and calendar are asked for, the generated monthly or daily time bounds are contiguous and run from 1 January of the start year to 1 January after the last year in that calendar; each time is the middle of its bounds, average_T1 and average_T2 are the bounds and average_DT their difference; other frequencies raise ValueError; the daily axis lists every day of those years once. Longitude and latitude of every grid increase along their own dimension only, the cell areas add up to 3.6111092e14 m2, every depth level lies between its interfaces, and the sea floor between the surface and the deepest interface.",
  ["inputs", "configurations"], "all start years before 10000, all calendars, any number of years, both frequencies, all grid points and seeds",
  "Tests generate a few years of the default calendar.",
  ["test_data/__init__.py", "test_data/time.py", "test_data/tripolar/horizontal.py", "test_data/tripolar/vertical.py"],
  [("generate_time_stub, generate_daily_timeaxis", "test_data/time.py"), ("xy_fields", "test_data/tripolar/horizontal.py"), ("zlevel_fields", "test_data/tripolar/vertical.py")])
p("C30", "Resetting encodings and sorting variables touch exactly what they name",
  "reset_encoding removes exactly the named encoding entries (chunks and preferred_chunks when none are named) from the object and, for a dataset, from every one of its variables, coordinates included, whether or not an entry is present; it removes nothing else, returns the object, and rejects anything that is not a Dataset or DataArray with ValueError. alphabetize_dataset returns all variables in alphabetical order.",
  ["inputs"], "all objects and all lists of entries", "One test resets the default entries of one object.",
  ["util.py"], [("reset_encoding, alphabetize_dataset", "util.py")])
p("C31", "Arguments outside a routine's domain are rejected, all others accepted",
  "For every argument: calc_pdens accepts exactly reference levels from 0 to 7500 m, both ends included; calc_volo exactly 3-D volumes; calc_dz exactly levels, interfaces and depths that are not negative (zero allowed, missing depths allowed); calc_pv exactly the units m and cm; calc_rel_vort exactly datasets that have every field it needs, under the standard names or those of the caller's map, whether data variable or coordinate; time_conversion_factor exactly the seven units ns, s, min, hr, day, mon, yr; broadcast_trend exactly 1-D coordinates; linear_detrend exactly order 1 and the modes remove and correct; annual_cycle exactly mean, min, max and std; extract_tidegauge exactly the tables us, global or an existing file, and exactly coordinate names that the array has. An object of another type (a number, text, list, or Dataset where a DataArray is due, a DataArray where a Dataset is due) is rejected by the trend, tide-gauge, tiling, coordinate-name, equation-of-state and steric-reference arguments instead of yielding a result.",
  ["inputs"], "all values of the options, all names, all types of object", "Tests try one or two rejected values per routine.",
  ["derived.py", "trend.py", "util.py", "tidegauge.py", "steric.py"], [("calc_pdens, calc_volo, calc_dz, calc_pv, calc_rel_vort", "derived.py"), ("time_conversion_factor, broadcast_trend, _detrend_array", "trend.py"), ("validate_tidegauge_data, default_coords, annual_cycle, eos_func_from_str", "util.py")])
p("C32", "Results describe themselves",
  "Every diagnostic (steric heights, what is returned with them and the quantities of the reference state included) carries the standard name and long name of the quantity it is and no attribute of its inputs, whatever attributes those have; the stability angle, inverse barometer, cell area and tiled coordinates carry their own names, and the Coriolis parameter and the Rossby radius none. What is made from a field keeps the field's attributes, changed only where the meaning changes: seasonal models and residuals extend its standard and long name and keep its units, deseasonalised fields drop the standard name, extend the long name if there is one and say how they were processed, fitted coefficients also drop the units, slopes and intercepts of trends say which they are in the comment and are named after the variable, annual means keep all attributes, detrended fields too and say how they were detrended, adjusted stratification keeps them and says so, and a tide-gauge series has the field's and the station's attributes and the station's name.",
  ["inputs"], "all attributes of all inputs, present or absent", "Tests look at a few attributes of one input.",
  ["derived.py", "dynamic.py", "trend.py", "util.py", "tidegauge.py"], [("attrs assignments", "derived.py"), ("seasonal_model, deseason, calc_linear_trend", "trend.py"), ("annual_average, standard_grid_cell_area, tile_nominal_coords", "util.py"), ("extract_point", "tidegauge.py"), ("inverse_barometer", "dynamic.py")])
p("C33", "Omitted options mean their documented defaults",
  "Leaving any option of a public routine out gives the same result, the same acceptance of inputs and the same warnings as giving the default its documentation states (Wright's equation of state, a surface pressure of 101325 Pa, gravity 9.8 m s-2 and -9.8 in the buoyancy frequency, a reference density of 1035 kg m-3, the names time and z_l, the local domain, first time level, and so on), in every setting of the other options; and an argument given by position is taken as the one documented for that position.",
  ["inputs", "configurations"], "all public routines, all of their options, all inputs", "Tests pass most options explicitly or only ever use the default.",
  ["derived.py", "dynamic.py", "reference.py", "steric.py", "tidegauge.py", "trend.py", "util.py"], [("signatures", "derived.py"), ("steric", "steric.py"), ("signatures", "util.py"), ("signatures", "trend.py")])
p("C34", "Time comes first, and no working coordinate stays behind",
  "Local steric height and its density change (annual means included), annual means, monthly means and deseasonalised fields have the time dimension first, and fitted coefficients the dimension coeff, however the dimensions of the inputs are ordered and whatever time is called; slopes and intercepts of a linear trend do not carry the coordinate of the polynomial degree.",
  ["inputs", "configurations"], "all orders of the dimensions of the inputs, all names of the time dimension", "Tests use inputs that already have time first.",
  ["steric.py", "util.py", "trend.py"], [("transpose calls", "steric.py"), ("annual_average, monthly_average", "util.py"), ("deseason, calc_linear_trend", "trend.py")])
p("C35", "Messages come when, and only when, there is a reason",
  "A call that succeeds prints nothing unless it was asked to be verbose, and then says where the reference state comes from; a dataset that fails validation has its reasons printed before the error is raised. Warnings are given when, and only when, something was assumed, dropped or is to be replaced: a slope over a time axis without a time unit, variables of time bookkeeping in a dataset to be detrended, two-dimensional coordinates made up from axes (unless switched off), an area that is off when not strict, tide-gauge locations beyond the threshold if those warnings are switched on (they are off by default), and the old name of the detrending routine; every other routine is silent.",
  ["inputs", "configurations"], "all public routines, all inputs they accept, all settings of their options", "Tests ignore or filter warnings and do not look at what is printed.",
  ["steric.py", "trend.py", "util.py", "tidegauge.py"], [("broadcast_trend, linear_detrend", "trend.py"), ("tile_nominal_coords, validate_dataset", "util.py"), ("extract_tidegauge", "tidegauge.py"), ("steric", "steric.py")])
# --- not claimed
p("N01", "Results are accurate to rounding error",
  "Every result agrees with the exact value of its formula to within a small multiple of the rounding error of the data type.",
  ["inputs"], "all inputs, including ill-conditioned fits and nearly equal densities",
  "Tests use a tolerance of 1e-5 on sums.", ["eos/wright.py", "trend.py", "derived.py"], [("floating-point evaluation order", "eos/wright.py")])
p("N02", "The nearest-neighbour search and the fits are numerically optimal",
  "The point found is the true great-circle nearest neighbour, and the fitted coefficients minimise the squared residual, also for degenerate grids and short records.",
  ["inputs"], "all point sets and all records", "One grid, one record.", ["util.py", "trend.py"], [("BallTree.query, pinv, polyfit", "util.py")])
p("N03", "Chunking never changes the numbers",
  "For every chunking of the input, each routine returns the same numbers as for unchunked input.",
  ["inputs", "schedules"], "all chunkings and dask schedulers", "No test uses dask.", ["derived.py", "trend.py", "steric.py"], [("dask graph construction inside xarray and dask", "trend.py")])
p("N04", "Memory use stays bounded by the chunk size",
  "Computing a lazy result needs memory proportional to the chunks, not to the dataset.",
  ["inputs", "schedules"], "all dataset sizes and chunkings", "Tests use tiny data.", ["trend.py", "steric.py"], [("rechunking along time", "trend.py")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

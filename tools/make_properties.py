"""Writes properties.jsonl (the text of the properties lives here, one entry each)."""
import json, os

P = []


def add(id, title, statement, over, text, why, files, mech, observe):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None},
    })


S = "src/momlevel/"
D, U, T = S + "derived.py", S + "util.py", S + "trend.py"

add("C01", "Equations of state return the published density and its own derivatives",
    "For every temperature, salinity and pressure, the Wright equation of state returns the density of Wright (1997) and the linear one returns 1000 - 0.2 T + 0.8 S (minus a reference density if one is given); the temperature and salinity derivatives are the exact partial derivatives of that density, and the expansion and contraction coefficients are -(drho/dT)/rho and (drho/dS)/rho. Every function works element by element on scalars and on broadcastable arrays of any shape and of integer or floating type, so that each output element depends only on the corresponding input elements and missing values stay where they are.",
    ["inputs"], "all T, S, p (fresh to hypersaline, supercooled to hot, surface to trench), all array shapes and dtypes",
    "Tests evaluate one point per function and pin sums over one random array; they never differentiate the density, never vary dtype or shape.",
    [S + "eos/wright.py", S + "eos/linear.py"],
    [("rational Wright formula and its hand-derived derivatives", S + "eos/wright.py:density/drho_dtemp/drho_dsal"), ("linear formula", S + "eos/linear.py")],
    ["return values of momlevel.eos.wright.* and momlevel.eos.linear.*"])

add("C02", "Gridded density, expansion and contraction are pointwise and label-aligned",
    "In situ density, thermal expansion, haline contraction and potential density of gridded fields equal, at every coordinate label, the chosen equation of state evaluated at that label's temperature, salinity and pressure, whatever the order of the dimensions, the dtype, and whichever inputs are lower-dimensional or scalar; inputs whose labels differ are matched by label or rejected, never paired by position or silently cut down; potential density uses the pressure 10^4 Pa per metre of reference level plus atmospheric pressure. The equation of state is selected by name regardless of letter case, an unknown name is rejected, and reference levels outside 0 to 7500 m are rejected while both limits are accepted.",
    ["inputs", "configurations"], "all fields, dimension orders, dtypes, pressures (column, field or scalar), reference levels, atmospheric pressures, equations of state",
    "Tests pin the sum over one 5x5x5x5 random dataset with the default arguments: permutations, broadcasting, masks and other parameter values are not exercised.",
    [D, U], [("apply_ufunc over the selected function", D + ":calc_rho/calc_alpha/calc_beta/calc_pdens"), ("name resolution", U + ":eos_func_from_str")],
    ["return values and exceptions of calc_rho, calc_alpha, calc_beta, calc_pdens"])

add("C03", "Inverse barometer height is minus the hydrostatic equivalent of pressure",
    "For every surface temperature, salinity and pressure field, the inverse barometer height at each label equals minus the surface pressure divided by gravity times the in situ surface density given by the chosen equation of state at that pressure. It scales inversely with the gravity supplied, is negative for positive pressure, is missing exactly where an input is missing, and does not depend on any other label.",
    ["inputs", "configurations"], "all surface fields, gravities, equations of state, dimension orders and dtypes",
    "One test pins one value of one random field with default gravity and equation of state.",
    [S + "dynamic.py"], [("ibh formula", S + "dynamic.py:inverse_barometer")],
    ["return value of inverse_barometer"])

add("C04", "Local steric height is the depth integral of the density change",
    "For every dataset and reference state, the local result gives at each time and cell the in situ density (at the pressure of the cell's depth plus the atmospheric pressure supplied) minus the reference density, missing where the reference volume is missing, and at each column a sea level change equal to minus one over the reference density constant times the sum over depth of that density change weighted by the cell thickness cut off at the sea floor; missing values contribute nothing and columns whose surface reference volume is missing are missing. Time is the first dimension of the results, and all parameters (reference density constant, atmospheric pressure, equation of state, reference, variable and coordinate name maps, annual averaging) take effect as documented.",
    ["inputs", "configurations"], "all ocean states, land masks, bathymetries, vertical grids, time lengths, parameters",
    "Tests pin sums of outputs for one unmasked random 5x5x5x5 dataset with nearly default parameters.",
    [S + "steric.py", D], [("density anomaly and vertical sum", S + "steric.py:steric"), ("partial bottom cells", D + ":calc_dz")],
    ["returned dataset of steric/thermosteric/halosteric with domain local"])

add("C05", "Global steric height follows the mean density of the fixed reference volume",
    "For every dataset and reference state, the global result equals, at every time, the reference column height (total reference volume divided by total reference area) times the natural logarithm of the reference mean density over the mean density of that time, both taken over the fixed cell volumes of the reference state. Missing cells contribute nothing, the result depends on time only, and a state equal to the reference gives zero.",
    ["inputs", "configurations"], "all ocean states, masks, references, equations of state, variants, time lengths, atmospheric pressures",
    "Tests pin three sums for one random unmasked dataset.",
    [S + "steric.py", S + "reference.py", D], [("Boussinesq expansion term", S + "steric.py:steric (global branch)"), ("mass and volume", D + ":calc_masso/calc_volo/calc_rhoga")],
    ["returned dataset with domain global"])

add("C06", "Thermosteric and halosteric isolate temperature and salinity",
    "The thermosteric result equals the full calculation with salinity held at the reference state and does not change when salinity is altered at any time, and the halosteric result equals the full calculation with temperature held at the reference state and does not change when temperature is altered, when the reference is given. With the linear equation of state the local thermosteric and halosteric heights add up to the steric height. The dedicated entry points give the same result as the general one with the corresponding variant, for local and global domains, and an unknown variant is rejected.",
    ["inputs", "configurations"], "all states, perturbations, equations of state, domains, references",
    "Tests compare sums of each variant with pinned numbers on one dataset; they never perturb the field that must not matter.",
    [S + "steric.py"], [("selection of the fields held fixed", S + "steric.py:steric"), ("wrappers", S + "steric.py:halosteric/thermosteric")],
    ["returned datasets of the three variants"])

add("C07", "The reference state is the requested time level and is internally consistent",
    "The reference state holds temperature, salinity and cell volume exactly as they are at the requested time index (negative indices count from the end, the default is the first), the density of those fields at the pressure of their depth plus the given atmospheric pressure, the total volume, the total mass, their quotient as mean density, and the cell area unchanged, with no time coordinate. It passes the library's own validation, and the calculation that makes its own reference uses and returns exactly the state of its first time level.",
    ["inputs", "configurations"], "all datasets, time indices, atmospheric pressures, equations of state, coordinate names, masks",
    "Tests pin a few scalars for the first time level of one dataset.",
    [S + "reference.py", D], [("time selection and derived scalars", S + "reference.py:setup_reference_state")],
    ["returned reference dataset", "reference returned by steric"])

add("C08", "Steric height is local in time and space: pieces give the same as the whole",
    "With a fixed reference, processing a record in pieces (consecutive blocks, single time levels, reordered or repeated levels) and joining the results gives the same local and global results as processing it at once, and appending later data never alters earlier results. The local result of a horizontal subset equals the subset of the local result, and changing the state of one column at one time changes the local result only in that column at that time.",
    ["inputs", "histories"], "all partitions of a record in time and space, all appends, all single-column perturbations",
    "No test processes a record in pieces or perturbs a single column.",
    [S + "steric.py", S + "reference.py"], [("reference passed back in", S + "steric.py:steric(reference=)")],
    ["results of sequences of steric calls"])

add("C09", "Layer thicknesses partition the water column above the sea floor",
    "For every vertical grid and bathymetry the thickness of each cell equals the part of the cell that lies above the sea floor, below the requested top and above the requested bottom, so it is never negative and never more than the full cell, and the thicknesses of a column add up to the height of water in the requested range covered by the grid. Land and missing depths give zero, the fractional form gives the ratio to the full cell with empty cells missing, and negative depths or coordinates are rejected.",
    ["inputs", "configurations"], "all grids, bathymetries (including depths exactly on interfaces, zero, missing, below the last interface), depth ranges",
    "Tests pin the sums of four cases on one 5x5 bathymetry.",
    [D], [("partial cells", D + ":calc_dz")],
    ["return value of calc_dz"])

add("C10", "Stratification diagnostics follow their defining formulas",
    "The squared buoyancy frequency equals gravity times (expansion times temperature gradient minus contraction times salinity gradient) with second-order vertical differences on the given levels, and depends only on its own column. Adjusting it replaces non-positive values by the nearest positive value above (1e-8 if there is none), keeping missing values; the first-mode wave speed is the thickness-weighted column sum of the square root of the adjusted values over pi, missing on land; the deformation radius is that speed over the absolute Coriolis parameter; and the stability angle is the arctangent, in degrees, of (1+R)/(1-R) for the density ratio R of salinity to temperature contributions.",
    ["inputs", "configurations"], "all profiles and level spacings, stable and unstable, masks, gravities, pressures, vertical coordinate names, fields with the vertical dimension first",
    "Tests pin sums for one random profile set; the sign patterns, masks and spacings that select the branches are not varied.",
    [D], [("n2, adjustment, wave speed, radius, angle", D + ":calc_n2/adjust_negative_n2/calc_wave_speed/calc_rossby_rd/calc_stability_angle")],
    ["return values"])

add("C11", "Vorticity, Coriolis parameter and potential vorticity follow their definitions",
    "The Coriolis parameter is 2 (2 pi / 86400 s) sin(latitude) at every latitude. Relative vorticity at every corner is the circulation around the corner cell (velocity times its given grid length, outside values taken as zero) divided by the corner area, on symmetric and non-symmetric grids, for any variable and coordinate name maps; potential vorticity is (relative vorticity + Coriolis) times squared buoyancy frequency over gravity, the latter optionally averaged to corners from its four surrounding cells, in the requested unit convention. Unknown unit conventions and missing input fields are rejected.",
    ["inputs", "configurations"], "all velocity fields, metrics, grid sizes, symmetric or not, names, dimension orders, missing values",
    "Tests pin a few sums on one square 5x5 grid with unit metrics, for which transposed or shifted differences can cancel.",
    [D, U], [("finite volume curl", D + ":calc_rel_vort"), ("pv", D + ":calc_pv"), ("grid topology", U + ":get_xgcm_grid")],
    ["return values and exceptions"])

add("C12", "Spiciness is the Flament polynomial, element by element",
    "For every temperature and salinity the spiciness equals the 6x5 polynomial of Flament (2002) in temperature and salinity minus 35. The result has the shape of the inputs, each element depends only on the corresponding inputs (missing values stay where they are), scalars and gridded fields in any dimension order are handled, and inputs of different shapes are rejected.",
    ["inputs"], "all T, S values, shapes, dtypes, dimension orders",
    "Tests pin one value and one sum.",
    [S + "spice/flament.py", D], [("polynomial evaluation on flattened arrays", S + "spice/flament.py:spice"), ("wrapper", D + ":calc_spice")],
    ["return values"])

add("C13", "Annual averages weight each month by its length in the data's calendar",
    "For every monthly record of whole years, in any calendar and any year, the annual average of each numeric variable at each label equals the average of the year's months weighted by their numbers of days in that calendar, ignoring missing months, and is missing only if all months are missing. There is exactly one value per year, in time order, stamped at the middle of the year in the same calendar, with attributes kept and non-numeric variables skipped, for arrays and datasets and any time coordinate name; a year without exactly twelve values is rejected.",
    ["inputs", "configurations"], "all calendars, years including leap years, month stamps, masks, dtypes, dimension orders, single and many years",
    "Tests pin sums for one five-year noleap record (and one standard-calendar case).",
    [U], [("group by year and weights", U + ":annual_average")],
    ["return value of annual_average, steric(annual=True)"])

add("C14", "Monthly averages and annual cycles aggregate exactly the right samples",
    "Monthly averages of daily records give, for every month of every year in the data's calendar, the plain mean of the non-missing days of that month, in time order and stamped at the middle of the month. The annual cycle gives for each of the twelve calendar months the mean, minimum, maximum or standard deviation over all samples of that month, ignoring missing values, stamped at mid-month of the requested year or otherwise of the middle year of the record; an unknown statistic is rejected.",
    ["inputs", "configurations"], "all calendars, years, masks, statistics, requested years, dtypes, arrays and datasets, coordinate names",
    "Tests pin sums for one noleap record.",
    [U], [("group by month", U + ":monthly_average/annual_cycle")],
    ["return values"])

add("C15", "Trends and detrending are ordinary least squares at each point",
    "The slope and intercept returned for every point are those of the ordinary least-squares line through that point's own non-missing values, along any dimension and for any calendar or numeric axis, with the slope expressed in the requested time unit. Removing the trend returns the residuals of that line, correcting for drift returns the data minus slope times elapsed time so that no trend remains, points are treated independently, and dataset variables without the dimension are returned unchanged; unknown modes and orders other than one are rejected.",
    ["inputs", "configurations"], "all series, calendars, epochs, lengths, missing-value patterns, dimension positions, units, arrays and datasets",
    "Tests pin a few sums of one random record.",
    [T], [("polyfit and unit scaling", T + ":calc_linear_trend"), ("fit removal", T + ":_detrend_array/linear_detrend")],
    ["return values of calc_linear_trend, linear_detrend"])

add("C16", "Time-unit conversion is exact and trends mean the same line in every unit",
    "The factor between any two recognised units (ns, s, min, hr, day, mon, yr) is the ratio of their lengths, using the supplied days per month and per year, so factors are reciprocal, transitive and one for equal units; other units are rejected. Broadcasting a trend along an axis gives slope times the axis value after conversion from the time unit stated in the slope's units (nanoseconds if none is stated), relative to the first value if requested, so a trend computed in any unit reproduces the same line.",
    ["inputs", "configurations"], "all unit pairs, month and year lengths, slopes, axes (calendar, datetime64, numeric), unit attributes",
    "Tests check a handful of pairs and one broadcast.",
    [T], [("conversion table", T + ":time_conversion_factor"), ("unit parsing and product", T + ":broadcast_trend")],
    ["return values"])

add("C17", "Seasonal models are the least-squares fit of trend plus two harmonics",
    "For every record the fitted seasonal model is, at each point independently, the least-squares fit of a constant, a linear trend and annual and semi-annual harmonics in decimal years; the residual is the data minus the model and is orthogonal to all six terms, so a series made of those terms leaves no residual. Residuals, model and coefficients are mutually consistent, the time dimension may have any name and position, and the lazy and eager daily forms follow the lengths of the years of the data's calendar.",
    ["inputs", "configurations"], "all series, calendars, lengths, dimension layouts, output formats, chunkings",
    "Tests pin a few sums for one noleap record.",
    [T], [("design matrix and pseudo-inverse", T + ":seasonal_model/seasonal_cycle_model"), ("lazy application", T + ":deseason")],
    ["return values of seasonal_model, deseason, seasonal_cycle_model"])

add("C18", "Geolocation returns the nearest allowed grid point by great-circle distance",
    "Each location is mapped to a model point whose great-circle distance is the smallest among all points (only mask-one points when masking is on), the reported distance is that distance in kilometres for the given earth radius, and the reported model coordinates and dimension values belong to that point, for longitudes in any convention and across the date line and poles. Exactly the locations within the threshold (inclusive) are kept, in their original order with their other columns intact.",
    ["inputs", "configurations"], "all grids, masks, locations, thresholds, column names, radii",
    "Tests check one regional grid against one stored table.",
    [U], [("ball tree query and bookkeeping after masking and thresholding", U + ":geolocate_points")],
    ["returned data frame"])

add("C19", "Tide gauge extraction returns the nearest wet cell's own series per site",
    "Every site of the location file whose nearest wet cell lies within the threshold yields one variable named after the site holding exactly the values of that cell for all remaining dimensions, and no other site does. This holds for two-dimensional and one-dimensional coordinates given by name or as arrays, any dimension order of data, coordinates and mask, and missing mask values count as land; the stated location, distance and coordinates in the metadata are those of the cell used.",
    ["inputs", "configurations"], "all grids, masks, site files, thresholds, layouts, dtypes",
    "Tests check one regional sample and counts of sites.",
    [S + "tidegauge.py", U], [("frame assembly and point selection", S + "tidegauge.py:extract_tidegauge/extract_point"), ("nearest point", U + ":geolocate_points")],
    ["returned dataset of extract_tidegauge"])

add("C20", "Grid cell areas tile the sphere and nominal coordinates tile the grid",
    "The area of each cell of a uniform latitude-longitude grid is the exact area on the sphere of the given radius between its half-way latitudes and longitudes, so cells covering the globe add up to 4 pi r^2, for ascending or descending axes and for plain or labelled arrays with labels kept. Tiling one-dimensional coordinates gives longitude and latitude fields in which every point carries its own column's and row's value and labels.",
    ["inputs"], "all uniform grids (global, regional, descending), radii, array kinds and dtypes",
    "Tests pin one grid's total.",
    [U], [("spherical zone formula", U + ":standard_grid_cell_area"), ("meshgrid", U + ":tile_nominal_coords")],
    ["return values"])

add("C21", "Validation accepts exactly the usable datasets",
    "An input dataset is accepted if and only if temperature, salinity and volume are four-dimensional, cell area (and sea floor depth when present) two-dimensional, all required variables present, and the total cell area within tolerance of the real ocean's; a reference dataset additionally needs density, mass, volume and mean density, has three-dimensional state fields, scalar totals and no time coordinate. Everything else is rejected with an error before any result is produced, except that in non-strict mode an out-of-range area only warns; tide gauge inputs that are not arrays or lack the named coordinates are rejected.",
    ["inputs", "configurations"], "all single and combined faults in input and reference datasets, strict and non-strict, area totals around both tolerance limits",
    "Tests try a few faults one at a time.",
    [U, S + "steric.py"], [("collected checks", U + ":validate_dataset/validate_areacello/validate_tidegauge_data")],
    ["acceptance, rejection, warnings of the validators and of steric"])

add("C22", "No call modifies the data it is given",
    "After any call of a public calculation, whether it succeeds or is rejected, every array, dataset, data frame, dictionary or list passed in has the same values, labels, names, dimensions, dtypes, attributes and encodings as before, including the reference dataset passed to the steric routines. (The routine whose documented purpose is to reset encodings is the only exception.)",
    ["inputs", "histories"], "all public functions, argument kinds (eager, lazy, datasets, arrays, frames) and options",
    "Tests never compare their inputs before and after a call.",
    [D, U, T, S + "steric.py", S + "reference.py", S + "tidegauge.py", S + "dynamic.py"],
    [("new objects are built instead of in-place edits", "all modules")],
    ["deep fingerprints of all arguments around each call"])

add("C23", "Lazy, chunked inputs give the same results as in-memory inputs",
    "Every public calculation gives the same values, labels and missing pattern for chunked (lazy) inputs as for the same data in memory, for every chunking along every dimension, every scheduler and every order in which the chunks are executed. A failure while computing a chunk is reported rather than turned into data.",
    ["inputs", "schedules", "configurations", "fault_sequences"], "all chunkings, synchronous/threaded/randomised task orders, all functions taking arrays, chunk failures",
    "Only one test (deseason) uses chunked data, with one chunking.",
    [D, U, T, S + "steric.py", S + "tidegauge.py"], [("dask-aware operations, rechunking of the time axis", T + ":deseason; " + D + ":calc_*")],
    ["computed results under different chunkings and schedulers"])

add("C24", "Results do not depend on dimension order, label order or coordinate names",
    "Permuting the dimensions of any input, reversing or shuffling the horizontal or time positions of all inputs together, or renaming dimensions and coordinates (passing the names through the documented options) permutes or renames the results accordingly and leaves the value at every label unchanged. Inputs that list the same labels in different orders are matched by label or rejected, never paired by position.",
    ["inputs", "configurations"], "all permutations of dimensions and positions, all names, for all functions working on labelled arrays",
    "All tests use one canonical layout and the default names.",
    [D, U, T, S + "steric.py", S + "reference.py"], [("label-based operations and name options", "coord_names, tcoord, tdim, zcoord, dim, coord_dict, model_coords")],
    ["pairs of results of equivalent calls"])

add("C25", "Calls are pure: results depend only on arguments, in any history and thread",
    "The result of a call depends only on its arguments: it is the same after any sequence of other calls, when repeated, when inputs of the same shape but different values were processed before, after rejected calls, and when calls run concurrently in several threads. Calls leave process-wide state (random generators, numeric error settings, array-library options, environment, working directory, module constants) as they found it.",
    ["histories", "schedules"], "all call sequences and interleavings of public functions",
    "Tests call each function once in a fresh state, single-threaded.",
    [D, U, T, S + "steric.py", S + "eos/wright.py", S + "spice/flament.py", S + "tidegauge.py"],
    [("no module-level mutable state is written", "all modules")],
    ["results of call sequences and concurrent calls, snapshots of global state"])

add("C26", "Test data generators are reproducible and produce correct time axes",
    "A generator called with the same arguments always returns identical data, whatever ran before, and different seeds give different random fields. Monthly and daily axes of the requested number of years start at the first of January of the start year in the requested calendar, hold exactly one contiguous interval per month or day with the time stamp at its middle, and end with the last year; grids are consistent (areas sum to the ocean area, levels lie between their interfaces).",
    ["inputs", "histories"], "all generators, seeds, start years, lengths, calendars, frequencies",
    "Tests use the generators but only check one calendar's sums.",
    [S + "test_data/__init__.py", S + "test_data/time.py", S + "test_data/tripolar/horizontal.py", S + "test_data/tripolar/vertical.py"],
    [("seeded local generators", S + "test_data/__init__.py"), ("bounds and midpoints", S + "test_data/time.py")],
    ["returned datasets"])

add("C27", "Results survive a netCDF round trip with the requested precision",
    "Every dataset returned by the steric, averaging, trend, seasonal and tide gauge routines can be written to netCDF and read back with the same labels, missing pattern and values up to the precision of the stored type. Steric results are stored in the requested data type, with or without annual averaging, for every variant and domain.",
    ["inputs", "configurations"], "all results, dtypes, variants, domains, calendars",
    "No test writes a result to disk.",
    [S + "steric.py", U, T, S + "tidegauge.py"], [("encoding set on results", S + "steric.py"), ("serialisable attributes", T + ", " + S + "tidegauge.py")],
    ["files written from results"])

add("C28", "Results carry the documented names, units and coordinate metadata",
    "Every derived field carries the units (and the long name) documented for its quantity whatever the inputs' own attributes: density kg m-3, expansion degC-1, contraction PSU-1, squared buoyancy frequency s-2, vorticity s-1, wave speed m s-1, radius m, steric and barometer heights m, mass kg, volume m3, potential vorticity per the requested convention, and trends the data's units per the requested time unit. Coordinate attributes of the steric input are carried to the result, averages keep the attributes of variables and of the coordinates they do not average over (annual averages also those of time), derived arrays do not carry the name of an input, and texts that name the equation of state, level, variant or mode name the one used.",
    ["inputs", "configurations"], "all functions, inputs with and without attributes, all options",
    "Tests check attributes for a few functions with default arguments.",
    [D, U, T, S + "steric.py", S + "dynamic.py"], [("attrs assignments", "all calc_* functions, steric, averages, trends")],
    ["attributes of results"])

add("C29", "Housekeeping utilities change only what they are meant to change",
    "Sorting a dataset changes only the order of its variables, resetting encodings removes exactly the named encoding entries and nothing else, the default coordinate names are used for exactly those keys that are not overridden, and the grid object for any dataset connects exactly the named centre and corner coordinates (outer corners if symmetric). The colour map helper always returns matching, increasing levels and colours.",
    ["inputs", "configurations"], "all datasets, encodings, key subsets, coordinate names",
    "Tests try one example each.",
    [U], [("utilities", U + ":alphabetize_dataset/reset_encoding/default_coords/get_xgcm_grid/get_pv_colormap")],
    ["return values"])

add("C30", "Diagnostics appear exactly when due and never change results",
    "A dataset that is rejected has all of its problems reported together, naming every missing or mis-shaped variable, and a sound one is accepted silently; in non-strict mode an out-of-range cell area produces a warning and an in-range one does not. With warnings enabled, geolocation and tide gauge extraction name exactly the sites that lie beyond the threshold (none without a threshold or with warnings disabled); nominal coordinates being tiled, a slope whose time unit cannot be determined on a time axis, time-bounds variables in a dataset being detrended and the deprecated detrending alias each produce a warning, and their absence produces none. Whether warnings are enabled never changes the returned values.",
    ["inputs", "configurations"], "all faults and combinations of faults, sites, thresholds (also equal to a distance), units, axes, warning switches",
    "Tests ignore warnings and printed reports.",
    [U, T, S + "tidegauge.py", S + "steric.py"], [("collected report and area warning", U + ":validate_dataset"), ("site warnings", U + ":geolocate_points"), ("unit and variable warnings", T + ":broadcast_trend/linear_detrend")],
    ["warnings and text emitted by a call, its result"])

add("C31", "Mass, volume and mean density form an exact budget of the domain",
    "The total mass is the sum of density times volume over every dimension except time, whichever dimensions the density and the volume each have, in whatever order and under whatever names, with missing cells contributing nothing; it depends on time exactly when one of them does, the masses of any partition of the domain add up to the whole, and one time level on its own gives the same mass as within the series. The total volume of a three-dimensional volume field is the sum of its cells (other ranks are rejected), and the mean density is mass over volume and lies within the range of the densities.",
    ["inputs"], "all densities, volumes, dimension sets, orders and names, missing cells, data types, chunks, partitions",
    "Tests compare one frozen total.",
    [D], [("sums over all but time", D + ":calc_masso"), ("sum of a 3-D volume", D + ":calc_volo"), ("ratio", D + ":calc_rhoga")],
    ["totals and mean density"])

add("C32", "Documented defaults and argument conventions mean what they say",
    "Leaving out an option gives the same result as passing its documented default, for any subset of the options; arguments may be passed by position in the documented order, by keyword in any order, or mixed; and whole numbers, NumPy scalars, NumPy strings, lists for tuples and path objects for paths behave as the plain Python values they stand for.",
    ["inputs", "configurations"], "all public functions, all subsets of options, all ways to pass them",
    "Tests mostly call each function one way.",
    [S + "steric.py", D, S + "dynamic.py", U, T, S + "spice/flament.py", S + "tidegauge.py", S + "reference.py"], [("signatures and option handling", "all public functions")],
    ["results of equivalent calls"])

add("C33", "Results obey superposition, scaling, projection and composition laws",
    "Annual and monthly averages, the mean annual cycle, linear trends, detrending and the seasonal fits are linear in the data and respond to an added constant as an average, a slope or a residual must; minimum, maximum and spread of the annual cycle scale and order accordingly and averages stay within the range of the data. Removing a trend or a seasonal fit twice changes nothing more, model and residual add up to the data, a detrended record has no trend, a variable is treated in a dataset as on its own, and annual averages of monthly averages of complete daily data are the plain yearly means. Diagnostics follow the powers of their factors: heights inverse with gravity or reference density, vorticity linear in the velocities, potential vorticity with stratification and absolute vorticity only, wave speed with thickness and the root of stratification, layer thicknesses and areas with the unit of length, distances with the radius; another reference state moves a steric series by one constant field, and layers below the bottom contribute nothing.",
    ["inputs", "histories"], "all records, calendars, factors, constants, references, dimension sets, orders and missing patterns",
    "Tests compare single results with frozen numbers and never relate two results.",
    [U, T, D, S + "steric.py", S + "dynamic.py"], [("linear operators on time", U + ":annual_average/monthly_average/annual_cycle, " + T), ("formulas", D + ", " + S + "steric.py")],
    ["results of related calls"])

add("C34", "Calls leave the outside world alone and do not depend on it",
    "No public call writes, creates, renames or removes a file, starts a process, opens a socket, leaves a file descriptor open, or reads a file other than the location list it was given or asked for by name; nothing is printed by a successful call unless verbose output was requested, in which case something is. File-backed inputs give the results of the same inputs in memory and their files stay as they were. Results do not depend on the working directory (whatever files lie there), home or temporary directory, time zone, locale, environment variables or display options.",
    ["inputs", "histories", "configurations"], "all public functions, inputs in memory, file-backed or invalid, all environments",
    "Tests run in one environment and do not look outside the process.",
    [S + "tidegauge.py", S + "steric.py", U, T, D], [("reading the location list", S + "tidegauge.py:extract_tidegauge"), ("verbose output", S + "steric.py:steric")],
    ["audit events, open descriptors, directory contents, printed text, results"])

add("C35", "Lazy inputs are not loaded before, nor beyond, what is computed",
    "Building any result (spiciness excepted) from lazily loaded inputs loads no chunk of them except those of the static fields that have to be inspected: cell area and sea floor depth in the steric routines and layer thicknesses, and the coordinates and mask in tide gauge extraction. The fields of the result stay lazy, and computing one position of a pointwise or column-wise result along a horizontal dimension or time loads only chunks that hold this position (for steric heights also the reference time level).",
    ["inputs", "schedules"], "all gridded functions (spiciness excepted), chunkings, positions, options",
    "Tests use data in memory.",
    [D, S + "steric.py", S + "reference.py", U, T, S + "tidegauge.py", S + "dynamic.py"], [("lazy evaluation", "all gridded functions")],
    ["chunk loads during the call and during a partial computation, lazy state of results"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))

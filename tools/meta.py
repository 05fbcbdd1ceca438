"""Single source of properties.jsonl and MANIFEST.json (run: python tools/meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  over=over, text=" ".join(text.split()), why=" ".join(why.split()),
                  files=["hrosailing/" + f for f in files],
                  mech=[dict(name=a, where="hrosailing/" + b) for a, b in mech],
                  observe=observe, technique=technique, note=" ".join(note.split())))


PD = "polardiagram/"
prop("C01", "Polar diagrams survive a write/read cycle in the native CSV format",
     """Writing a polar diagram to the library's own CSV format and reading that file back yields a diagram of the
     same kind holding bit-identical data: a table's wind speeds, wind angles and boat speeds, a point cloud's points
     in order, a curve's model function, parameters and angle unit, and a multi-sail diagram's sail names and its
     component diagrams in order. This holds for every finite value, any table or cloud size, any path the file system accepts, after earlier files at
     the same path were overwritten, and next to other diagrams saved under other names.""",
     ["inputs", "histories"],
     """all tables, point clouds, curves over the built-in model functions and multi-sail diagrams with arbitrary finite
     float entries, sizes from 1x1, arbitrary sail names and file locations; repeated saves to the same path""",
     """Tests read three fixed example files and one write per class; number formatting, sizes, sail names and paths
     are a universally quantified input space.""",
     [PD + "_polardiagramtable.py", PD + "_polardiagrampointcloud.py", PD + "_polardiagramcurve.py",
      PD + "_polardiagrammultisails.py", PD + "_reading.py"],
     [("to_csv / __from_csv__ of each class", PD + "_polardiagramtable.py"), ("format dispatch", PD + "_reading.py")],
     ["to_csv", "from_csv", "attributes of the re-read diagram"],
     "property-based round trip (hypothesis)",
     "Random search over diagrams and paths; floats compared bit for bit. No proof of absence.")
prop("C02", "Tables survive, and are read correctly from, the ORC, OpenCPN and array formats",
     """A table written in one of the foreign formats and read back with the same format name has identical
     resolutions and boat speeds. A hand-made file in one of these layouts - rows and columns in any order, OpenCPN
     cells left empty (meaning boat speed 0), angles with a degree sign - gives exactly the table laid out in the file,
     ordered by wind speed and wind angle; so does a hand-made file in the intern layouts of the example files (a table,
    a point cloud, all sails in a single file). Unknown format names are rejected with an error when reading and when
    writing.""",
     ["inputs"],
     """all tables with at least two columns and rows for the foreign formats; all permutations of rows and columns,
     all placements of empty cells and degree signs in generated files""",
     """Tests read one example file per format; permutations, empty cells and number shapes are not sampled.""",
     [PD + "_polardiagramtable.py", PD + "_reading.py"],
     [("foreign format writers", PD + "_polardiagramtable.py"), ("foreign format readers", PD + "_reading.py")],
     ["to_csv(fmt)", "from_csv(fmt)"],
     "property-based round trip and generated-file differential test (hypothesis)",
     "Oracle: an independent writer of the layouts in the harness.")
prop("C03", "A polar table returns exactly its stored entries, whatever order they came in",
     """A table built from resolutions and boat speeds in any row and column order keeps wind speeds ascending and wind
     angles ascending in [0, 360), and indexing, calling, slicing and listing its points all return exactly the boat
     speed given for that wind speed and wind angle, for every equivalent wind angle modulo 360. Without boat speeds every
     entry is zero and every operation still works; a stored combination that does not exist and a negative wind speed
     are rejected by indexing, and a call for a wind not in the table is the interpolation of the table entries near it, again
     periodic in the wind angle.""",
     ["inputs", "configurations"],
     """all finite resolutions (given as scalars, lists, arrays, unsorted, angles outside [0, 360)), all boat speeds, all
     queries""",
     """The table class has no test of its own; every order, resolution and query is an input the tests cannot enumerate.""",
     [PD + "_polardiagramtable.py", PD + "_basepolardiagram.py"],
     [("sorting", PD + "_polardiagramtable.py:_sort_table"), ("lookup", PD + "_polardiagramtable.py:__getitem__/__call__")],
     ["wind_speeds", "wind_angles", "boat_speeds", "indexing", "call", "get_points", "get_slices"],
     "property-based testing against a dictionary model (hypothesis)",
     "Model: dict from (wind speed, angle mod 360) to the given boat speed.")
prop("C04", "Editing a polar table changes exactly the addressed entries",
     """After any sequence of entry changes, a table equals a dictionary that received the same assignments: the boat
     speed given for a wind speed and wind angle is stored at exactly that cell in the order the caller listed the winds, and every other cell is
     untouched. A change whose shape does not match, that names winds outside the table, or holds non-finite values is
     rejected and leaves the table as it was; arrays handed out earlier and other tables are not affected.""",
     ["histories"],
     """all sequences of changes (whole table, rows, columns, single cells, sub-blocks in any listed order, invalid
     requests) interleaved with symmetrisation, saving, reloading and reads""",
     """No test calls the editing operation at all; histories are an infinite space.""",
     [PD + "_polardiagramtable.py"], [("change_entries", PD + "_polardiagramtable.py:change_entries")],
     ["change_entries", "boat_speeds", "indexing"],
     "model-based stateful testing with shrinking operation sequences (hypothesis)",
     "Model: dict; compared after every operation.")
prop("C05", "A point cloud keeps exactly the points it was given",
     """After construction and any sequence of additions a point cloud holds, in order, exactly the points given - wind angles
     normalised to [0, 360), points with negative wind speed left out at construction, apparent-wind input converted to true wind -
     and asking for a wind it contains returns the boat speed of the first such point, for every equivalent wind angle modulo
     360. Wind speeds and wind angles are reported unique and ascending, boat speeds and points complete; additions with
     non-positive wind speed are rejected without changing the cloud, and slices contain exactly the points within the requested
     range.""",
     ["inputs", "histories"],
     """all point lists and all sequences of additions (true and apparent wind, accepted and rejected), reads and
     symmetrisations""",
     """Tests construct one fixed cloud; the history of additions and the normalisation are not exercised.""",
     [PD + "_polardiagrampointcloud.py", "core/computing.py"],
     [("normalisation and storage", PD + "_polardiagrampointcloud.py:__init__/add_points"), ("lookup", PD + "_polardiagrampointcloud.py:__call__")],
     ["points", "wind_speeds", "wind_angles", "boat_speeds", "call", "get_slices"],
     "model-based stateful testing (hypothesis)", "Model: list of points.")
prop("C06", "Symmetrising a polar diagram yields its mirror-symmetric version",
     """Symmetrising a diagram given on one side of the 0-180 degree axis yields a new diagram that contains the original data unchanged,
     and for every wind speed the same boat speed at an angle and at its mirror image 360 minus the angle, with no duplicated 0 or
     180 degree rows in a table. For a curve the result is the average of the curve at the angle and at its mirror image, in the
     curve's own angle unit; for a multi-sail diagram every sail is symmetrised and keeps its name; the original diagram is
     never changed.""",
     ["inputs"], """all tables, clouds, curves (degrees and radians) and multi-sail diagrams with angles on one side, with
     and without 0 and 180 degrees""",
     """Tests symmetrise one curve example; the axis angles and units are the corner cases.""",
     [PD + "_polardiagramtable.py", PD + "_polardiagrampointcloud.py", PD + "_polardiagramcurve.py", PD + "_polardiagrammultisails.py"],
     [("symmetrize", PD + "_polardiagramtable.py:symmetrize")], ["symmetrize", "call", "points"],
     "property-based metamorphic testing (hypothesis)", "Reference: mirrored dictionary / mirrored evaluation.")
prop("C07", "Slices and point queries agree with evaluating the polar diagram",
     """For every kind of diagram, the slices requested for wind speeds come with exactly those wind speeds as labels
     (in order, with n equidistant intermediate wind speeds between neighbours when asked for), one slice of three rows per label, and each
     column of a slice of a table or curve - and of a point cloud with an interpolator - holds the wind speed, an angle and the boat speed the
     diagram itself returns there. Point queries, given as an array of winds in either orientation or as a pair of resolutions,
     return one row per requested wind with the value of the diagram there; requests that are not numbers are rejected.""",
     ["inputs", "configurations"],
     """all diagrams of the four kinds, all wind requests (scalar, list, array, none), numbers of steps, angular resolutions""",
     """Tests check shapes for fixed examples; agreement between the access paths for all requests is not tested.""",
     [PD + "_basepolardiagram.py", PD + "_polardiagramtable.py", PD + "_polardiagramcurve.py", PD + "_polardiagrampointcloud.py", PD + "_polardiagrammultisails.py"],
     [("get_slices/get_points", PD + "_basepolardiagram.py")], ["get_slices", "ws_to_slices", "get_points"],
     "differential property-based testing between access paths (hypothesis)", "Oracle: evaluation of the diagram point by point.")
prop("C08", "A multi-sail diagram is the best of its sails and names them correctly",
     """A multi-sail diagram evaluates, for every wind, to the largest boat speed among its sails; its slices are exactly the concatenation
     of its sails' slices and the accompanying information names, column by column, the sail the column came from. Sail names
     are the given ones, completed with default names or cut to the number of diagrams, looking up a sail by name returns its diagram, and
     unknown names are rejected.""",
     ["inputs"], """all sequences of tables (and other diagrams) of different sizes, all name lists shorter, equal or longer""",
     """Tests use two fixed tables of equal size.""",
     [PD + "_polardiagrammultisails.py"], [("__call__, ws_to_slices, get_slice_info", PD + "_polardiagrammultisails.py")],
     ["call", "get_slices(full_info=True)", "sails", "indexing"],
     "property-based testing against a naive model (hypothesis)", "Model: list of (name, diagram).")
prop("C09", "A polar curve evaluates its function with normalised angles in its own unit",
     """Evaluating a curve gives its function applied to the wind speed, the wind angle reduced to one turn and the
     curve's parameters, elementwise on arrays, in degrees or radians as declared; it is periodic in the wind angle, rejects
     negative wind speeds and too few parameters for its function, and never modifies the arrays it is given. The built-in model
     functions compute the formulas documented for them.""",
     ["inputs"], """all built-in and user functions, parameters, wind arrays, both units""",
     """Model functions have no tests; curve tests use one function.""",
     [PD + "_polardiagramcurve.py", "core/modelfunctions/__init__.py", "core/modelfunctions/_models2d.py"],
     [("__call__", PD + "_polardiagramcurve.py:__call__"), ("model functions", "core/modelfunctions/_models2d.py")],
     ["call", "model functions"],
     "property-based testing against documented formulas (hypothesis)", "Reference: independent scalar implementations of the documented formulas.")
prop("C10", "Apparent and true wind conversion is vector arithmetic and invertible",
     """Converting true wind to apparent wind adds the head wind caused by the boat speed to the wind vector, converting
     apparent to true wind subtracts it, row by row, with wind angles in [0, 360) on the correct side; boat speeds are passed through.
     Converting there and back returns the original wind speed and wind angle (wherever the wind does not vanish), zero
     boat speed changes nothing, results are always finite, and negative wind speeds or wrong shapes are rejected.""",
     ["inputs"], """all finite wind records including angles outside [0, 360), dead upwind/downwind, boat speed equal to the
     wind speed, zero wind""",
     """The conversion has no tests; it feeds point clouds and the pipeline.""",
     ["core/computing.py"], [("convert_wind", "core/computing.py:_Wind.convert_wind")],
     ["convert_apparent_wind_to_true", "convert_true_wind_to_apparent", "point cloud with apparent wind"],
     "property-based round trip and vector reference (hypothesis)", "Reference: 2-D vector sum with atan2; tolerances scale with the conditioning.")
prop("C11", "The measurement data table stays rectangular and loses nothing",
     """After any sequence of additions, updates, renamings, deletions, masking, slicing, stripping and concatenation, the measurement
     data table behaves like a list of records: every column has as many entries as there are rows, missing entries are empty, each column
     holds a single data type, and every value given is found in the row and column it was put in. Rows can be iterated in each offered
     form with the same content, requests that would mix types or rename onto an existing column are rejected, and the
     caller's own lists and dictionaries are never changed or shared.""",
     ["histories"], """all sequences of operations on tables of mixed column types with missing entries""",
     """The container has no tests although every pipeline step passes data through it.""",
     ["core/data.py"], [("Data", "core/data.py:Data")], ["rows", "indexing", "n_rows", "n_cols", "keys", "type"],
     "model-based stateful testing (hypothesis)", "Model: ordered dict of columns plus row count.")
prop("C12", "Conversion to the standard data format renames and casts without loss",
     """Converting data to the standard format gives every column whose name is a documented synonym (in any letter case, with the documented
     separators or a plural s) its standard name, numbering further columns that map to the same name instead of overwriting, and leaves
     all other columns alone. Separate date and time columns become one datetime column (unless there is one already), every column whose entries all read
     as numbers becomes floating point, and no value or row is lost or reordered; converting twice changes nothing more.""",
     ["inputs"], """all column name spellings, combinations of clashing columns, value types and missing entries""",
     """No tests; synonyms x separators x collisions x types is a combinatorial space.""",
     ["core/data.py", "core/constants.py"], [("hrosailing_standard_format", "core/data.py")], ["keys", "columns", "type"],
     "property-based testing against an independent reference (hypothesis)", "Reference: name normaliser written from the documentation.")
prop("C13", "Weighted points keep points and weights paired",
     """Selecting from weighted points by a mask and extending them by other weighted points keep every point paired with its own weight and in order, for
     points stored as arrays, dictionaries and measurement data alike; the operands of a selection are not changed, and a scalar weight is given to every point.""",
     ["inputs", "histories"], """all sequences of selection and extension on the three representations""",
     """No tests.""", ["core/data.py"], [("WeightedPoints", "core/data.py:WeightedPoints")], ["data", "weights"],
     "model-based property testing (hypothesis)", "Model: list of (record, weight).")
PR = "processing/"
prop("C14", "Imputation fills gaps only between close measurements and keeps the rest",
     """The removing imputator keeps exactly the rows without missing entries, in order. The local fill imputator leaves every
     measured value as it is, removes empty columns, interpolates missing time stamps linearly between known ones within the configured time distance,
     fills a missing value from the neighbouring measurements of the same column - by the configured before, between and
     after rules, given the relative position in time - exactly when those lie within that distance, and returns only the rows that are then complete. The reported
     statistics count the removed rows and columns and the filled entries correctly, and an imputator used again gives the same answer.""",
     ["inputs", "configurations"], """all data sets with arbitrary patterns of missing values and time gaps, all time limits and fill rules""",
     """Tests use one or two fixed gap patterns.""",
     [PR + "imputator.py"], [("FillLocalImputator / RemoveOnlyImputator", PR + "imputator.py")], ["impute", "statistics"],
     "property-based testing against a naive reference (hypothesis)", "Reference: per-entry re-statement of the documented rule.")
prop("C15", "Affine smoothing replaces plateaus by lines between their midpoints only",
     """Affine smoothing leaves time stamps, row count, order and columns that are not floating point unchanged; each floating point
     column keeps the value of a run of equal values except within the configured time span of the run's borders (halfway to the neighbouring
     runs), where it passes linearly to the mean of the two runs. The lazy smoother changes nothing. Smoothed values never leave the range of the
     original values, constant columns are unchanged, and time stamps that are not chronological are rejected.""",
     ["inputs"], """all chronologically sorted series with plateaus, gaps and missing entries; all time spans""",
     """Tests use one hand-made series.""",
     [PR + "smoother.py"], [("AffineSmoother", PR + "smoother.py")], ["smooth"],
     "property-based testing against a naive reference (hypothesis)", "Reference: run-length encoding and linear interpolation in exact time.")
prop("C16", "Filters select exactly the points their rule names",
     """The quantile filter keeps exactly the points whose weight is at least the weight at the configured quantile, the bound filter
     exactly those whose weight lies within the closed bounds; the result is a mask with one decision per weight that does not depend on the order of
     the points, contradictory or out of range settings are rejected, and the statistics count the kept and removed points.""",
     ["inputs", "configurations"], """all weight arrays, with ties, and all settings""", """Tests use two arrays.""",
     [PR + "filter.py"], [("QuantileFilter/BoundFilter", PR + "filter.py")], ["filter", "statistics"],
     "property-based testing against a naive reference (hypothesis)", "Reference: sorted-percentile definition.")
prop("C17", "Weighers weigh each point as documented, independently of earlier calls",
     """Every weigher returns one finite weight per data point, between 0 and 1 for the built-in ones, following
     its documented rule: one for all points; the deviation from the mean inside a cylinder; the number of points in a cylinder;
     the local fluctuation of attributes over a time window; the value of a fuzzy statement. Weighers combined by sum, difference,
     product, quotient or power, with each other or with numbers or arrays on either side, weigh as the same combination of the individual weights; a weigher used
     again on other data gives the same weights as a fresh one, its statistics are the mean, extremes and shares per tenth of the span of its last weights, and it never changes the data.""",
     ["inputs", "histories", "configurations"], """all data sets (arrays and measurement data), radii, norms, dimensions, combinations and sequences of uses""",
     """Tests use tiny fixed data and never reuse a weigher.""",
     [PR + "weigher.py"], [("weighers and combinators", PR + "weigher.py")], ["weigh", "statistics"],
     "property-based differential testing against naive references (hypothesis)", "Reference: direct loops over all points.")
prop("C18", "Fuzzy statements follow fuzzy logic and their declared truth functions",
     """A fuzzy statement evaluates to a truth value between 0 and 1 following its declared shape: comparisons of a fuzzy variable cross one half at
     the threshold, are monotone, and sharper settings are steeper; equality peaks at its value, and a sharpness given for one statement is used for that
     statement only. Negation, conjunction and disjunction are 1 minus, minimum and maximum of the operands on every data point of a record, array or table, so the
     laws of fuzzy logic (double negation, De Morgan, commutativity, associativity, idempotence, distributivity) hold.""",
     ["inputs", "programs"], """all fuzzy expressions built from comparisons and the logic operators, all data points and data tables""",
     """Tests evaluate single operators on fixed values.""",
     [PR + "weigher.py"], [("FuzzyBool/FuzzyVariable", PR + "weigher.py")], ["evaluation", "weigh"],
     "property-based testing with generated expression trees (hypothesis)", "Reference: recursive evaluator in the harness.")
prop("C19", "Interpolators reproduce the data and stay within it",
     """Every interpolator returns a finite value that equals the data value where the query is a data point (with scaling factor 1), and
     otherwise the mean of the data with the weights of its documented formula, whatever the order of the points; it therefore lies between the smallest
     and largest value of the points used (for Shepard's method within its slope factor times their range beyond). Bilinear grid interpolation
     interpolates between the four surrounding grid points, is exact on bilinear data, and reports queries outside the grid or without a grid as errors;
     no interpolator changes the points it is given.""",
     ["inputs", "configurations"], """all weighted point sets (including single points, equidistant points and repeated positions) and query points, all parameters""",
     """Tests use a handful of points.""",
     [PR + "interpolator.py"], [("interpolators", PR + "interpolator.py")], ["interpolate"],
     "property-based testing against documented formulas (hypothesis)", "Reference: scalar re-implementations of the documented formulas.")
prop("C20", "Neighbourhoods contain exactly the points their definition says",
     """Membership in a ball, ellipsoid, cuboid or polytope around the origin is decided for each point exactly by the documented inequality,
     independently of the other points and of their order, with one decision per point (none for no points). The scaling ball is the smallest ball that contains the
     required number of points, all of them if there are fewer, however often it is used; the norms used to measure distances are the euclidean norm of each point and its documented scaling of the
     components; parameters out of range are rejected, and neither the points nor the parameters given are modified.""",
     ["inputs", "configurations"], """all point sets, radii, norms, transformations and half-space systems""",
     """Tests use fixed examples of each kind.""",
     [PR + "neighbourhood.py"], [("neighbourhoods", PR + "neighbourhood.py")], ["is_contained_in"],
     "property-based testing against scalar membership definitions (hypothesis)", "Points within rounding of the boundary are not judged.")
prop("C21", "Samplers return the requested number of points spread over the data's hull",
     """Each sampler returns exactly the requested number of distinct, finite sample points, all of them within the convex hull of the
     given points and spread over the whole of it (the share of samples in a part of the hull is about its share of the area), for every
     non-degenerate point set and every position and scale of the data, with or without boat speeds. A non-positive number of samples and too few points are
     rejected, and the given points are not changed.""",
     ["inputs", "configurations"], """all planar point sets with a two-dimensional hull, all sample counts""",
     """Tests check the count on a fixed square.""",
     [PR + "sampler.py"], [("samplers", PR + "sampler.py")], ["sample"],
     "property-based testing against hull membership and brute force (hypothesis)", "Hull membership is decided with a relative tolerance.")
prop("C22", "Regression recovers the parameters of data that follow the model",
     """Fitting data generated by a model returns the parameters that produced it (within the solver's
     accuracy) with both regressors, with given and default initial values, and on noisy data the least squares fit has a residual no larger than that of the generating parameters or of any small change of
     the solution. Fitting again with other data gives the same answer as a fresh regressor, whatever the order of the rows. Injected artificial zero points are exactly the documented
     ones - the requested number at 0 and at 360 degrees, equidistant over the range of wind speeds, boat speed 0, weight 1 - and leave the measured points untouched.""",
     ["inputs", "histories"], """all linear and mildly non-linear models with well conditioned data, noise and parameter vectors""",
     """Tests mock the solver or use one data set.""",
     [PR + "regressor.py", PR + "injector.py"], [("regressors", PR + "regressor.py"), ("ZeroInjector", PR + "injector.py")], ["fit", "optimal_params", "inject"],
     "property-based testing with planted parameters (hypothesis)", "Optimality checked against the generating and perturbed parameters.")
M = "models/"
prop("C23", "Influence models remove and add back exactly their influence",
     """Removing an influence yields one row per record with its true wind speed, true wind angle and boat speed (converted from apparent wind or taken from speed over ground
     where necessary), in order; the wind angle correction subtracts its correction from every angle modulo 360 and, when adding the influence, evaluates the polar diagram at the angle with the
     correction added back, for single records and whole data sets alike, while the identity model does neither. Fitted to records that are symmetric about a misaligned zero with a gap there, the wind angle correction estimates
     that misalignment wherever it lies on the circle, and fitting again forgets the earlier data; incomplete wind data is rejected and the data given is never changed.""",
     ["inputs", "histories"], """all wind data sets, corrections, interval settings""", """The influence models have no tests.""",
     [M + "influencemodel.py"], [("influence models", M + "influencemodel.py")], ["fit", "add_influence", "remove_influence"],
     "property-based round trip and planted-offset testing (hypothesis)", "")
prop("C24", "Gridded weather is multilinear interpolation of its grid in time and space",
     """A gridded weather model - built from arrays, a NetCDF file (axes in either direction, hours or seconds) or the weather service - returns at
     every grid point exactly the stored weather and in between the multilinear interpolation over time, latitude and longitude; points outside
     the grid are rejected with a ValueError. Saving a model to a file and loading it gives the same weather everywhere (times are kept to the
     second). A combined weather model answers with everything those of its models answer that cover the point, later models taking precedence, and
     skips failing models unless it was asked to pass their exceptions on.""",
     ["inputs", "configurations"], """all grids (time, latitude, longitude, attributes) of at least two values per axis, unevenly spaced, and all query points: corners,
     edges, faces, interior, outside""",
     """The weather models have no tests.""",
     [M + "weather_model.py"], [("GriddedWeatherModel", M + "weather_model.py")], ["get_weather", "to_file", "from_file"],
     "property-based differential testing against an independent multilinear interpolation (hypothesis)", "Tolerance 1e-9 relative.")
prop("C25", "Globe models map consistently and measure true distances",
     """Projecting a position and computing its latitude and longitude again returns the same place, on the sphere up to the poles and on Mercator maps
     (also with turned virtual poles) away from them; the projections are those of the named geometry with the given earth radius. Distances are the great circle
     distance on the sphere and the straight line distance on the map, symmetric, zero only for equal places, accurate for nearly equal ones and satisfying the
     triangle inequality. A shortest path has the requested number of points, starts and ends at its end points and is evenly spaced along the great circle or
     straight map line whose length is the distance, for every pair of places including equal and nearly equal ones.""",
     ["inputs"], """all positions (latitude within +-90, longitude within +-180) and pairs and triples thereof, step counts, earth radii, reference points""",
     """The globe models have no tests.""",
     [M + "globe_model.py"], [("globe models", M + "globe_model.py")], ["project", "project_back", "distance", "shortest_path"],
     "property-based round trip, metric laws and haversine reference (hypothesis)", "")
prop("C26", "Convex sailing directions are optimal and add up to the desired direction",
     """The sailing plan for a desired direction consists of one or two courses of the polar diagram slice whose boat velocity vectors, weighted by the
     returned time proportions (non-negative, adding to one), point exactly in the desired direction, for every direction (modulo 360). The resulting speed is the
     largest that any mixture of courses available in the slice makes good in that direction - never slower than the direct course, which is returned alone where it
     is the fastest - and for multi-sail diagrams each course names the sail that achieves it. Directions no mixture reaches are rejected with a ValueError, and an influence
     model changes the speeds of the courses before the plan is chosen.""",
     ["inputs"], """all polar slices with at least three angles around the origin, all directions, all four kinds of diagram""",
     """Two tests with one diagram.""",
     ["cruising/basics.py"], [("convex_direction", "cruising/basics.py:convex_direction")], ["convex_direction"],
     "property-based testing against brute-force optimum over all pairs of courses (hypothesis)", "Optimum computed by enumeration over all pairs.")
prop("C27", "Sailing times and reachable positions agree with the boat's speed",
     """Under constant weather the position returned for a duration of sailing lies on the given course at the distance the boat covers at the speed the polar diagram (with the
     influence model, if any) gives for the wind there, so splitting the duration leads to the same place, more time leads at least as far and a calm leads nowhere; in changing weather
     the distance follows the weather at the time and place passed. The cost of a leg is the absolute cost of its travel time and length
     plus the integral of the given cost density along it. Cruise itineraries sail the great-circle course and distance between the two places with the fastest mixture of courses, so they reach
     the destination and take no longer than sailing straight, whichever of the three formats the wind is given in.""",
     ["inputs"], """all constant winds, polar diagrams, positions, courses, durations""",
     """Isochrone and cost functions have no tests.""",
     ["cruising/basics.py"], [("isochrone, cost_cruise, cruise", "cruising/basics.py")], ["isochrone", "cost_cruise", "cruise"],
     "property-based testing under constant weather (hypothesis)", "Integration tolerance as documented.")
prop("C28", "The pipeline accounts for every measurement on its way to the diagram",
     """Running the polar pipeline applies handler, imputator, smoother, pre-expander weigher and filter, expander, pre-influence weigher and filter, influence model, post weigher and filter,
     injector and extension in this order, source by source until the influence model sees all sources together; every measurement entering a step either leaves it or is reported as removed by it, and switched off steps
     do nothing (points count as weight 1, nothing is filtered or injected). The statistics filed under a step are those of that step and source. Test data passes the same steps without refitting the influence model or injecting,
     influences neither the diagram nor the other training statistics, and is what the quality assurance sees. A pipeline used repeatedly, with lists of handlers or alias names, gives the results of a fresh one; training data with no row left is a RuntimeError.""",
     ["inputs", "configurations", "histories"], """all measurement sets, all combinations of components and switches, one or several data sources, repeated runs""",
     """The pipeline has no tests at all.""",
     ["pipeline/pipeline.py"], [("PolarPipeline.__call__", "pipeline/pipeline.py")], ["pipeline output", "step statistics", "quality assurance"],
     "property-based testing of generated pipelines with recording components (hypothesis)", "")
prop("C29", "Pipeline extensions build the diagram their components dictate",
     """The table extension builds a table on the wind speeds and angles it was configured with (lists, step sizes, None, "min_max"; "auto": distinct winds from the
     smallest to the largest of the data) whose boat speed at each wind is the interpolator applied to exactly those weighted points whose offset from that wind the
     neighbourhood accepts, and 0, with an InterpolationWarning, where it accepts none; the point cloud extension does the same at each wind its sampler returns, one point
     per sample; the curve extension fits its regressor to the points (wind angles in radians if it was declared so) and returns the curve of the fitted model with the
     parameters of that fit, in the declared unit. Earlier diagrams stay what they were when the extension is used again, and the weighted points handed in are not changed.""",
     ["inputs", "configurations"], """all weighted point sets, resolutions, interpolators, neighbourhoods, samplers, sail columns""",
     """No tests.""", ["pipeline/extensions.py"], [("extensions", "pipeline/extensions.py")], ["process"],
     "differential property-based testing against the components called directly (hypothesis)", "")
prop("C30", "Quality reports measure the diagram against the test data as documented",
     """The report on a polar diagram holds the figures documented, computed from the test points and the boat speeds of the diagram at their winds (angles in degrees, also for
     curves in radians): largest, smallest, average and average quadratic absolute difference; for the conforming report also the figures of the diagram's boat speeds
     against the wind over wind speeds up to 20, the number of different winds when rounded to integers, and the largest and average spread of boat speeds within one rounded wind.
     A diagram that meets every measurement has differences of zero, the order of the test data does not matter, and the test data is not changed.""",
     ["inputs"], """all diagrams and test data sets""", """No tests.""",
     ["pipeline/quality_assurance.py"], [("quality assurance", "pipeline/quality_assurance.py")], ["check", "statistics"],
     "property-based testing against naive recomputation (hypothesis)", "")
prop("C31", "Plots show exactly the data of the polar diagram in the declared colours",
     """Plotting or scattering a diagram on the flat and polar projections draws one line or set of markers per slice of get_slices with exactly its angles and boat speeds, in the order of the angles; with several
     sails a line consists of one part per sail holding the points of that sail, and polar axes have 0 on top and run clockwise. Slices take the colors as declared: one color for all, a gradient by wind speed between two, several in turn or
     (wind speed, color) pairs with blue for the rest; legends and color bars show those colors. Gradient and 3D plots mark exactly the points of get_points colored by boat speed respectively placed at (polar boat velocity, wind speed) and colored by wind speed, surfaces span those points only. Plain data
     is drawn as given, and the diagram is unchanged.""",
     ["inputs", "configurations"], """all diagrams, wind speed requests, projections, colour settings, legends""",
     """Image comparison tests of a few fixed plots.""",
     ["plotting/projections.py"], [("plot_polar_slice, plot_polar_sheet", "plotting/projections.py")], ["Axes.lines", "Axes.collections", "legend"],
     "property-based testing of the drawn artists against the slices (hypothesis)", "")
prop("C32", "Drawn convex hulls are the convex hulls of the slices",
     """Plotted with use_convex_hull, a slice is drawn through exactly the vertices of the convex hull of its boat velocities, in the order of their wind angles: every vertex is drawn, every point drawn is a point of the slice
     or lies on the hull at wind angle 0 or 360, and if the vertices span more than 180 degrees the line is closed there with one boat speed. If the boat is within the hull no point of the slice is outside of what is drawn.
     Slices without a proper hull (too few points, all on a line) are drawn as they are.""",
     ["inputs"], """all slices in general position""", """Fixed examples.""",
     ["plotting/projections.py"], [("plot_convex_hull", "plotting/projections.py")], ["Axes.lines"],
     "property-based testing against an independent hull (hypothesis)", "")
prop("C33", "Data handlers deliver exactly the measurements in the source",
     """The array, CSV and NMEA handlers deliver exactly what the source contains: every value, in its row and under its standard name, as a number or date, missing
     entries as None, and nothing else; n_rows and n_cols report its size. Reading CSV files with or without pandas gives the same; a cell that is no value is refused.
     From an NMEA log each attribute holds the values of the sentences in their order: MWV winds as true or apparent as the sentence declares them, latitude and longitude
     signed by hemisphere, the time of day and date, speeds over ground and through the water; values of one sentence stay in one row, in the order of the log; the
     wanted and unwanted sentences and attributes select among these. The source is not changed.""",
     ["inputs"], """all arrays, generated CSV files and generated NMEA logs with valid checksums""", """Tests read one small file each.""",
     [PR + "datahandler.py"], [("handlers", PR + "datahandler.py")], ["handle", "statistics"],
     "property-based testing with generated files (hypothesis)", "Reference: the generator's own records.")
prop("C34", "Weather expansion gives each record the weather of its time and place",
     """Expanding measurements with time and position by a weather model gives every record the weather of the model at its own time and place, under the standard names, marked as "(duplicate)" where the measurements have such a column
     already; all other values, their columns and the order of the records stay. Records for which the model raises a ValueError are deleted, or kept without weather (None) if asked to, other errors are passed on; records for which only some or none of several
     models have weather get what there is. The weather may come from one or several models, in floats or whole numbers, and expanding twice adds the weather twice. The lazy expander changes nothing.""",
     ["inputs"], """all data sets and weather models, covered, partly covered and uncovered""", """No tests.""",
     ["pipeline/expander.py"], [("WeatherExpander", "pipeline/expander.py")], ["expand"],
     "differential property-based testing against the weather model (hypothesis)", "")
prop("C35", "Arguments are not changed and results are not shared",
     """No function or component changes the arrays, lists, dictionaries or diagrams it is given (except the Data handed to imputators, smoothers and expanders), and overwriting a result, including what the accessors of diagrams and weather models
     hand out, changes neither the object it came from nor arguments or other results. Diagrams and gridded weather models do not change if the arrays they were built or edited with are overwritten, nor when diagrams derived
     from them are edited. So repeated calls give the same results, whatever other instances were used for in between, and earlier results stay.""",
     ["inputs", "histories"], """all public operations on polar diagrams, wind conversion, pipeline components and models with generated arguments""",
     """No test looks at its arguments after a call.""",
     [PD + "_polardiagramtable.py", PD + "_polardiagrampointcloud.py", "core/computing.py", "core/data.py", PR + "weigher.py"],
     [("defensive copies", PD + "_polardiagramtable.py")], ["arguments and accessors after the call"],
     "property-based before/after comparison (hypothesis)", "Deep comparison of copies taken before the call.")
prop("C36", "The built-in model functions compute their documented formulas",
     """For all parameters, every model function of wind speed and angle returns the value of the formula in its documentation at each pair of a wind speed and an angle, whether these are given as whole or fractional numbers, arrays or
     broadcast combinations of both, in the shape of the result of broadcasting. The functions of one variable they consist of do so too, with every combination of their keywords; a concave function without downturn and limit is refused with a ValueError.""",
     ["inputs"], """generated parameters, scalars, arrays of whole and fractional numbers in several shapes, for every model function""",
     """Tests use no model function except as a black box in a fit.""",
     ["core/modelfunctions/__init__.py", "core/modelfunctions/_models2d.py"], [("model functions", "core/modelfunctions/__init__.py")], ["return values"],
     "property-based testing against the documented formulas (hypothesis)", "")
prop("C37", "Printed polar diagrams, data tables and components show their data",
     """str() of a table lists its wind speeds and one line per wind angle with the boat speed below each wind speed, of more than 15 wind speeds the first and last five; of a point cloud one line per point in order; of a multi-sail
     diagram each sail's name and diagram, all rounded to the printed digits. repr() of tables and point clouds shows all their numbers, and curves print the name of their function, all parameters and the unit.
     Measurement tables print each column's name, type and entries (of ten and more the first and last five), and processing components their class, parameters and norm.""",
     ["inputs"], """generated tables (also wide ones), point clouds, curves, multi-sail diagrams, measurement tables and components""",
     """Tests look at the text of one small table.""",
     [PD + "_polardiagramtable.py", PD + "_polardiagrampointcloud.py", PD + "_polardiagrammultisails.py", PD + "_polardiagramcurve.py"], [("__str__ / __repr__", PD + "_polardiagramtable.py")], ["str", "repr"],
     "property-based testing, parsing the text back (hypothesis)", "")
prop("C38", "Results depend on the numbers given, not on their type or memory layout",
     """Polar diagrams, cruising functions, models and pipeline components give the same results (up to rounding) whether whole numbers are given as floats, Python ints or NumPy integers, and whether arrays are contiguous, Fortran-ordered, strided, reversed, read-only or byte-swapped.
     Functions documented for array_like also give these results for lists and tuples; fractional values written into or added to such a diagram are not truncated.""",
     ["inputs"], """every listed function and component with generated whole numbers, two runs: contiguous float64 and a drawn number type, layout and container""",
     """Tests pass one literal of one type to each function; a truncating in-place assignment only shows with integer input.""",
     [PD, "models", "processing", "cruising", "wind.py"], [("number types and layouts", PD)], ["results"],
     "metamorphic property-based testing (hypothesis)", "")
prop("C39", "Operations that are refused leave everything as they were",
     """An operation that raises an exception (an update, extension, renaming or deletion of measurement data, an edit of a diagram, a call of a component, a fit) leaves the object, its arguments, its construction parameters and the results of later calls unchanged.
     Saving a diagram in an unknown format, or a curve whose function has no name, raises an exception and leaves an existing file of that name as it was.""",
     ["inputs", "histories"], """every listed operation on generated objects with generated broken arguments (missing, wrongly typed, wrongly shaped, NaN, empty, ragged), deep snapshots before and after, and correct calls before and after""",
     """Tests only assert that an exception is raised; what a half-finished operation left behind shows in the calls that follow.""",
     ["core/data.py", PD, "models", "processing", "cruising"], [("Data, WeightedPoints", "core/data.py"), ("edits and files", PD)], ["refusal"],
     "fault-injecting property-based testing (hypothesis)", "")
STALE = {}


def main():
    out = []
    checks, na = [], []
    for p in P:
        out.append({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": " ".join(p["text"].split())},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"],
                        "observe_at": p["observe"], "hook_needed": None},
        })
        if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
            checks.append({
                "property": p["id"],
                "quick_cmd": f"./run.sh {p['id']} quick",
                "thorough_cmd": f"./run.sh {p['id']} thorough",
                "technique": p["technique"],
                "level": "exploration",
                "level_note": ("Generated-input search with shrinking; deterministic for a given VERIF_SEED. "
                               + p["note"]).strip(),
            })
        else:
            na.append({"property": p["id"], "reason": p.get("na", "check not built yet")})
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fh:
        for o in out:
            fh.write(json.dumps(o, ensure_ascii=False) + "\n")
    man = {"version": 1,
           "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import hypothesis, numpy, scipy, matplotlib\"",
           "checks": checks, "not_applicable": na,
           "notes": "All checks import hrosailing from /repo's working tree; nothing is built. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(man, fh, indent=1, ensure_ascii=False)
        fh.write("\n")
    try:
        import jsonschema
        ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for o in out:
            jsonschema.validate(o, ps)
        jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    except ImportError:
        pass
    for o in out:
        n = o["statement"].count(". ") + 1
        if n > 3:
            print("too many sentences?", o["id"], n)
    print(len(out), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()

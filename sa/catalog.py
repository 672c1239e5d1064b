"""The properties: text (-> properties.jsonl), obligations (-> checks), levels (-> MANIFEST.json)."""

def P(id, title, statement, over, quant, why, files, mech, obs=(), explain="", level="translation_validation", technique="", note="", assume=()):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, obs=list(obs), explain=explain, level=level, technique=technique, note=note, assume=list(assume))


VGT = "value-graph equivalence with a reference definition (gated SSA, symbolic global value numbering)"
VGN = ("Static equivalence of the code's value graph, built from the source without running it, with an independently written definition, for all inputs; decided by normalisation and case distinction. "
       "Trusts the translator's model of Python/numpy, ignores floating-point rounding, and counts obligations it cannot decide as undecided, not as holding.")
VGE = "The current source of each function is translated, without running it, into a gated value graph in normal form and compared with the value graph of an independent reference definition; a definite difference is reported with file, line and case. "

HELP_PP = ["valid-range", "valid-range-two", "polynomial", "ppval_1_nonan_two", "ppval_1_two"]
HELP_FZ = ["brent", "guess-to-bounds"]
CASTS = ["xr-to-np", "vert-dim", "contiguous", "process-casts"]
LABELS = ["xr-in", "xrs-in", "xr-out"]
EPS = ["eps-edge", "eps-tuple", "eps-grid", "eps-unit", "eps-norms", "eps-norms-unit"]
SURF = ["potential-surf", "anomaly-surf", "anomaly-surf-pair", "anomaly-surf-noref"]
OMEGA = ["omega-point", "omega-mixed", "omega-surface"]

CATALOG = [
    P("C01", "Equation-of-state derivative functions are the derivatives of the values",
      "Every function that provides partial derivatives of an equation of state (first to third order, with respect to salinity, temperature and pressure) returns, in its documented order, exactly the partial derivatives of that equation of state's value function. This holds for every salinity, temperature and pressure, including zero salinity where the formula is finite.",
      ["inputs"], "all salinities, temperatures, pressures, all three equations of state and all derivative orders offered",
      "the tests compare first derivatives at a single point with finite differences to a loose tolerance and never touch second and third derivatives; a wrong coefficient of a small term, or two swapped outputs, passes",
      ["neutralocean/eos/gsw.py", "neutralocean/eos/jmd95.py", "neutralocean/eos/jmdfwg06.py", "neutralocean/eos/gswc.py"],
      [("derivative functions of each equation of state", "neutralocean/eos/*.py: *_s_t, *_p, *_first_derivs, *_second_derivs, *_third_derivs")],
      "@DERIVS".split() + ["gswc-s-t", "gswc-p"],
      "The value function's value graph (a rational expression with square roots) is differentiated symbolically by the analyser, and each output of each derivative function is compared with it as an exact rational function over the coefficients in the source.",
      technique="symbolic differentiation of the value function's value graph, compared in rational normal form", note=VGN),
    P("C02", "Equations of state are the published formulas",
      "For every salinity, temperature and pressure the built-in equations of state evaluate the published formulas: the 75-term TEOS-10 specific volume, Jackett & McDougall (1995) in-situ density, and Jackett et al. (2006) in-situ density, each with exactly the published coefficients and units.",
      ["inputs"], "all salinities, temperatures and pressures",
      "the tests check one published check value per equation of state, to a tolerance that hides changes of small or high-order coefficients and all behaviour at other points",
      ["neutralocean/eos/gsw.py", "neutralocean/eos/jmd95.py", "neutralocean/eos/jmdfwg06.py"],
      [("value functions", "neutralocean/eos/gsw.py: specvol; jmd95.py: rho; jmdfwg06.py: rho")],
      ["@VALUES"],
      "The value function's value graph is compared, as an exact rational function, with the published coefficient tables written out in sa/ref/eos.py.", technique=VGT, note=VGN),
    P("C03", "Equation-of-state factories select and convert correctly",
      "Asking for an equation of state by name, or passing one's own functions, yields exactly that equation of state (value, salinity and temperature derivatives, or pressure derivative, as requested). Giving a gravitational acceleration and Boussinesq reference density yields the same function of depth with pressure 1e-4 times gravity times reference density times depth, with the chain-rule factor on pressure derivatives, and unknown names, or only one of the two parameters, are handled as documented.",
      ["inputs", "configurations"], "all named and user-supplied equations of state, all values of gravity and reference density, all salinities, temperatures and depths",
      "the tests only use the default equation of state without Boussinesq parameters, so dispatch of the other combinations and the conversion factor are never run",
      ["neutralocean/eos/tools.py", "neutralocean/lib.py"],
      [("factories and Boussinesq wrapper", "neutralocean/eos/tools.py: make_eos, make_eos_s_t, make_eos_p, make_bsq, vectorize_eos"), ("argument processing", "neutralocean/lib.py: _process_eos")],
      ["@MAKE", "process-eos"], VGE + "Each public factory is analysed for each named equation of state with and without Boussinesq parameters.", technique=VGT, note=VGN),
    P("C04", "Interpolant coefficients reproduce the data and the published slopes",
      "For every cast, with any number of leading and trailing missing values, the linear coefficients are the secant slope and left value of each interval, and the PCHIP coefficients are those of the monotone cubic Hermite interpolant with the weighted harmonic mean slopes inside, the three-point shape-preserving end slopes, and the linear interpolant for two data. Coefficients of intervals outside the valid data are NaN. The reported range of valid data of a cast runs from its first value that is not NaN up to the next NaN.",
      ["inputs"], "all casts: any length, spacing, values and position of missing data; every interval; array, one-dimensional and NaN-free constructors",
      "the tests compare interpolated values on a few casts without missing data; end slopes, the two-datum case, sign changes and casts with leading NaN are not reached for every constructor",
      ["neutralocean/ppinterp/linear.py", "neutralocean/ppinterp/pchip.py", "neutralocean/ppinterp/lib.py", "neutralocean/ppinterp/tools.py"],
      [("coefficient constructors", "neutralocean/ppinterp/linear.py, pchip.py"), ("valid data", "neutralocean/ppinterp/lib.py: valid_range, valid_range_1, valid_range_1_two")],
      ["@COEF"], VGE + "Every constructor is compared row by row: only, first, last, interior piece, and rows before and after the valid data.", technique=VGT, note=VGN),
    P("C05", "Interpolation evaluates the right piece, or NaN outside the valid data",
      "Evaluating an interpolant at any point, for any derivative order, uses the piece of valid data that contains the point (the left piece at interior knots, the first piece at the first datum) and returns NaN for points outside the valid data or NaN. Every evaluator agrees: array and one-dimensional, one or two dependent variables, from coefficients or directly from data, linear or PCHIP.",
      ["inputs", "configurations"], "all points, casts with any missing data, derivative orders, and all evaluators the package offers",
      "the tests evaluate a handful of points on a few casts with one evaluator kind; knots, derivative evaluation, NaN handling and the two-variable variants are not covered",
      ["neutralocean/ppinterp/ppinterp.py", "neutralocean/ppinterp/linear.py", "neutralocean/ppinterp/pchip.py", "neutralocean/ppinterp/tools.py", "neutralocean/ppinterp/lib.py"],
      [("evaluators", "neutralocean/ppinterp/ppinterp.py: ppval*, ppinterp*, pval"), ("factory", "neutralocean/ppinterp/tools.py: make_pp")],
      ["@EVAL"], VGE, technique=VGT, note=VGN),
    P("C06", "Casts reach the algorithms the same way whatever their layout",
      "Salinity, temperature and pressure given as numpy or xarray arrays, with the vertical dimension named or numbered at any position, and pressure given with full or only vertical dimension, are all turned into the same double-precision casts with the vertical dimension last. A pinning cast given by coordinate names and index, in any order, or by position, selects the same cast.",
      ["inputs", "configurations"], "all array types, dimension orders, vertical dimension specifications (name, positive or negative number), pressure shapes and pinning cast forms",
      "the tests use numpy arrays with the vertical dimension last and an integer pinning tuple only",
      ["neutralocean/lib.py"],
      [("input processing", "neutralocean/lib.py: _process_casts, _process_vert_dim, _contiguous_casts, xr_to_np, _interp_casts, _process_pin_cast")],
      CASTS + ["interp-casts", "pin-cast"], VGE, technique=VGT, note=VGN),
    P("C07", "Root finding brackets inside the given bounds and returns a sign-change point",
      "For every function and bounds, the bracketing search stays inside the given bounds, expands geometrically from the guess, and returns either a pair of points with a sign change or NaN. The bracketed solver then performs Brent's iteration, keeping the root bracketed, stops at the requested tolerance, and returns NaN when a bound is NaN or the function has the same sign at both.",
      ["inputs"], "all functions, bounds, guesses (inside, outside and at the bounds, or NaN) and tolerances",
      "the tests run a few smooth functions whose guess lies well inside the bounds; the paths with guesses on or outside the bounds, NaN values and zero end values are not taken",
      ["neutralocean/fzero.py"],
      [("Brent's method and bracketing", "neutralocean/fzero.py: brent, guess_to_bounds, brent_guess")],
      ["brent", "guess-to-bounds", "brent-guess"], VGE + "Loops are compared as mutually recursive state machines (bisimulation), so every iterate and the stopping rule are covered.", technique=VGT, note=VGN),
    P("C08", "Each cast of an isopycnal surface solves its defining equation",
      "In every water column the pressure of a potential density or in-situ density anomaly surface is sought as the root, within the valid data of that column, of density at the reference pressure minus the isovalue, or of density minus the density of the reference salinity and temperature at the same pressure minus the isovalue. The salinity and temperature returned are the interpolants at that pressure, and a column with fewer than two valid data or without a root gives NaN in all three.",
      ["inputs"], "all casts with any missing data, references, isovalues, equations of state and interpolants",
      "the tests solve one small synthetic ocean with one reference and isovalue and compare norms; per-cast conditions (valid range, bracket, missing data, tolerance) are not isolated",
      ["neutralocean/surface/_vertsolve.py", "neutralocean/surface/isopycnal.py", "neutralocean/fzero.py", "neutralocean/ppinterp/ppinterp.py"],
      [("per-cast solvers", "neutralocean/surface/_vertsolve.py: _make_vertsolve and the functions it selects")],
      ["vertsolve-potential", "vertsolve-anomaly"] + HELP_FZ + HELP_PP, VGE, technique=VGT, note=VGN),
    P("C09", "Isopycnal surfaces honour the reference, isovalue and pinning rules",
      "For both kinds of isopycnal surface, given reference values and isovalue are used as they are; a missing isovalue is the value at the pinning cast and pressure; and missing reference values are those at the pinning cast and pressure, in which case the surface passes through the pinning point. Exactly the documented combinations of these inputs are accepted, and the diagnostics report the reference, isovalue and errors of the surface that is returned.",
      ["inputs", "configurations"], "all combinations of reference, isovalue, pinning cast and pressure given or not, all casts, equations of state, interpolants and diagnostics settings",
      "the tests give reference and isovalue, without diagnostics; the pinned, pair-reference and missing-value combinations are not run",
      ["neutralocean/surface/isopycnal.py", "neutralocean/lib.py"],
      [("selection of reference and isovalue", "neutralocean/surface/isopycnal.py: potential_surf, anomaly_surf, _isopycnal"), ("pinning cast", "neutralocean/lib.py: _process_pin_cast")],
      SURF + ["pin-cast", "process-eos", "interp-casts"] + HELP_PP, VGE, technique=VGT, note=VGN),
    P("C10", "Neutrality errors and their norms follow their definition",
      "For every surface and grid, the neutrality error of an edge is the density difference between its two ends, by the derivatives of density at the averaged salinity, temperature and pressure, divided by the edge's distance (one when none is given). The norms are the root-mean-square and mean absolute value weighted by edge distance times perpendicular distance over the edges whose error is not NaN.",
      ["inputs", "configurations"], "all surfaces (with any missing points), edge lists and grids, distances given or not, scalar or per edge, with or without diagnosing density",
      "the tests compare two norms of one surface on one grid with unit distances",
      ["neutralocean/ntp.py"],
      [("edge errors and norms", "neutralocean/ntp.py: ntp_epsilon_errors, ntp_epsilon_errors_norms, _ntp_epsilon_error1")],
      EPS + ["xr-to-np"], VGE, technique=VGT, note=VGN),
    P("C11", "Neutral links and neutral trajectories satisfy the neutral relation",
      "A neutral link from a bottle to a cast is the point of the cast, within its valid data, whose density equals the bottle's with both evaluated at their mean pressure, searched outward from the bottle's pressure; it is NaN when there is none. A neutral trajectory is the chain of such links from cast to cast in order, starting from the given bottle or the given pressure on the first cast, and every entry from the first cast that cannot be reached onward is NaN.",
      ["inputs"], "all bottles, casts with any missing data, chains of any length, equations of state, interpolants and tolerances",
      "no test calls these functions directly",
      ["neutralocean/traj.py"],
      [("links and trajectories", "neutralocean/traj.py: ntp_bottle_to_cast, neutral_trajectory, _ntp_bottle_to_cast, _pot_dens_diff")],
      ["pot-dens-diff", "ntp-link", "ntp-link-ppc", "ntp-bottle-to-cast", "neutral-trajectory"] + HELP_FZ + HELP_PP + CASTS, VGE, technique=VGT, note=VGN),
    P("C12", "The omega matrix problem is the weighted least-squares problem it claims",
      "In every iteration and for every grid and surface, the perturbation solved for minimises the area-weighted sum of squared neutrality errors over the edges inside the connected region: the Poisson formulation solves its normal equations (weighted graph Laplacian, divergence of the errors), the gradient formulation one row per edge. Both fix the perturbation to zero at the pinning cast, cover exactly the connected region, and leave it NaN elsewhere.",
      ["inputs"], "all grids (scalar or per-edge distances), surfaces, connected regions and pinning casts",
      "the tests compare the final norm of one omega surface on a grid with unit distances; weights, sign conventions, numbering and pinning of the matrix are not checked, and errors in them merely slow convergence",
      ["neutralocean/surface/omega.py", "neutralocean/lib.py", "neutralocean/ntp.py"],
      [("matrix assembly", "neutralocean/surface/omega.py: _omega_matsolve_helper, _omega_matsolve_poisson, _omega_matsolve_gradient")],
      ["matsolve-helper", "matsolve-poisson", "matsolve-gradient", "aggsum", "omega-surface"] + EPS, VGE, technique=VGT, note=VGN),
    P("C13", "Omega surface iterations follow the documented protocol",
      "For every input and setting, the omega surface starts from the documented initial surface, removes the mixed layer, and then iterates: find the region connected to the pinning cast (wetting new casts only in the documented iterations), solve the matrix problem, move every cast by the perturbation, and stop at the documented minimum, maximum and tolerances. The surface stays fixed at the pinning cast, and with diagnostics requested, every diagnostic has one entry per iteration made, describing that iteration.",
      ["inputs", "configurations"], "all inputs and all values of the iteration, wetting, tolerance, mixed layer, formulation and diagnostics settings",
      "one test runs the default settings on a small ocean and looks at the final norm only; early stopping, wetting windows, mixed layer removal, zero iterations and diagnostics are not looked at",
      ["neutralocean/surface/omega.py", "neutralocean/surface/_vertsolve.py", "neutralocean/bfs.py"],
      [("iteration", "neutralocean/surface/omega.py: omega_surf"), ("per-cast move", "neutralocean/surface/_vertsolve.py: _vertsolve_omega")],
      OMEGA + ["vertsolve-omega", "interp-casts", "pin-cast", "bfs"] + HELP_FZ + HELP_PP, VGE, technique=VGT, note=VGN),
    P("C14", "The connected region and wetting are breadth-first and neutral",
      "The region found from the pinning cast consists, in breadth-first order without repetition, of exactly the valid points connected to it by edges. With wetting, an invalid point adjacent to the region joins it exactly when the neutral link from the adjacent point onto its cast exists (and lies deeper than the mixed layer of that cast); it then takes that link's salinity, temperature and pressure, and the reported count is the number of points added.",
      ["inputs", "histories"], "all graphs, valid sets, starting nodes, casts with any missing data and mixed layers; every order of discovery",
      "the only coverage is one omega surface run whose region is a full rectangle; isolated points, disconnected pieces and wetting into casts with different mixed layers never occur",
      ["neutralocean/bfs.py", "neutralocean/grid/graph.py", "neutralocean/traj.py"],
      [("breadth-first searches", "neutralocean/bfs.py: bfs_conncomp1, bfs_conncomp1_wet, bfs_conncomp1_wet_perim"), ("adjacency", "neutralocean/grid/graph.py: edges_to_csr")],
      ["bfs", "bfs-wet", "bfs-wet-perim", "edges-to-csr", "ntp-link", "ntp-link-ppc", "pot-dens-diff"] + HELP_FZ + HELP_PP, VGE, technique=VGT, note=VGN),
    P("C15", "Structured grids join exactly the neighbours, each with its own distances",
      "For every size, periodicity and distance specification, the edges of a rectilinear, tripolar or multi-face grid join each pair of adjacent cells exactly once (wrapping where periodic, folding the last row onto itself reversed for tripolar grids, following the face connections for multi-face grids), and each edge carries the distance and perpendicular distance given for that pair. Converting edge data back to maps puts each edge's value at the cell and direction it came from, and NaN where there is no edge.",
      ["inputs", "configurations"], "all grid sizes, periodicity flags, scalar or array distances of every accepted shape, face connections, and edge data",
      "the tests build one small rectilinear grid without periodicity and with unit distances",
      ["neutralocean/grid/rectilinear.py", "neutralocean/grid/tripolar.py", "neutralocean/grid/xgcm.py"],
      [("grid builders", "neutralocean/grid/*.py: build_grid"), ("maps", "neutralocean/grid/*.py: edgedata_to_maps")],
      ["rect-build", "rect-maps", "tri-build", "tri-maps", "xgcm-neighbours", "xgcm-build", "xgcm-maps"], VGE, technique=VGT, note=VGN),
    P("C16", "Graph utilities keep edges, weights and order",
      "For every edge list, the adjacency lists and adjacency matrix contain each edge from both ends with its own weight, graphs given as sparse matrices become edge lists in which each edge occurs once with its own distances, functions of the two ends of edges keep the edge order, and the divergence of edge fluxes is, per node, the sum leaving minus the sum entering over the area.",
      ["inputs"], "all edge lists, node counts, sparse or dense distance matrices, edge weights and node data",
      "no test calls these functions except the adjacency lists of one grid",
      ["neutralocean/grid/graph.py", "neutralocean/lib.py"],
      [("graph utilities", "neutralocean/grid/graph.py"), ("divergence", "neutralocean/lib.py: divergence")],
      ["graph-binary", "edges-to-graph", "edges-to-csr", "graph-build", "divergence", "aggsum"], VGE, technique=VGT, note=VGN),
    P("C17", "Functions leave their arguments as they were",
      "No public function modifies the arrays, labelled arrays, dictionaries or lists it is given, directly or through a view, at any depth of calls, except for the arguments documented to be modified: salinity and temperature in stabilisation, the surface in the wetting searches, and the validity mask in the plain search.",
      ["inputs", "configurations", "histories"], "all public functions, all argument kinds and settings, and every path through every function they call",
      "a test sees a modified argument only if it happens to pass an array that is not copied on the way and looks at it afterwards; whether a copy is made depends on the memory layout, type and settings of the input",
      ["neutralocean/*.py", "neutralocean/surface/*.py", "neutralocean/grid/*.py", "neutralocean/ppinterp/*.py", "neutralocean/eos/*.py"],
      [("every write to an array, dictionary, list or attribute in the package", "neutralocean/**/*.py")],
      ["@ARGS"],
      "Interprocedural alias and effect analysis: each public function is interpreted abstractly with its arguments labelled; labels follow assignments, views, containers, closures and calls (expanded, including functions passed as arguments and chosen by name); every write (element or attribute store, augmented assignment, mutating method, out=, numpy in-place functions) through a labelled value is an effect on that argument, reported with file and line and call path.",
      level="other", technique="interprocedural alias and side-effect analysis by abstract interpretation of the syntax tree",
      note="May-alias analysis of every path of every public function; a write through an index whose kind is unknown is treated as being to a copy, and library functions outside a fixed table are assumed not to write to their arguments.",
      assume=("library functions other than those in a fixed table of in-place operations do not modify their arguments", "indexing with an expression of unknown kind makes a copy", "equation-of-state functions given by the user do not modify their arguments")),
    P("C18", "Results depend on the arguments only",
      "What a public function returns depends only on its arguments: not on earlier calls, the environment, the time, unseeded random numbers or other state of the process. Nothing that outlives a call (module variables, default values, attributes of functions, state inside or results of memoised factories) is modified, except a memo whose key contains everything its value is made from.",
      ["histories", "inputs"], "all sequences of calls of all public functions with all arguments",
      "unit tests call each function once or twice with the same settings, so state that leaks from one call into the next is never seen",
      ["neutralocean/*.py", "neutralocean/surface/*.py", "neutralocean/grid/*.py", "neutralocean/ppinterp/*.py", "neutralocean/eos/*.py"],
      [("memoised factories", "neutralocean/eos/tools.py, ppinterp/tools.py, surface/_vertsolve.py"), ("every write and every source of hidden input in the package", "neutralocean/**/*.py")],
      ["@STATE"],
      "The same interprocedural analysis with labels on module-level objects, mutable default values, results of memoised functions and the local state they close over; writes through such labels, rebinding of module variables, attributes set on functions or modules, unseeded random numbers, reads of the environment, and control flow or positions that depend on the time are reported with file and line. Stores into a memo are accepted when every parameter the stored value is made from appears whole in the key.",
      level="other", technique="interprocedural alias, side-effect and taint analysis by abstract interpretation of the syntax tree",
      note="Same analysis as C17 with labels on everything that outlives a call, plus taint of clock, environment and random sources.",
      assume=("library functions other than those in a fixed table neither keep state nor modify their arguments", "functions given by the user are functions of their arguments")),
    P("C19", "Results carry the labels of the inputs they correspond to",
      "When inputs are labelled arrays, the surface results are labelled arrays without the vertical dimension: salinity and temperature results take name, attributes, dimensions and coordinates from the salinity and temperature inputs, and the pressure result those of the surface with pressure's own name and attributes. With plain arrays as inputs the results are plain arrays of the horizontal shape.",
      ["inputs", "configurations"], "all combinations of labelled and plain inputs, vertical dimension positions and names, with and without a vertical coordinate",
      "no test passes labelled arrays",
      ["neutralocean/lib.py", "neutralocean/surface/isopycnal.py", "neutralocean/surface/omega.py"],
      [("templates", "neutralocean/lib.py: _xr_in, _xrs_in, _xr_out")],
      LABELS + ["vert-dim"] + SURF + OMEGA, VGE, technique=VGT, note=VGN),
    P("C21", "Loops stay inside their arrays",
      "Compiled code does not check indices. Wherever the elements of an array are gone through by counting (loop counters and sizes, offsets of them), for arrays of every size, no access goes past the end of the array; arrays of one interpolation problem have the documented common number of levels.",
      ["inputs"], "all sizes of all arrays",
      "reading one element past the end usually gives some number and no error, so tests pass",
      ["neutralocean/ppinterp", "neutralocean/lib.py", "neutralocean/bfs.py", "neutralocean/ntp.py", "neutralocean/label.py", "neutralocean/grid", "neutralocean/stability.py", "neutralocean/traj.py", "neutralocean/surface"],
      [("element accesses", "every subscript of a named array whose index is an affine expression in loop counters and sizes")],
      ["@BOUNDS"],
      "Every function is walked with integer names bound to affine expressions over array sizes and loop counters to the affine range they run through. The largest value of each affine index is compared with the size of the axis: inside is proven when the difference is a positive constant; a largest index equal to the size plus a constant that is not negative, with no condition around it, is a violation. Indices from data, searches or under conditions are counted as not decided in the evidence.",
      level="other", technique="affine (interval) index analysis of counted loops over the syntax tree",
      note="Accesses whose index comes from data (graph neighbours, search results) are outside this analysis; for them the equivalence checks of C05, C14 and C16 compare the accesses with those of the definitions.",
      assume=("loops may run (arrays are not all empty)",)),
    P("C22", "The mixed layer is where density first exceeds the near-surface value",
      "For every cast the mixed layer pressure is where potential density (at the reference pressure) exceeds that of the given near-surface bottle by the given difference, found by the chosen interpolation of pressure as a function of the excess. This holds in density units also for equations of state that give specific volume.",
      ["inputs", "configurations"], "all casts, thresholds, reference pressures, bottle numbers, interpolants, equations of state (density or specific volume) and vertical dimension positions",
      "no test calls this function",
      ["neutralocean/mixed_layer.py"], [("mixed layer", "neutralocean/mixed_layer.py: mixed_layer")],
      ["mixed-layer", "vectorize-eos"] + CASTS, VGE, technique=VGT, note=VGN),
    P("C23", "Veronis density is the potential density plus the path integral",
      "For every cast and pair of pressures in it, the Veronis density is the potential density at the starting pressure plus the given factor times the integral, from the starting to the final pressure, of the vertical gradient of locally referenced density, by the trapezoidal rule with steps of at most the given size that never straddle a datum. It is NaN when either pressure is missing or outside the cast.",
      ["inputs"], "all casts, pressures (equal, increasing, decreasing, at data, outside), step sizes, factors, interpolants and equations of state",
      "no test calls this function",
      ["neutralocean/label.py"], [("Veronis density", "neutralocean/label.py: veronis, _vertical_integral")],
      ["veronis", "polynomial", "ppval_1_two", "process-eos"], VGE, technique=VGT, note=VGN),
    P("C24", "Static stability is measured and restored as documented",
      "The number of unstable locations counts, over all casts, the adjacent bottle pairs whose locally referenced density does not increase downward (or bottles with a negative interpolated gradient). Stabilisation perturbs, in place, exactly the casts that violate the required gradient, minimising the weighted squared perturbation of salinity and unweighted of temperature subject to the gradient constraint on the valid data, and leaves every other cast and all missing data untouched, whatever the position of the vertical dimension.",
      ["inputs", "configurations"], "all casts with any missing data, thresholds (scalar or per level), weights, vertical dimension positions and equations of state",
      "no test calls these functions",
      ["neutralocean/stability.py", "neutralocean/lib.py"], [("stability", "neutralocean/stability.py: count_unstable, stabilize_ST, calc_dLRPDdp_fd_1")],
      ["count-unstable", "count-unstable-interp", "density-gradient", "stabilize", "stabilize-inplace", "valid-range"] + CASTS, VGE, technique=VGT, note=VGN),
    P("C25", "Array helpers do what they say at every index",
      "For all arrays and indices: the first missing value along a dimension is the index of the first NaN (the length when there is none), gathering with negative indices gives the fill value there, summing by index adds every value with a non-negative index to its target and ignores the rest, and the value at an index along the last dimension is that value, NaN for a negative index.",
      ["inputs"], "all arrays of any dimension, all index arrays with repeated and negative indices",
      "no test calls these functions directly",
      ["neutralocean/lib.py"], [("helpers", "neutralocean/lib.py: find_first_nan, take_fill, aggsum, val_at")],
      ["first-nan-3d", "find-first-nan", "take-fill", "aggsum", "val-at"], VGE, technique=VGT, note=VGN),
    P("C26", "Left-out arguments take their documented defaults",
      "Calling a public function with its required arguments only is the same, for every input, as spelling out the defaults its documentation states: tolerances, iteration limits, thresholds, reference pressures, the equation of state, the interpolant, the vertical dimension, unit distances and areas, derivative order, and which diagnostics are computed.",
      ["inputs", "configurations"], "all inputs of every public function that has optional arguments",
      "tests pass most options explicitly and never compare a default with its documented value",
      ["neutralocean/surface/isopycnal.py", "neutralocean/surface/omega.py", "neutralocean/stability.py", "neutralocean/mixed_layer.py", "neutralocean/label.py", "neutralocean/traj.py", "neutralocean/ntp.py", "neutralocean/grid", "neutralocean/lib.py", "neutralocean/synthocean.py", "neutralocean/ppinterp", "neutralocean/eos/tools.py"],
      [("options", "every `kwargs.get(..., default)` and keyword default of the public functions")],
      ["@DEFAULTS"], VGE + "Besides, the constant defaults in the signatures and in the look-ups of options are compared as values with a table of the documented ones, and each documented option must be read somewhere.",
      technique=VGT, note=VGN),
    P("C27", "The synthetic ocean is what its documentation describes",
      "For every shape and parameter, synthocean gives salinity and temperature that vary linearly between the documented surface and bottom fields, pressures that run from 0 to pbot, a surface salinity tilted by SSSSa in the south and 0 in the north, no zonal structure when zonally_uniform, missing data in the first row and column exactly where the dimension is not periodic, and a geometry (edges, centres, lengths, areas) of a uniform latitude-longitude grid on the sphere.",
      ["inputs", "configurations"], "all shapes, bottom pressures, salinity tilts, periodicities",
      "the tests use one synthetic ocean as input and check nothing about it",
      ["neutralocean/synthocean.py"], [("synthocean", "neutralocean/synthocean.py: synthocean")],
      ["synthetic-ocean", "synthetic-grid", "default:ocean"], VGE, technique=VGT, note=VGN),
    P("C28", "Compilation changes nothing but speed",
      "The compiled kernels mean what their source says: missing data (NaN) and infinities are recognised and propagate, real numbers are computed in double precision, arrays whose sizes do not match as documented are refused instead of read out of bounds, and results are the same whatever the number of threads.",
      ["inputs", "schedules"], "all inputs (missing data anywhere, mismatched sizes, integer or double precision), any number of threads",
      "whether the compiler uses a permission it is given (fast-math, a race) depends on the machine and the input; tests see one build on one machine",
      ["neutralocean/ppinterp", "neutralocean/eos", "neutralocean/bfs.py", "neutralocean/fzero.py", "neutralocean/ntp.py", "neutralocean/lib.py", "neutralocean/traj.py", "neutralocean/label.py", "neutralocean/surface/_vertsolve.py", "neutralocean/grid/graph.py"],
      [("compiled functions", "every function under @njit, @vectorize or @guvectorize"), ("layouts", "neutralocean/ppinterp/*.py: guvectorize signatures")],
      ["@COMPILED"],
      "Every function of the package given to a numba compiler (by decorator, through an alias or partial application, or by a call) is found; the options, signatures and layouts it is given are evaluated as constants. Violations: an option that lets the compiler assume NaN or infinity away; signatures that are all single precision, or declare real data integers; core dimensions other than those of the documented shapes up to renaming; and loops run in parallel whose iterations write to places that are not theirs alone, or carry a value from one to the next other than by one accumulating operation.",
      level="other", technique="typed lint of compiler directives, and a write-set (race) analysis of parallel loops, over the syntax tree",
      note="Options are evaluated through aliases, module constants and unpacked dictionaries; what is not a constant is reported as undecided.",
      assume=("numba implements its documented options",)),
    P("C20", "Public functions are called as documented",
      "Every public function accepts its documented parameters, by their documented names and by position in the documented order, with the same ones optional, and is found under its documented import path; new parameters are optional and come after the documented ones.",
      ["inputs", "configurations"], "all ways of calling a public function: by position, by name or mixed",
      "tests call each function in one or two ways",
      ["neutralocean"], [("signatures", "the `def` line of every public function"), ("exports", "neutralocean/*/__init__.py")],
      ["@IFACE"],
      "The signature of every public function is read from the syntax tree and compared with the documented parameters: their names, order, which must be given, and whether they can be given by name and by position; the documented names of each package are resolved through its imports.",
      level="other", technique="signature and export lint over the syntax tree",
      note="Decides call compatibility only; the meaning of each parameter is decided by the other properties. A public function replaced by something other than a function definition is undecided.",
      assume=("the documented parameters are those listed in sa/obs/wf.py",)),
    P("C29", "Names, calls and unpackings fit together on every path",
      "In every function of the package, whichever branch is taken: each name that is read is bound in one of its scopes, and for local variables on some path to the reading; each name imported from within the package exists; each call of a function of the package supplies exactly parameters that function has, with none of the required ones missing; and each unpacking of a package function's result expects a number of values that it may return.",
      ["inputs", "configurations"], "all paths of all functions, for all inputs and options",
      "tests run the common branches; a misspelt name or a wrong argument list in another branch stops the program only when that branch is taken",
      ["neutralocean"], [("functions", "every function and module body of neutralocean, tests and examples excepted")],
      ["@NAMES"],
      "A forward may-assigned dataflow analysis with scope resolution over every function and module body, a binding check of every call whose callee resolves to a function of the package (through imports, module attributes, nested functions and compiler decorators), and a comparison of the sizes of returned and unpacked tuples. Violations are reads that no path can have bound, names missing from package modules, calls that cannot bind, and unpackings that no return matches.",
      level="other", technique="definite-error dataflow analysis (names, call binding, tuple arity) over the syntax tree",
      note="Only certain errors are reported: a variable bound on some but not all paths is left to the equivalence checks of the other properties.",
      assume=("names are not injected from outside (exec, module __dict__, star imports)",)),
    P("C30", "Requests that make no sense are refused, not answered",
      "A request outside what is documented ends in an error instead of numbers: an unknown equation of state or interpolant, an equation of state that is neither a name nor a function, interpolation options that do not exist or do not go together, a pinning cast, reference and isovalue combination that is not one of the documented ones, an initial surface that is missing at the pinning cast, a vertical dimension that is not there, index arrays and grids of the wrong number of dimensions or length.",
      ["inputs", "configurations"], "all names, all options, all combinations of arguments",
      "tests make valid requests",
      ["neutralocean/eos/tools.py", "neutralocean/ppinterp/tools.py", "neutralocean/lib.py", "neutralocean/surface", "neutralocean/grid"],
      [("refusals", "every `raise` and `assert` of the package")],
      ["@REFUSE", "process-eos", "vert-dim", "xr-in", "xrs-in", "val-at", "pin-cast", "potential-surf", "anomaly-surf", "omega-surface", "rect-build", "tri-build", "xgcm-build", "graph-build"],
      VGE + "Errors are values of the graph: a case that ends in an error in the definition and not in the code, or the reverse, is a difference.", technique=VGT, note=VGN),
    P("C35", "Nothing is printed unless asked for, and nothing is written",
      "With `output` or `diags` off the surface functions print nothing, with `verbose` off `stabilize_ST` prints nothing, and no other public function ever prints; with these options on, the documented progress lines are printed. No function of the package writes files, starts programs or changes the file system.",
      ["inputs", "configurations"], "all inputs, all values of the other options, all paths",
      "tests do not look at standard output, and a print on a rare path never runs in them",
      ["neutralocean/surface/isopycnal.py", "neutralocean/surface/omega.py", "neutralocean/stability.py", "neutralocean"], [("printing", "every `print` of the package and the tests around it")],
      ["@QUIET"],
      "Each public function is walked over its syntax tree with the silencing option bound to a constant; tests that the constants decide prune paths, calls within the package are followed with their arguments bound, and prints or writes that remain reachable are reported with the call chain. With the options on, at least one print must remain.",
      level="other", technique="option-constant propagation and reachability of output effects over the syntax tree and call graph",
      note="A print behind a test that is computed from the options in a way the walk does not evaluate is undecided. Warnings are not counted as printing. What the lines say is not compared.",
      assume=("functions outside the package do not print",)),
    P("C36", "Numbers keep their type: no value is rounded by the array it is stored in",
      "Whether real numbers are given as double precision floats, single precision floats or integers, no value is stored in an array whose element type cannot hold it (a float or NaN in an integer array, a double in a single, a node number in a narrower integer), floats are not used as indices or sizes, nothing is cast to a narrower type, and results come back as documented: double precision for data (surfaces, neutrality errors, interpolants, labels), 64-bit integers for edges, node numbers and counts.",
      ["inputs", "configurations"], "all inputs with real numbers as doubles, singles or integers",
      "tests give double precision arrays; rounding into an integer or single precision array raises no error",
      ["neutralocean", "neutralocean/surface/omega.py", "neutralocean/ntp.py", "neutralocean/grid", "neutralocean/ppinterp", "neutralocean/lib.py", "neutralocean/bfs.py"], [("element types", "every array creation (np.empty, np.full, ...), store, cast and index")],
      ["@TYPES"],
      "Each public function is interpreted abstractly over element types, three times: with its real arguments as doubles, as singles and as integers. Calls within the package are expanded, branches decided by types and constants are pruned, every store, index, size and cast is checked on every path, and result types are compared with the documented ones.",
      level="other", technique="abstract interpretation over element types (dtype dataflow) with calls expanded",
      note="Types the interpretation does not know (results of scipy, xarray and xgcm) are never reported. Single precision scalars mixed with Python floats are unknown, since NumPy and numba differ.",
      assume=("numba kernels with an explicit signature convert their arguments to it",)),
]

NOT_APPLICABLE = [
    P("C31", "Omega iterations converge to a surface with smaller neutrality errors",
      "Starting from any reasonable initial surface, the omega iterations converge, and the area-weighted neutrality errors of the final surface are smaller than those of the initial surface.",
      ["inputs"], "all oceans, grids and initial surfaces", "a test runs one ocean",
      ["neutralocean/surface/omega.py"], [("iteration", "neutralocean/surface/omega.py: omega_surf")]),
    P("C32", "Roots are accurate to the requested tolerance",
      "Every pressure found by a vertical solve is within the requested tolerance of a true root of the defining equation in floating-point arithmetic, and the solver always terminates quickly.",
      ["inputs"], "all continuous functions and tolerances", "tests use a few smooth functions",
      ["neutralocean/fzero.py"], [("Brent's method", "neutralocean/fzero.py: brent")]),
    P("C33", "Stabilisation finds the optimum and reaches the required gradient",
      "After stabilisation every cast has at least the required density gradient and the perturbation is the smallest possible.",
      ["inputs"], "all casts", "no test",
      ["neutralocean/stability.py"], [("optimisation by an external library", "neutralocean/stability.py: stabilize_ST")]),
    P("C34", "Density is accurate to rounding error over the oceanographic range",
      "Over the oceanographic range the computed density and derivatives differ from the exact values of the formulas by a few units in the last place.",
      ["inputs"], "all oceanographic salinities, temperatures, pressures", "tests check single points",
      ["neutralocean/eos/gsw.py"], [("polynomials", "neutralocean/eos/*.py")]),
]
NA_REASON = {
    "C31": "convergence depends on runtime magnitudes (spectral properties of the linearisation, nonlinearity of the equation of state, coverage of the data) that no sound static argument in reach bounds; the protocol, the matrix problem and the per-cast move are decided by C12, C13 and C08 instead",
    "C32": "accuracy in floating-point arithmetic and the iteration count depend on the values the solved function takes at run time; that the code performs Brent's iteration with the documented stopping rule and keeps the bracket is decided by C07",
    "C33": "the result is computed at run time by an external numerical optimiser; the objective, its gradient, the constraint and where the result goes are decided by C24",
    "C34": "rounding error of evaluation orders is a numerical quantity; the analysis compares formulas as exact real expressions (C01, C02)",
}

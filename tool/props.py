def A(files, *mech):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}


PROPS = [
 {"id": "C01", "title": "Every selectable time scheme uses its working copies of the model state safely",
  "statement": "In every time-integration scheme a user can select, for every kind of step (first, middle, last), each working copy of state and tracers is written in that step before it is read, lies within what the scheme allocated, holds state and tracers of the same stage, and has been averaged and exchanged across patch edges before it feeds a tendency evaluation. A working copy may only be carried from the previous step if it holds exactly the same combination of tendencies of the current state after every step. The completed result of the step, for both state and tracers, ends in the copy the next step starts from.",
  "quantifier": {"over": ["programs", "histories", "configurations"], "text": "all selectable schemes, all first/middle/last step combinations, any state and step size"},
  "why_tests_cant": "The simulations run a handful of schemes for a few steps and only check that checksums are finite; stale or mixed-stage data still gives finite numbers.",
  "anchors": A(["src/atm/TimestepScheme*.cpp", "src/atm/TempestInitialize.h"], ("sequence of slot operations", "TimestepScheme*::Step"), ("allocated instances", "TimestepScheme*::GetComponentDataInstances/GetTracerDataInstances")),
  "technique": "abstract interpretation: constant propagation of slot indices and coefficients, typestate of slots",
  "level_note": "every constructible scheme and step kind, sequence of operations fully resolved"},
 {"id": "C02", "title": "Every selectable time scheme attains its formal order of accuracy",
  "statement": "In every time-integration scheme a user can select, the weights and stage structure combine explicit horizontal, explicit vertical and implicit vertical tendencies so that one step agrees with the exact solution to the scheme's formal order: forward Euler 1, SSP-RK3, SSP-RK(5,3) and KGU35 3, RK4 4 for the explicit part; 2 for the operator-split scheme from its second step (1 when the explicit part is forward Euler), 2 for ARS222, ARS232, ARK232, SSP3332 and GARK2, 3 for ARS343 and ARS443, 1 for the split-explicit scheme. The same weights apply to state and tracers, and the step is linear in the step size.",
  "quantifier": {"over": ["programs", "inputs", "configurations"], "text": "all selectable schemes, any smooth right-hand sides and step sizes"},
  "why_tests_cant": "A wrong weight still produces a plausible finite solution; order shows only in the limit of small steps, which no test takes.",
  "anchors": A(["src/atm/TimestepScheme*.cpp"], ("tableau coefficients", "TimestepScheme* constructors and static members"), ("stage sequence", "TimestepScheme*::Step")),
  "technique": "abstract interpretation to an operation sequence, then exact coloured B-series order conditions",
  "level_note": "all order conditions up to the formal order, for every constructible scheme"},
 {"id": "C03", "title": "Copy, zero and linear combination of working copies act exactly and everywhere",
  "statement": "Copying, zeroing or linearly combining the model's working copies of state or tracers makes the destination exactly the source, zero, or the weighted sum of all participating copies (its own old content included with its own weight), on cell nodes as well as vertical interfaces, on every active patch, and leaves every other copy unchanged. Indices or coefficient lists outside the allocated copies are refused. This holds for every choice of copies and weights, including zero weights.",
  "quantifier": {"over": ["inputs", "configurations"], "text": "all source/destination pairs, all weight vectors, both data kinds, every patch"},
  "why_tests_cant": "Tests exercise only the weights of the few schemes they run and never compare array contents.",
  "anchors": A(["src/atm/GridPatch.cpp", "src/atm/Grid.cpp", "src/base/DataArray4D.h"], ("patch operations", "GridPatch::CopyData, LinearCombineData, ZeroData"), ("grid operations", "Grid::CopyData, LinearCombineData, ZeroData"), ("array primitives", "DataArray4D::Scale, AddProduct, Zero, Assign")),
  "technique": "symbolic interpretation of the patch operations over whole-array values, element-wise semantics of the primitives",
  "level_note": "all index pairs, all zero/non-zero weight patterns for up to three copies with symbolic weights"},

 {"id": "C04", "title": "Thermodynamic conversions are consistent for any physical constants",
  "statement": "After constructing the physical constants and after any setting of individual constants, conversions between pressure, density-weighted potential temperature and Exner pressure are those of the equation of state for the current gas constant, heat capacity and reference pressure; opposite conversions undo each other; the direct and the two-step route to Exner pressure agree; kappa, gamma, the specific heat at constant volume and the pressure scaling follow from the current primary constants; a getter returns the value last set and setting one constant leaves the other settable constants alone.",
  "quantifier": {"over": ["inputs", "histories"], "text": "all positive arguments, every single setter and ordered pair of setters"},
  "why_tests_cant": "No test compares conversions against each other, and all run with the default constants.",
  "anchors": A(["src/atm/PhysicalConstants.h", "src/atm/PhysicalConstants.cpp"], ("conversions and derived constants", "PhysicalConstants")),
  "technique": "abstract interpretation to closed formulas, decided by algebraic normal form and identity testing of the formulas",
  "level_note": "symbolic values for the constants and arguments, after construction, every setter and every ordered pair of setters"},
 {"id": "C05", "title": "Cubed-sphere coordinate and vector transforms describe one sphere",
  "statement": "On all six panels: gnomonic, equiangular, longitude-latitude and Cartesian coordinates of a point name the same point of the unit sphere; converting to another panel gives the same point, and points that the other panel cannot see are refused; the panel coordinates found for a longitude and latitude lie within that panel and locate it; contravariant and covariant components transformed to and from longitude-latitude or another panel represent the same physical vector, poles included, and opposite transforms undo each other; longitudes lie in [0, 2 pi); the area of a gnomonic element is the spherical area; panel numbers outside 0 to 5 are refused.",
  "quantifier": {"over": ["inputs"], "text": "all panel coordinates, all pairs of panels, all vectors"},
  "why_tests_cant": "Tests run short simulations that never compare transforms with each other; a sign error on one panel leaves them finite.",
  "anchors": A(["src/atm/CubedSphereTrans.h", "src/atm/CubedSphereTrans.cpp"], ("point transforms", "CubedSphereTrans::XYZFromXYP, RLLFromXYP, XYPFromXYP, XYPFromRLL, ABPFromRLL, RLLFromABP"), ("vector transforms", "CubedSphereTrans::VecTrans*, CoVecTrans*, VecPanelTrans, CoVecPanelTrans")),
  "technique": "abstract interpretation to closed formulas; substitution, symbolic differentiation and formula equality",
  "level_note": "all panels and panel pairs; equality of formulas by normal form or identity testing"},
 {"id": "C06", "title": "Panel edges connect consistently all round the sphere and the plane",
  "statement": "On the cubed sphere every edge of every panel leads to exactly one edge of one neighbouring panel, the one geometrically adjacent on the sphere. The opposing direction, the reversal of the index along the edge and the flip of orientation reported for a crossing all describe that one crossing; crossing and coming back is the identity; cells just beyond an edge are converted to the panel, indices and orientation of the cell of the neighbour that touches it, corners and same-panel moves included; vector components reported as swapped or flipped match the local change of coordinates. On the Cartesian grid opposite directions face each other with nothing reversed. Directions and panel numbers that cannot occur are refused.",
  "quantifier": {"over": ["inputs", "configurations"], "text": "all panels, directions, panel pairs, resolutions, cells in the halo"},
  "why_tests_cant": "A wrong orientation on one of twelve edges leaves a short simulation finite; tests never compare halo values with their owners.",
  "anchors": A(["src/atm/CubedSphereTrans.cpp", "src/atm/GridCSGLL.cpp", "src/atm/GridCartesianGLL.cpp", "src/atm/Direction.h"], ("panel adjacency", "CubedSphereTrans::RelativeCoord, RelativePanel, PanelFromDirection, DirectionFromPanel, OpposingDirection"), ("grid interface", "GridCSGLL::GetOpposingDirection, GridCartesianGLL::GetOpposingDirection")),
  "technique": "abstract interpretation of the connectivity tables to closed index maps, compared with the geometry derived from the panel-to-sphere map",
  "level_note": "all six panels, all directions and panel pairs; index maps as formulas in the resolution"},
 {"id": "C07", "title": "What is packed for a neighbour is exactly what the neighbour unpacks",
  "statement": "For every neighbouring pair of patches, within a panel and across every panel edge, sides and corners: packing takes exactly the interior cells along the edge, each once, all levels and components; unpacking puts each value in the halo cell that geometrically is that interior cell, and both move by the same amount in the message. State, tracers and each derived field go the same way on both sides, state variables only from and to the location where they live; the message header identifies sender, receiver and side identically at both ends; the buffer has room for the largest field and the registered extent, processors, orientation and local patch are those of the edge. Buffers too short, wrong patches, directions and data instances are refused.",
  "quantifier": {"over": ["inputs", "configurations"], "text": "all panels, directions, orientations, edge lengths, levels, components, data types"},
  "why_tests_cant": "A reversed or shifted halo strip still gives finite results; tests compare no halo contents and run few decompositions.",
  "anchors": A(["src/atm/Connectivity.cpp", "src/atm/Connectivity.h", "src/atm/GridPatch.cpp", "src/atm/Grid.cpp"], ("packing and unpacking", "ExchangeBuffer::Pack, Unpack, GetSendMessageHeader, GetRecvMessageHeader, Reset"), ("field selection", "GridPatch::PackExchangeBuffer, UnpackExchangeBuffer"), ("registration", "Grid::RegisterExchangeBuffer")),
  "technique": "abstract interpretation; loop nests summarised to index maps; sender and receiver maps matched through the crossing geometry",
  "level_note": "all directions and reversal flags and all panel pairs; edge lengths and halo widths at sample sizes of the closed index maps, corners for the halo width the dynamics request"},
]

NOT_APPLICABLE = [
 {"id": "N01", "title": "Runs stay numerically stable and converge at the design order",
  "statement": "For every supported configuration within its stability limits, the simulated solution stays finite and converges to the analytical solution at the design order in space and time.",
  "quantifier": {"over": ["inputs", "configurations"], "text": "all test cases, resolutions and step sizes"},
  "why_tests_cant": "Tests run a few steps at one resolution.",
  "anchors": A(["src/atm"], ("discrete dynamics", "HorizontalDynamicsFEM, VerticalDynamicsFEM")),
  "reason": "Stability and convergence depend on run-time fields and spectra of the discrete operators; no static argument in reach bounds them."},
 {"id": "N02", "title": "Results do not depend on the number of processes",
  "statement": "A simulation gives the same result, up to rounding, on any number of processes and any distribution of patches.",
  "quantifier": {"over": ["configurations", "schedules"], "text": "all decompositions"},
  "why_tests_cant": "Tests run two process counts and do not compare fields.",
  "anchors": A(["src/atm/Grid.cpp", "src/atm/Connectivity.cpp"], ("patch distribution", "Grid::DistributePatches")),
  "reason": "An equality between whole runs over run-time data; the static ingredients (symmetric exchange, averaging weights, collective calls) are decided as separate properties."},
]

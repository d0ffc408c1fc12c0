NOTE = ("Every obligation generated from the current source is discharged for all inputs in the stated ranges. Trusted: clang front end, "
        "the VC generator in vc/, the SMT solvers, models of the C/C++ library functions listed in the evidence; floating point is exact real arithmetic.")

prop("P01", "Grid map cells are isolated from one another",
     "For every map size, every cell of a grid map holds the value last written to that cell: writing a cell changes no other cell, and every cell access stays inside the map's storage. This stays true when the map is resized, larger or smaller, any number of times.",
     ["inputs", "histories"], "all map sizes up to 4096x4096x256, all pairs of cells, all reset sequences (three in a row), block widths 8/32/64/128, checked and unchecked maps",
     "tests write a few fixed sizes and cells; a clash of two addresses or an overrun at a size that is not a multiple of the block width is not sampled",
     [PI + "blockmem_gridmap.h"], [("cell addressing", PI + "blockmem_gridmap.h block_addr"), ("storage sizing", PI + "blockmem_gridmap.h reset")])
prop("P02", "Bulk grid map operations change exactly the addressed cells",
     "Clearing a map, clearing a box, copying a box (in place or shifted), clearing only the known cells, and assigning a map each give every addressed cell its specified value and leave every other cell, and the source, unchanged.",
     ["inputs"], "all map sizes, all boxes inside the map, all shifts that stay inside, all previous contents, all cells",
     "tests check one or two boxes; boundary cells, empty boxes, boxes across blocks and unrelated cells are not all sampled",
     [PI + "blockmem_gridmap.h"], [("box loops", PI + "blockmem_gridmap.h clear_partially/copy_partially"), ("whole-map loops", PI + "blockmem_gridmap.h clear/clear_positive/operator=")])
prop("P03", "Orientation indices wrap correctly and range tests are exact",
     "Wrapping an orientation index always yields the congruent index in the requested window (0 to n-1, or balanced around zero) and leaves the position alone. The tests whether a cell lies in a map, with or without a margin, answer true exactly for the cells inside. Vector sum, difference, equality and hashing are component-wise consistent.",
     ["inputs"], "all integer vectors up to 2^30 in magnitude, all resolutions, all map sizes and margins",
     "tests use a handful of values; wrap errors show only for particular residues, signs or odd resolutions",
     [PI + "cyclic_vec.h", PI + "blockmem_gridmap.h"], [("wrap", PI + "cyclic_vec.h cycle/cycleUnsigned"), ("range tests", PI + "cyclic_vec.h isExceeded, blockmem_gridmap.h validate")])
prop("P04", "A path returned by the path search is executable",
     "When the search reports success, the path starts at one of the given start cells, ends at the goal (or at a cell within the accepted remaining cost), visits no cell twice, and every consecutive pair is a move the motion model offers from the first cell with a non-negative finite cost, ending inside the map. With no start, or a start equal to the goal, it reports failure; it never accesses a cell outside the map.",
     ["inputs", "programs"], "all maps, all motion models (move sets, costs, heuristics), all start lists, goals and search options",
     "tests run a few maps with one or two models; soundness must hold for every model and every queue order",
     [PI + "grid_astar.h", PI + "reservable_priority_queue.h"], [("search loop", PI + "grid_astar.h searchImpl"), ("path reconstruction", PI + "grid_astar.h findPath")])
prop("P05", "Joint-space moves through obstacles are rejected",
     "For the two-joint planner every offered move stays within the configured range; the cost of a move is never negative unless the move is rejected, and a move is rejected whenever the cell it leaves or a cell it samples on the way is an obstacle, or its end is out of range. The estimate to the goal is the weighted joint distance and never negative.",
     ["inputs"], "all resolutions, ranges, cost coefficients, cells and maps",
     "no test of the planner's cost function runs here; wrap-around of both joints makes the interesting cells easy to miss",
     [PS + "grid_astar_model_2dof_joints.cpp"], [("move cost", PS + "grid_astar_model_2dof_joints.cpp cost"), ("moves", PS + "grid_astar_model_2dof_joints.cpp constructor")])
prop("P06", "Obstacle memory odds stay within their bounds and never mislead",
     "After any update sequence the remembered odds of a cell stay between the minimum and maximum odds, the probability stays within the configured limits and the normalised probability within 0..1. Evidence for an obstacle never lowers and evidence against never raises the odds, stronger evidence never gives lower odds, and within the bounds the update multiplies odds.",
     ["inputs", "histories"], "all odds values and all update sequences (by induction over one update)",
     "tests apply a few updates; saturation and monotonicity are statements about all values",
     [PI + "bbf.h"], [("filter", PI + "bbf.h BinaryBayesFilter")])
prop("P07", "Remembering a costmap updates exactly the observed cells",
     "Each cell within the given range of the centre and inside the map is updated once: with the hit odds if it is an obstacle beyond the minimum range, with the miss odds if it is free, not at all if unknown or an obstacle nearer than the minimum range. Every other cell of the memory is unchanged and no access leaves a map, wherever the centre lies.",
     ["inputs"], "all map sizes, centres (also outside the map), ranges, odds, map contents and cells",
     "tests use one centre and range; border clipping, circle boundary and off-map centres are not sampled",
     [PS + "costmap_bbf.cpp", PI + "planner_3d/costmap_bbf.h"], [("update", PS + "costmap_bbf.cpp remember")])
prop("P08", "The remembered costmap always reflects the obstacle memory",
     "After refreshing, the cost of every cell equals the rounded percentage of its normalised obstacle probability and lies in 0..100, whatever sequence of resets, clears, remember calls and refreshes came before. Enumerating the memory visits every cell of the map exactly once with its own state.",
     ["inputs", "histories"], "all histories (by induction: the state invariant is preserved by every operation), all map sizes and cells",
     "tests refresh once after one update; the tracking of the changed area is a property of all histories",
     [PS + "costmap_bbf.cpp", PI + "planner_3d/costmap_bbf.h"], [("refresh of the changed area", PS + "costmap_bbf.cpp updateCostmap"), ("enumeration", PS + "costmap_bbf.cpp forEach")])
prop("P09", "Vehicle moves through obstacles are rejected",
     "For the vehicle planner a move is rejected whenever the cell it leaves, the cell it reaches, or any cell its motion sweeps is an obstacle or no motion is known for it; otherwise its cost is not negative and includes at least the weighted distance travelled. In-place turns check every orientation on the way, in the turning direction.",
     ["inputs"], "all maps, move vectors, cost coefficients and motion tables",
     "tests evaluate a few moves on tiny maps and need the middleware; the property is about every move and map",
     [PS + "grid_astar_model_3dof.cpp"], [("move cost", PS + "grid_astar_model_3dof.cpp cost")])
prop("P10", "The rotation table describes every move of the planning window",
     "For every start orientation and every displacement of the planning window, the tabulated motion is the displacement rotated into the start frame, of the same length, with an orientation normalised to one turn, and every access stays inside the table.",
     ["inputs"], "all resolutions, ranges, orientations and displacements",
     "no test reads the table; an index clash corrupts only some moves",
     [PS + "rotation_cache.cpp", PI + "planner_3d/rotation_cache.h", PI + "cyclic_vec.h"], [("table", PS + "rotation_cache.cpp reset")])
prop("P11", "Commanded velocity respects speed and acceleration limits",
     "For every request the limiter's output is finite and, for every defined request, differs from the previous output by at most the acceleration limit times the period; it never exceeds the speed limit once within it, equals the request whenever the request is admissible, and is zero for an undefined request. The output is also the state the next step starts from.",
     ["inputs", "histories"], "all requests including NaN and infinities, all limits and periods, all states (induction over one step)",
     "the limiter has no unit test; step-wise limits are statements over all histories",
     [TT + "basic_control.h"], [("limiter", TT + "basic_control.h VelAccLimitter")])
prop("P12", "Angle normalisation, clipping and braking speed are correct",
     "Normalising an angle yields the angle of a one-turn range around zero that differs from it by whole turns; clipping returns the nearest value within the limit; the time-optimal braking speed opposes the remaining angle and its square equals twice the angle times the deceleration.",
     ["inputs"], "all finite angles, limits and accelerations",
     "helpers are only exercised through middleware tests with typical values",
     [TT + "basic_control.h"], [("helpers", TT + "basic_control.h angleNormalized/clip/timeOptimalControl")])
prop("P13", "Signal filters keep steady values and never overshoot",
     "A low-pass filter that is at rest at a value keeps it under a constant input, moves towards a new input without passing it (time constant at least half a sample) and is unbiased; a high-pass filter removes a constant input, decaying at every sample. Angular filters treat inputs a whole turn apart as equal and follow a change the short way round.",
     ["inputs", "histories"], "all time constants, states, inputs (induction over one sample)",
     "tests look at amplitudes of sampled sine waves",
     [TT + "filter.h"], [("filter", TT + "filter.h Filter")])
prop("P14", "Distances to path segments are geometrically exact",
     "The distance from a point to a segment is never negative, never larger than the distance to either end, and no point of the segment is nearer; the signed variant is negative exactly when the point lies behind the start. The foot of a perpendicular lies on the line and the connecting vector is orthogonal to it.",
     ["inputs"], "all points and non-degenerate segments",
     "tests check a few coordinates",
     [TT + "eigen_line.h", PI + "cyclic_vec.h"], [("geometry", TT + "eigen_line.h"), ("grid geometry", PI + "cyclic_vec.h distLinestrip2d")])
prop("P15", "Path queries return positions and distances of the path itself",
     "The nearest-point query returns a pose of the searched range whose distance is the reported one; the length, the remaining distance and the arrival times accumulate the true segment lengths and never decrease along the path; a local goal is reported only where the path really stops or turns back.",
     ["inputs"], "all paths of any length, all targets and options",
     "tests use a few fixed short paths and need the middleware",
     [TT + "path2d.h"], [("queries", TT + "path2d.h Path2D")])
prop("P16", "The safety limiter only ever reduces the commanded velocity",
     "The limited command never points in another direction and is never larger than the request in any component, equals the request scaled by the current ratio, and after the maximum-velocity limit the linear speed and the turn rate never exceed the configured maxima.",
     ["inputs"], "all commands, ratios and maxima",
     "tests publish a few commands through the middleware",
     [SL + "src/safety_limiter.cpp"], [("output limits", SL + "src/safety_limiter.cpp limit/limitMaxVelocities")])
prop("P17", "Without fresh sensor data or watchdog the robot is stopped",
     "When the sensor cloud has timed out, no cloud has arrived, or the watchdog has expired, the published command is zero, and commands stay zero until fresh data or a watchdog reset arrives, except while the limiter is deliberately disabled by a request that is still recent. A disable request stops being honoured once it is older than its timeout. After an obstacle the restriction is kept for at least the hold time.",
     ["histories", "schedules"], "all sequences of timer, cloud, command, disable and watchdog events (induction over one event)",
     "tests run a few event orders in real time",
     [SL + "src/safety_limiter.cpp"], [("state machine", SL + "src/safety_limiter.cpp cbTwist/cbPredictTimer/cbWatchdogTimer")])
prop("P18", "The slip estimator fuses measurements without gaining uncertainty",
     "A measurement never increases the uncertainty, keeps it non-negative, and moves the estimate to a point between the prediction and the measurement; an infinitely uncertain measurement changes nothing and an infinitely uncertain state adopts the measurement.",
     ["inputs", "histories"], "all states and measurements, infinities included",
     "the filter has no unit test",
     [TO + "include/track_odometry/kalman_filter1.h"], [("filter", TO + "include/track_odometry/kalman_filter1.h")])
prop("P19", "Footprint template cells are isolated and centred",
     "Every cell of a footprint template and of a 3-D costmap message addressed by offsets within its window is a distinct element inside its storage; a freshly sized template is all zero and reports its size and centre.",
     ["inputs"], "all template sizes and offsets", "tests read a few offsets and need the middleware",
     [CC + "cspace3_cache.h", CC + "costmap_3d_layer/base.h"], [("template", CC + "cspace3_cache.h")])
prop("P20", "Costmap overlays only combine costs as configured",
     "Merging an overlay cell into the map gives the larger cost in maximum mode and the overlay's own cost in overwrite mode, unknown cells follow the configured rule, and cells outside the updated window are unchanged.",
     ["inputs"], "all costs, modes and windows", "tests check a few cells",
     [CC + "costmap_3d_layer/base.h", CC + "costmap_3d_layer/unknown_handle.h"], [("merge", CC + "costmap_3d_layer/base.h")])
prop("P21", "Footprint polygon tests are geometrically sound",
     "The footprint radius covers every vertex and is attained by one; moving a footprint preserves all pairwise distances; the point-in-polygon test is true exactly when a ray crosses the outline an odd number of times; the distance to an edge is the one to its nearest point, and the distance to the outline is not larger than to any edge.",
     ["inputs"], "all polygons of any size and all points", "tests check a few points",
     [CC + "polygon.h"], [("polygon", CC + "polygon.h")])
prop("P22", "Manual operation overrides autonomous commands only while engaged",
     "While the operator's button is held and its input is recent the autonomous command is not forwarded; once released or timed out the operator's motion is no longer applied and the autonomous command passes unchanged.",
     ["histories"], "all event sequences", "tests run a few scripted sequences through the middleware",
     ["joystick_interrupt/src/joystick_interrupt.cpp"], [("state", "joystick_interrupt/src/joystick_interrupt.cpp")])
prop("P23", "The point cloud accumulator holds exactly the recent clouds",
     "After each insertion every retained cloud is within the hold time of the newest one, no such cloud has been dropped, and the order of arrival is kept.",
     ["histories"], "all arrival sequences in time order", "tests insert a few clouds",
     [CC + "pointcloud_accumulator.h"], [("accumulator", CC + "pointcloud_accumulator.h push")])

prop("P24", "The limited velocity leaves room to stop before a predicted collision",
     "The safety limiter follows the commanded motion through its whole prediction horizon in steps of the configured time, looking at the robot where each step takes it. If no predicted position collides the command is not reduced; otherwise the reduced command lets the robot stop, after the reaction delay and with its configured deceleration, before the first colliding position less the safety margin, both in distance and in rotation. A robot that is already in collision is reported as such and is stopped unless an escape allowance is configured; without any obstacle data in range of the sensor filter the configured rule for empty clouds applies.",
     ["inputs"], "all velocities, rates, horizons, steps, margins and obstacle sets",
     "tests approach one wall at a few speeds through the middleware; whether braking suffices is a statement about every speed and distance",
     [SL + "src/safety_limiter.cpp"], [("prediction", SL + "src/safety_limiter.cpp predict")])

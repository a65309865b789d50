#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run it to regenerate the file).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

AV = "avoidance/src/common.cpp"
# ------------------------------------------------------------------ shared library
prop("C01", "Angle normalisation preserves direction and stays in range",
     "Normalising an angle in degrees or radians returns a value congruent to the input modulo a full turn and inside the half-open range from minus to plus half a turn. The difference of two angles is the signed rotation between them, in that same range, and normalising an elevation/azimuth pair keeps the direction it denotes while bringing elevation into [-90,90] and azimuth into [-180,180).",
     ["inputs"], "every angle within several turns, every pair of angles, every elevation/azimuth pair",
     "unit tests sample a handful of angles; the claim is over every float, including values next to the wrap points",
     [AV, "avoidance/include/avoidance/common.h"],
     [("wrapAngleToPlusMinus180/PI, angleDifference, wrapPolar", AV)])
prop("C02", "Every direction maps to exactly one valid histogram cell",
     "For every direction, including unnormalised and non-finite ones, the azimuth and elevation cell indices computed from it lie inside the direction histogram. For a normalised direction the selected cell is the one whose angular extent contains the direction, and converting a cell to its centre direction and back returns the same cell at every valid resolution.",
     ["inputs"], "every float elevation/azimuth including NaN and infinities; every cell of both histogram resolutions",
     "tests check a few directions; an off-by-one at a wrap point indexes out of the matrix only for particular floats",
     [AV, "avoidance/include/avoidance/histogram.h"],
     [("polarToHistogramIndex / histogramIndexToPolar", AV)])
prop("C03", "Polar and Cartesian conversions are inverse and mutually consistent",
     "Converting a point to elevation, azimuth and radius about an origin gives a non-negative radius equal to the distance, an elevation in [-90,90] and an azimuth in [-180,180], and converting that back returns the point up to rounding. The azimuth convention (zero along +y, growing towards +x) and elevation sign are the same in both directions.",
     ["inputs"], "every origin and point in a bounded workspace; every direction",
     "round trips are tested on a few points; sign errors in one quadrant need a point of that quadrant",
     [AV], [("cartesianToPolarHistogram, polarHistogramToCartesian", AV)])
prop("C04", "Field-of-view predicates agree with the field of view's geometry",
     "A direction counts as inside a sensor's field of view exactly when its azimuth and elevation offsets from the view's centre, measured the short way round, are within half the horizontal and vertical opening. With several sensors the index of the only containing view is returned (none when no view or more than one view contains it), a direction is on the outer edge exactly when it is inside exactly one view and the direction just beyond that view's border on its side is outside every view, and the scaling factor derived from the views lies in [0,1], being 0 outside, 1 inside, and falling from 1 at the centre to 0 at the border on an outer edge.",
     ["inputs", "configurations"], "all fields of view (any yaw, pitch, openings), up to two sensors, all directions",
     "the tests use two hand-picked camera set-ups; wrap-around at +-180 deg and overlap need particular angles",
     [AV, "avoidance/include/avoidance/common.h"], [("pointInsideFOV, pointInsideYawFOV, isInWhichFOV, isOnEdgeOfFOV, scaleToFOV", AV)])
prop("C05", "Sensor-cloud sanitising keeps every finite point and only widens the view",
     "Removing invalid points from a sensor cloud keeps exactly the points whose three coordinates are all finite, unmodified and in their original order, leaves the cloud marked dense, and returns the extreme points of what remains along each axis. The field of view estimated from such extremes never shrinks from one cloud to the next.",
     ["inputs", "histories"], "every cloud up to the bound with any mix of NaN and finite coordinates; every sequence of two updates",
     "tests use one random cloud; loss or reordering needs a specific pattern of invalid points",
     [AV], [("removeNaNAndGetMaxima, updateFOVFromMaxima", AV)])
prop("C06", "Setpoints become trajectory messages with exact values and validity flags",
     "A position, velocity and yaw setpoint is transferred unchanged into the first point of the outgoing trajectory message, which is the only point flagged valid; all other points are flagged invalid and hold only not-a-number placeholders, as do the accelerations and time horizons. A Bezier message carries the five given control points and yaws, expressed in the autopilot bridge's axes, with all five points flagged valid, and the duration in the last time horizon entry only.",
     ["inputs"], "every pose and velocity vector, including partially invalid ones",
     "unit tests compare one pose; the flags and placeholders must be right for every input",
     [AV], [("transformToTrajectory, transformToBezier, fillUnusedTrajectoryPoint/Setpoints", AV)])
prop("C07", "Frame and orientation conversions are lossless",
     "Converting a vector between the east-north-up and north-east-down frames is an exact involution that swaps the horizontal axes and negates the vertical one. Conversions between vector types preserve every component, yaw and pitch extracted from an orientation reproduce the angle it was built from, and turning between two headings always takes the shorter direction.",
     ["inputs"], "every vector; every heading pair; every yaw/pitch in range",
     "component mix-ups cancel for the symmetric values tests use",
     [AV, "avoidance/include/avoidance/common.h"], [("toENU, toNED, toEigen/toPoint, getYawFromQuaternion, getPitchFromQuaternion, getAngularVelocity", AV)])
prop("C08", "The direction histogram stores per cell, wraps indices and resamples exactly",
     "Reading a cell returns the last value written to it, with any integer azimuth/elevation index wrapped around consistently, and writing one cell changes no other. Upsampling copies each coarse cell to its four fine cells, downsampling averages each two-by-two block, both reject a histogram of the wrong resolution, and the histogram is reported empty exactly when no cell holds a positive distance.",
     ["inputs", "histories"], "every cell index (negative and beyond the grid), every stored value",
     "tests fill the whole grid with one constant, for which index mix-ups and block mix-ups are invisible",
     ["avoidance/include/avoidance/histogram.h", "avoidance/src/histogram.cpp"],
     [("Histogram::wrapIndex/get_dist/set_dist, upsample, downsample, isEmpty", "avoidance/src/histogram.cpp")])
prop("C09", "The state machine follows its transition table and nothing else",
     "Iterating the state machine runs the current state's action once and moves to the table's successor for the returned transition; a repeat keeps the state, and an explicit error or a transition without an entry leads to the error state. For every sequence of transitions the resulting state equals the one obtained by following the table from the start state.",
     ["histories", "inputs"], "every sequence of transitions up to the bound, from every state",
     "tests walk two fixed sequences",
     ["avoidance/include/avoidance/usm.h"], [("usm::StateMachine::iterateOnce / transition", "avoidance/include/avoidance/usm.h")])
prop("C10", "Transform look-ups answer only from bracketing, in-order, retained history",
     "The transform buffer accepts, per frame pair, only transforms newer than the last accepted one and forgets only those older than the retention window. A look-up succeeds only when the requested time lies between two retained stamps (or equals one), never extrapolates, and returns the interpolation of exactly the two neighbours weighted by time.",
     ["histories", "inputs"], "every sequence of up to five insertions with arbitrary stamps followed by a look-up at any time",
     "tests use equidistant stamps; out-of-order, duplicate and window-boundary stamps are combinations",
     ["avoidance/src/transform_buffer.cpp", "avoidance/include/avoidance/transform_buffer.h"],
     [("TransformBuffer::insertTransform/getTransform/interpolateTransform", "avoidance/src/transform_buffer.cpp")])
prop("C11", "Data-loss failsafe: hover when data is late, terminate when it stays away",
     "Whenever the time since the last sensor data exceeds the termination timeout after start-up the companion status becomes terminating; when it exceeds the shorter critical timeout (after the start-up grace) the status becomes critical and a hover is requested; otherwise a planner that is not hovering reports active. The status message sent to the autopilot carries exactly that state and the avoidance component id.",
     ["inputs", "histories"], "all pairs of elapsed times, all previous states and hover flags, both planners that implement it",
     "tests drive one or two elapsed-time values",
     ["avoidance/src/avoidance_node.cpp", "safe_landing_planner/src/nodes/safe_landing_planner_node.cpp", "local_planner/src/nodes/local_planner_nodelet.cpp"],
     [("AvoidanceNode::checkFailsafe, publishSystemStatus", "avoidance/src/avoidance_node.cpp"), ("SafeLandingPlannerNode::checkFailsafe", "safe_landing_planner/src/nodes/safe_landing_planner_node.cpp")])
prop("C12", "Autopilot parameters and mission speed are tracked faithfully",
     "A parameter notification updates exactly the tracked parameter of that name with the received value and leaves all others alone, and unknown names change nothing. Polling stores each successful reply in the parameter it was requested for and changes nothing on failure. The mission speed used for planning is the one set by the latest horizontal speed-change command (positive speed, speed type not above ground speed) at or before the current mission item; it stays as it was (undefined at start-up) when there is none or no item is current.",
     ["inputs", "histories"], "every parameter message; every mission list up to the bound with any current item",
     "no existing test covers it",
     ["avoidance/src/avoidance_node.cpp"], [("AvoidanceNode::px4ParamsCallback, checkPx4Parameters, missionCallback", "avoidance/src/avoidance_node.cpp")])
# ------------------------------------------------------------------ local planner
LP = "local_planner/src/nodes/"
prop("C13", "Simulated trajectories respect the vehicle's limits",
     "Every state of a simulated trajectory follows from the previous one by the constant-jerk equations of motion, with a jerk no greater than the jerk limit and, when it starts within it, an acceleration no greater than the acceleration limit. There is one state per step of the requested duration (rounded up); time advances by the step time, or by a shorter positive time where the acceleration limit requires it. The velocity steered to points along the goal direction and respects the horizontal and vertical velocity limits; flying steadily at it, nothing changes.",
    ["inputs"], "every start state, goal direction and limits in the bounded range, every step",
     "tests simulate a few straight-line flights",
     ["local_planner/src/utils/trajectory_simulator.cpp"], [("TrajectorySimulator::generate_trajectory, simulate_step_constant_jerk, jerk_for_velocity_setpoint, xy_norm_clamp, norm_clamp", "local_planner/src/utils/trajectory_simulator.cpp")])
prop("C14", "The obstacle-distance report mirrors the direction histogram",
     "For every horizontal direction the report sent to the autopilot contains the histogram's distance when an obstacle is known there, just over the maximum range when the direction is visible and free, and not-a-number when the direction is outside every sensor's view. Ranges are ordered in the receiver's convention and the message's limits and increment match the planner's sensor range and histogram resolution.",
     ["inputs", "configurations"], "every histogram content, every field of view",
     "one test with a fixed histogram",
     [LP + "local_planner.cpp"], [("LocalPlanner::updateObstacleDistanceMsg", LP + "local_planner.cpp")])
prop("C15", "Obstacle cloud filtering drops only what it may drop",
     "The cloud used for planning contains only finite points taken unmodified from the newest sensor clouds (at a distance between the minimum and maximum sensor range) or from memory (below the maximum range) not older than the configured age, at most one per fine direction cell. A memory point is kept only where the new data does not cover it, its age grows by the elapsed time, and a sufficiently populated direction in the new data is always represented.",
     ["inputs", "histories"], "every cloud and memory cloud up to the bound, every position and elapsed time",
     "tests use hand-made clouds with generous spacing",
     [LP + "planner_functions.cpp"], [("processPointcloud", LP + "planner_functions.cpp")])
prop("C16", "The polar histogram holds the mean distance of the points in each cell",
     "The histogram built from a cloud holds, for each direction cell, the average distance of the points falling into it and zero where there is none; no point influences another cell. Its horizontal-plane compression reports for each azimuth an obstacle when one lies close to the vehicle's altitude there (within the rows around the horizontal and less than a metre above or below) and nothing otherwise, and every compressed distance is that of the nearest such cell.",
     ["inputs"], "every cloud up to the bound; every histogram content",
     "tests use one point per cell",
     [LP + "planner_functions.cpp"], [("generateNewHistogram, compressHistogramElevation", LP + "planner_functions.cpp")])
prop("C17", "Candidate directions are the cheapest cells in ascending order of cost",
     "The candidate directions handed to the tree search are exactly the requested number of lowest-cost cells of the cost matrix (fewer only if the matrix is smaller), in ascending order, each with its own cell's direction and cost. Every cost is the sum of the cell's direction costs and its smoothed obstacle cost, with smoothing that wraps in azimuth and never lowers a cell below its own obstacle cost.",
     ["inputs"], "every cost matrix and requested number up to the bound; every obstacle matrix",
     "tests use matrices with one clear minimum",
     [LP + "planner_functions.cpp"], [("getBestCandidatesFromCostMatrix, getCostMatrix, smoothPolarMatrix, padPolarMatrix, getConicKernel", LP + "planner_functions.cpp")])
prop("C18", "Direction costs favour the goal, the current heading and free space",
     "Every direction cost is finite and non-negative; the obstacle part is zero when no obstacle is known in the cell, lies below its fixed maximum and never decreases when the obstacle comes closer. All else being equal, a direction pointing at the goal is never more expensive than one pointing away from it and a direction along the current velocity is never more expensive than one against it.",
     ["inputs", "configurations"], "every direction, obstacle distance, position, velocity, goal and non-negative cost weights in range",
     "tests compare a few directions for fixed weights",
     [LP + "planner_functions.cpp"], [("costFunction", LP + "planner_functions.cpp")])
prop("C19", "The look-ahead tree is a well-formed, bounded tree with a goal-ward path",
     "Building the look-ahead tree yields nodes whose parents precede them, with depth one more than the parent and a finite accumulated cost (total less heuristic) that grows by the candidate's cost, and no two nodes closer than the minimum separation of 0.2 m. At most the configured number of nodes is expanded, each with its own candidates, cheapest first, and only within the configured path length of the vehicle; the returned path is the chain of parents from a deepest unexpanded node to the vehicle's position.",
     ["inputs", "configurations"], "every cost landscape over the bound's candidates, several goals and limits",
     "tests build one tree in one scene",
     [LP + "star_planner.cpp", LP + "tree_node.cpp"], [("StarPlanner::buildLookAheadTree, treeHeuristicFunction; TreeNode", LP + "star_planner.cpp")])
prop("C20", "Path following returns a point on the planned path or nothing",
     "Given a planned path and the time since it was planned, the follower returns the point of the path (followed from its first planned node on) interpolated according to elapsed time and speed, always between two consecutive path points; for a single segment it returns that segment's end. When the path is too short or has been completely used up, and only then, it reports that no setpoint is available.",
     ["inputs"], "every path of up to the bound's points, elapsed time and speed",
     "tests use one straight path",
     [LP + "planner_functions.cpp"], [("getSetpointFromPath", LP + "planner_functions.cpp")])
prop("C21", "Flight-mode selection never plans around obstacles without a planner path",
     "Every combination of current flight sub-state and situation (hover requested, altitude change, path available) leads to the sub-state required by the decision table, so that loiter is entered whenever a hover is requested (at the latest on the second cycle) and is left only when it is withdrawn, and path following goes on only while a path is available. While loitering more than a metre from the goal the target position stays the one captured on entry, whatever came before, and the commanded waypoint leads to it.",
     ["histories", "inputs"], "every sequence of planner outputs up to the bound, starting from every state",
     "tests walk a few sequences with fixed poses",
     [LP + "waypoint_generator.cpp"], [("WaypointGenerator::chooseNextState, runLoiter/runTryPath/runDirect/runAltitudeChange", LP + "waypoint_generator.cpp")])
prop("C22", "Commanded waypoints are finite, speed-limited and normalised",
     "Waypoints computed from finite inputs are finite, lie towards the target point no further ahead than the commanded speed, and their yaw is inside the normalised range. The commanded speed never exceeds the larger of the previous commanded speed and the planner's cruise speed (the distance to the goal within a metre of it), never the distance to the goal, and approaches zero when the target is outside the field of view. The smoothed waypoint and yaw follow their targets as critically damped second-order filters, the yaw the short way round, or exactly when smoothing is off.",
     ["inputs", "histories"], "every pose, velocity, goal and planner path in range",
     "tests sample fixed flights",
     [LP + "waypoint_generator.cpp"], [("WaypointGenerator::adaptSpeed, smoothWaypoint, nextSmoothYaw, getPathMsg", LP + "waypoint_generator.cpp")])
prop("C23", "Planner output obeys the speed limits in force",
     "The cruise speed handed to the waypoint generator never exceeds the configured or mission speed or the speed at which the vehicle can stop within its sensor range. The output carries the current planned path and the time it was planned; a path is planned exactly when the latest cloud shows an obstacle, from the current vehicle state, goals and configuration, and drawn to the line between the goals only when the vehicle is further off it than the cruise speed.",
     ["inputs", "configurations"], "every parameter set, sensor range and planner state",
     "one fixed configuration is tested",
     [LP + "local_planner.cpp"], [("LocalPlanner::getAvoidanceOutput, setDefaultPx4Parameters", LP + "local_planner.cpp")])
prop("C24", "Node callbacks map autopilot messages to planner state exactly",
     "Position, velocity, mode, status and goal messages set exactly the corresponding planner inputs, and clouds arrive in the planner's frame; a goal sent by the autopilot is taken over exactly when it is valid and differs from the current one. No setpoint is published while the planner reports anything other than active, and a range message is produced only when the configuration allows it.",
     ["inputs", "histories"], "every message content and message order up to the bound",
     "tests send one message of each kind",
     [LP + "local_planner_nodelet.cpp"], [("LocalPlannerNodelet::stateCallback, positionCallback, velocityCallback, fcuInputGoalCallback, calculateWaypoints, publishLaserScan", LP + "local_planner_nodelet.cpp")])
# ------------------------------------------------------------------ safe landing planner
SL = "safe_landing_planner/src/nodes/"
prop("C25", "The landing grid stores per cell and keeps its extent consistent",
     "A landing grid of any size has as many cells per side as its size divided by its cell size (rounded up), reading a cell returns what was last written to that cell and layer, and resetting clears every cell. Combining, resizing or replaying a recorded grid never leaves layers of different dimensions.",
     ["histories", "inputs", "configurations"], "every size/cell-size pair in range, every cell and value",
     "two tests with one grid size",
     ["safe_landing_planner/include/safe_landing_planner/grid.hpp"], [("Grid", "safe_landing_planner/include/safe_landing_planner/grid.hpp")])
prop("C26", "Terrain statistics are exact and no point is written outside the grid",
     "Every cloud point inside the grid's footprint is counted in exactly the cell containing it and every other point is ignored, so nothing is ever written outside the grid. Each cell's count, mean and variance of height equal those of the points that fell into it, independently of their order.",
     ["inputs", "histories"], "every cloud up to the bound with arbitrary coordinates, position and grid geometry",
     "tests use two synthetic terrains; boundary points and point order are unexplored",
     [SL + "safe_landing_planner.cpp"], [("SafeLandingPlanner::processPointcloud, isInsideGrid, computeGridIndexes, computeOnlineMeanVariance", SL + "safe_landing_planner.cpp")])
prop("C27", "A cell is landable exactly when its neighbourhood is flat, dense and safe",
     "A cell is declared landable exactly when more than the configured minimum number of cells of its smoothing neighbourhood (the cell itself when smoothing is off) have enough points and a standard deviation below the limit, and at most the tolerated number differ in mean height from it by more than the limit. Ground outside the grid counts as not landable.",
     ["inputs", "configurations"], "every grid content and threshold configuration within the bound",
     "tests use two terrains and one threshold set",
     [SL + "safe_landing_planner.cpp"], [("SafeLandingPlanner::isLandingPossible", SL + "safe_landing_planner.cpp")])
prop("C28", "The landing grid survives serialisation between the two landing nodes",
     "The grid message published by the landing-site detector reproduces the detector's (last completed) grid: its size, cell size, per-cell mean, standard deviation, count and land flags; the waypoint generator rebuilds the same cells' height and land flag from it. The vehicle's cell index it derives is that of the vehicle's position.",
     ["inputs", "configurations"], "every grid content within the bound",
     "no test connects the two ends",
     [SL + "safe_landing_planner_node.cpp", SL + "waypoint_generator_node.cpp"], [("publishSerialGrid / gridCallback", SL + "safe_landing_planner_node.cpp")])
prop("C29", "The landing sequence never descends onto an unevaluated or rejected site",
     "The landing sequence reaches the landing state only by descending to the loiter altitude, loitering while the grid is observed, and evaluating the ground as landable; a rejected site always leads to exploring another one. Any other sequence of situations keeps or returns the vehicle to a non-landing state, and a vehicle leaving the landing mode restarts from the beginning.",
     ["histories", "inputs"], "every sequence of grids, positions and mode changes up to the bound",
     "tests walk the nominal sequence",
     [SL + "waypoint_generator.cpp"], [("safe_landing_planner WaypointGenerator::chooseNextState, runEvaluateGrid, runGoToLand, runLand", SL + "waypoint_generator.cpp")])
prop("C30", "Landing setpoints state exactly which axes they command",
     "Each landing setpoint carries, per axis, the requested position or velocity with invalid axes marked not-a-number, exactly as requested. A setpoint is marked valid only if horizontally and vertically a position or a velocity is commanded.",
     ["inputs"], "every combination of valid and invalid components",
     "no test covers partially invalid setpoints",
     [SL + "waypoint_generator_node.cpp"], [("WaypointGeneratorNode::publishTrajectorySetpoints", SL + "waypoint_generator_node.cpp")])
# ------------------------------------------------------------------ global planner
GP = "global_planner/src/"
prop("C31", "Voxel cells tile space without gaps or overlaps",
     "Every position belongs to exactly one cell, a cell's centre belongs to that cell, and a point lies within half a cell edge of its cell's centre on each axis. This holds for every configured cell size. Cell equality, ordering and hashing agree with each other, the reported neighbours are exactly the distinct adjacent cells, a cell's risk neighbourhood of a radius contains each cell within it exactly once and none farther than one cell outside it, and goal radii are compared with the distance along the axes.",
     ["inputs"], "every position in range, every pair/triple of cells",
     "no geometric test exists; negative and boundary coordinates matter",
     [GP + "library/cell.cpp", "global_planner/include/global_planner/cell.h"], [("Cell", GP + "library/cell.cpp")])
prop("C32", "Search nodes have consistent identity, turning cost and swept cells",
     "Two search nodes are equal exactly when they denote the same cell and the same predecessor (only the same cell for the search that ignores turning), and equal nodes hash equally. A node's successors are exactly its adjacent cells, for speed-aware nodes the repeated step and its one-cell variations up to the configured length. The rotation of a step is the number of 45 degree turns of heading plus one half when changing between level and vertical motion, so zero exactly when the direction does not change; the cells swept by a step include its end cell (and its start cell when level), lie along it and leave no gap.",
     ["inputs"], "every pair of nodes within the bound",
     "no test exists",
     [GP + "library/node.cpp", "global_planner/include/global_planner/node.h"], [("Node, NodeWithoutSmooth, SpeedNode", GP + "library/node.cpp")])
prop("C33", "Global paths are connected, legal and end at the goal",
     "A path returned by the global search starts with the start's predecessor and the start cell, ends at the goal cell (within the goal radius), moves from each cell only by a step its kind of node offers (adjacent cells for plain nodes), and takes only steps that are legal; the simple last-resort searches may in addition end in the goal cell itself. With a heuristic that never overestimates the path is a cheapest one. The reported cost of a path is finite and equals the sum of its steps' costs, and the search fails, leaving no path, only when there is no way or the iteration budget is used up, which it never exceeds; no path is planned from or to an occupied cell when the goal must be free, and a blocked goal is reported.",
     ["inputs", "configurations"], "every obstacle layout in the bounded neighbourhood, every start/goal pair and iteration limit within it",
     "the only test is a placeholder",
     ["global_planner/include/global_planner/search_tools.h"], [("findSmoothPath and the simpler searches", "global_planner/include/global_planner/search_tools.h")])
prop("C34", "Path simplification and smoothing keep the path's end points",
     "Simplifying a path with the configured margin and iterations keeps its first two and its last point (doubling the last one to stop there when asked), only drops points, never reorders them, and drops a point exactly when the resulting direct connection costs no more than the allowed margin; the path followed and shown is the simplified one. Smoothing and Bezier subdivision keep end points and frames, and every point is the convex combination of the three points the curve stands for; reducing a path to its corners drops exactly the points where nothing changes; a curve between two points accelerates, cruises and brakes without a gap.",
     ["inputs"], "every path and risk function within the bound",
     "no test exists",
     ["global_planner/include/global_planner/search_tools.h", "global_planner/include/global_planner/bezier.h", "global_planner/include/global_planner/common_ros.h"], [("simplifyPath, smoothPath, threePointBezier", "global_planner/include/global_planner/bezier.h")])
prop("C35", "Occupancy risk is a well-behaved probability",
     "Combining a prior with a sensor's occupancy estimate yields a probability in [0,1] that grows with both, and the altitude prior used for a cell is that of the cell's altitude, clamped to the known range. The risk of a cell is its own plus the configured share of its surroundings within the robot's radius, finite, not below its own, and the same when asked again while the map is unchanged; a new map is taken into account. The risk of a step is the mean of the swept cells' risk times its length (zero when it does not move), the search's estimates are finite at every altitude, and without a map every cell counts as occupied.",
     ["inputs"], "every prior, occupancy value and altitude; every cell in range",
     "no test exists",
     [GP + "library/global_planner.cpp", "global_planner/include/global_planner/common.h"], [("posterior, getAltPrior, getSingleCellRisk, getRisk", GP + "library/global_planner.cpp")])
prop("C36", "Global goals are visited in order and followed at the commanded speed",
     "A list of goals is served in order, advancing only when the current goal has been reached or is unreachable, stopping where it is when none is left; a new external goal replaces the current one and the remaining stay; a provisional long path is pursued by an intermediate goal at its middle, keeping the goal for later. The current path point advances exactly when the vehicle is close to it, and the setpoint sent to the autopilot lies from the vehicle towards that point at the planned speed (up to the point itself within one metre, exactly there when at it) with the point's heading; the planned speed depends on the risk of the vehicle's cell only when configured. Obstacle points and maps are taken over in the planner's frame and at the configured rate.",
     ["histories", "inputs"], "every goal list and vehicle position within the bound",
     "no test exists",
     [GP + "nodes/global_planner_node.cpp"], [("GlobalPlannerNode::popNextGoal, setIntermediateGoal, publishSetpoint, positionCallback", GP + "nodes/global_planner_node.cpp")])

# ------------------------------------------------------------------ further landing
prop("C38", "The landing sequence stays inside its grid for every kernel and grid size",
     "Whatever landing kernel is configured and whatever grid arrives, also when either changes between two cycles, the landing sequence only reads and writes cells of the grid: the ground evaluated is the configured kernel around the vehicle's cell, cut to the largest one that fits. The landing area shown has exactly those cells at their places in the world, green exactly when they lie in the round kernel and are observed landable. The height of the landing area is the asked percentile of the kernel's cell heights.",
     ["inputs", "configurations", "histories"], "every kernel and grid size up to the bound, every state of the sequence, any flags and heights",
     "tests use the default kernel on one grid size",
     [SL + "waypoint_generator.cpp", SL + "waypoint_generator_node.cpp"], [("safe_landing_planner WaypointGenerator::updateSLPState, landingAreaHeightPercentile; WaypointGeneratorNode::landingAreaVisualization", SL + "waypoint_generator.cpp")])

prop("C37", "The landing-site detector evaluates each new cloud once and reports its health",
     "Every cycle of the landing-site detector waits for a new transformed cloud, evaluates it exactly once at the latest vehicle position and publishes the resulting grid. Its status is flight termination when the last evaluation ended longer ago than the termination timeout, critical when longer ago than the critical timeout (in both cases only once the node has been running for that long) and active otherwise; while no cloud arrives, flight termination is reported at every wait after the termination timeout. A heartbeat carrying the status goes out under the detector's component id when the last one is older than 0.2 s. The cloud thread hands over the newest received cloud in the local frame and without NaN points, never one older than the last, waits as long as its transform is not available, and ends when asked; it starts only when everything it needs exists.",
     ["schedules", "histories", "inputs"], "every timing of clouds, transforms, evaluations and heartbeats within the bound, every interleaving of cloud arrivals and the thread's steps up to the bound",
     "the node has no test; it depends on timing",
     [SL + "safe_landing_planner_node.cpp"], [("SafeLandingPlannerNode::cmdLoopCallback, pointCloudTransformThread, checkFailsafe, publishSystemStatus", SL + "safe_landing_planner_node.cpp")])
prop("C39", "Every configuration parameter takes effect in the component it configures",
     "After a reconfiguration the local planner (its search tree, costs, remembered points, sensor range, waypoint generator's response speeds, goal height and the timeouts of the health check), the global planner (costs, speeds, altitudes, search budget and mode, cell size, edge length, goals and simplification) and the landing-site detector (thresholds, smoothing, grid, timeouts and the parameters its visualisation uses) work with exactly the values configured, whichever parameters were changed together and for any values; the detector rebuilds its grid at its next evaluation exactly when cell size, grid size or smoothing differ from those in use.",
     ["configurations", "histories"], "every value of every parameter, every combination of changed groups, two updates in a row",
     "no test reconfigures a node",
     [LP + "local_planner_nodelet.cpp", LP + "local_planner.cpp", LP + "star_planner.cpp", GP + "nodes/global_planner_node.cpp", SL + "safe_landing_planner.cpp"], [("dynamicReconfigureCallback of the three nodes; dynamicReconfigureSetParams", GP + "nodes/global_planner_node.cpp")])

prop("C40", "What is shown is what was computed",
     "The planners' displays (the operator's view) agree with what was computed. The histogram image has one pixel per histogram cell, rows from the top elevation down, black where nothing is seen and brighter the closer the obstacle relative to the sensor range; the cost image shows the distance cost in red and the other costs in green relative to the largest cost, with heading, way point and adapted way point marked in blue, white and light blue in the cells of their directions and nothing else changed (and no marks in data of another size); each image's row length and size fit its data. The search tree is drawn with one edge from every expanded node to its origin and the path as its points in order; goal, way points, off-track points, vehicle and way-point paths (a new piece each time), velocity setpoint (coloured by planner state), sensor views and range readings are drawn at their positions and lengths, each update exactly once. The landing-site detector draws every cell at its place, green exactly when landable, at its mean height with the spread's colour (black above the limit), and its point count's colour, and the vehicle's path.",
     ["inputs", "configurations"], "every value and position within the bound, every choice of tree origins and expanded nodes",
     "no test looks at what is displayed",
     [LP + "local_planner_visualization.cpp", LP + "local_planner.cpp", LP + "planner_functions.cpp", LP + "local_planner_nodelet.cpp", SL + "safe_landing_planner_visualization.cpp"], [("LocalPlannerVisualization; LocalPlanner::generateHistogramImage; generateCostImage; SafeLandingPlannerVisualization", LP + "local_planner_visualization.cpp")])

prop("C41", "The local planner is wired to its documented inputs, outputs and cycles",
     "Once started, the local planner flies to the goal configured at launch (goal_x_param, goal_y_param, goal_z_param, 0 where not configured), given to the planner exactly once, and takes goals from the input topic only when accept_goal_input_topic says so. It receives the vehicle's pose, velocity, state and altitude, the mission's trajectory, goals clicked on the map or given as markers, clicked points, the autopilot's parameters and the mission's items on their documented mavros topics in its namespace, each message exactly once and with its documented effect, down to the planner. Every configured point cloud topic, and no other, feeds exactly its own camera, and every camera has a thread of its own that transforms its clouds, besides one thread that plans, one that follows the transforms and one that asks the autopilot for its parameters. Setpoints and health checks run at 10 Hz and the heartbeat at 5 Hz, each repeatedly on a served queue of its own so that one cannot hold up the other; setpoints go to mavros/setpoint_position/local and mavros/trajectory/generated, obstacle distances to mavros/obstacle/send (unless switched off by CP_DIST), and the heartbeat to mavros/companion_process/status. A reconfiguration reaches planner and health check.",
     ["configurations", "inputs"], "every launch goal, number of cameras and message content within the bound, every order of the ages of cloud and start",
     "no test starts the node; the wiring only shows when all parts run together",
     [LP + "local_planner_nodelet.cpp", "avoidance/src/avoidance_node.cpp"], [("LocalPlannerNodelet::onInit, InitializeNodelet, startNode, readParams, initializeCameraSubscribers; AvoidanceNode::init", LP + "local_planner_nodelet.cpp")])
prop("C42", "The global planner is wired to its documented inputs, outputs and cycles",
     "The global planner node, started by its main, reads its private parameters (start position, frame, camera frame with camera_link as default, robot radius, point cloud topics) and uses each: it first sends the vehicle to, and plans towards, the configured start in the configured frame. It receives map, vehicle pose and velocity, clicked points, goals clicked on the map, the mission's trajectory and the autopilot's parameters on their documented topics in its namespace (not in its private one), each message exactly once and with its documented effect; clouds of every configured camera, and no other, are read in the configured camera frame, kept as obstacles and passed on to cloud_in. A map that cannot be read is ignored in favour of the last one, and nothing depends on a map having arrived. Setpoints and health checks run at 10 Hz, planning once a second and the heartbeat at 5 Hz, each repeatedly on a served queue of its own so that planning cannot hold up setpoints; setpoints go to mavros/setpoint_position/local and mavros/trajectory/generated, the heartbeat to mavros/companion_process/status. A reconfiguration reaches the planner.",
     ["configurations", "inputs"], "every start position, parameter combination, number of cameras and message content within the bound",
     "no test starts the node; the wiring only shows when all parts run together",
     [GP + "nodes/global_planner_node.cpp", GP + "nodes/global_planner_node_main.cpp"], [("main; GlobalPlannerNode constructor, readParams, initializeCameraSubscribers", GP + "nodes/global_planner_node.cpp")])
prop("C43", "The landing nodes are wired to each other, to the autopilot and to their cycles",
     "The landing-site detector, started by its main, reads its private parameters; it receives the vehicle's pose and the configured camera's clouds (or, when a recording is replayed, the recorded grids on /raw_grid_slp instead of the clouds), transforms clouds in a thread of its own and evaluates at 10 Hz on a served queue, publishing the grid on grid_slp and its heartbeat on mavros/companion_process/status. The landing waypoint generator, started by its main, receives that grid, the vehicle's pose and state and the mission's trajectory on their documented topics, each message exactly once and with its documented effect, and sends a setpoint to mavros/trajectory/generated in every 10 Hz cycle. All topics are in the nodes' namespace, not in their private ones, and a reconfiguration reaches both.",
     ["configurations", "inputs"], "every message content within the bound, with and without a recording",
     "no test starts the nodes; the wiring only shows when both run together",
     [SL + "safe_landing_planner_node.cpp", SL + "safe_landing_planner_node_main.cpp", SL + "waypoint_generator_node.cpp"], [("main, constructors and startNode of both nodes", SL + "safe_landing_planner_node.cpp")])

prop("C44", "The simulated world and the drone are shown as described",
     "In simulation, once every two seconds the world named by the node's world_name parameter is shown: one object for each of the world file, of its type, at its position, orientation and size in its frame, under an id of its own and until it is replaced; primitives visibly, meshes in their own colours. The vehicle's model is shown at every pose received, at that pose. A model:// resource is taken from the first location of GAZEBO_MODEL_PATH, then of the user's own models, that has it as a regular file, whichever of the two variables are set; without it, or with an object of unknown type, nothing is shown rather than a part. Without a world nothing is shown.",
     ["inputs", "configurations"], "every pose and size, every type of object, every combination of environment variables and of file types in the locations within the bound",
     "no test covers it; it depends on the environment and the file system",
     ["avoidance/src/rviz_world_loader.cpp"], [("WorldVisualizer", "avoidance/src/rviz_world_loader.cpp")])

prop("C45", "The global search starts right, always ends and is guided by sound estimates",
     "Planning starts from where the vehicle will be after the configured search time, coming from where it was that time ago, or free of any direction when the current yaw is to be ignored. For every allowed configuration of budget and overestimation it ends, whether the vehicle is already at the goal, can reach it or is shut in, and it leaves the configured budget as it is. The estimate that guides it consists of the overestimated distance, the cost of climbing or descending, the cost of turning towards the goal and, only as configured, the risk and the visits so far; it is never negative, and without overestimation its distance and altitude parts never exceed the cost of any way to the goal, being met by the straight one, for every cell size and every cost of climbing and descending.",
     ["inputs", "configurations"], "every position, velocity, search time, cost and weight in range, every allowed combination of search settings within the bound",
     "no test exists; a search that does not end or a misleading estimate shows only for particular settings",
     [GP + "library/global_planner.cpp"], [("GlobalPlanner::findPath, getHeuristic, altitudeHeuristic, smoothnessHeuristic", GP + "library/global_planner.cpp")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")

#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SL = "safety_limiter/src/safety_limiter.cpp"
JI = "joystick_interrupt/src/joystick_interrupt.cpp"
JM = "joystick_interrupt/src/joystick_mux.cpp"
TT = "trajectory_tracker/src/trajectory_tracker.cpp"
P3 = "planner_cspace/src/planner_3d.cpp"

prop("P01", "safety_limiter stops the robot when its inputs are stale",
 "Whenever safety_limiter has not evaluated a valid point cloud (none received yet, the newest one is older than cloud_timeout, it is empty while empty clouds are not allowed, or it cannot be transformed to the robot frame) or its enabled watchdog has not been reset in time, every velocity it outputs is exactly zero and its status reports the reason (a newly accepted cloud counts as evaluated from the next prediction tick, at most one period 1/freq later). "
 "After valid clouds, transforms and watchdog resets flow again, velocity commands pass again within a bounded time. "
 "When the watchdog expires it also emits one zero command by itself, without waiting for an input command.",
 ["schedules", "fault_sequences", "configurations"],
 "for every loss, delay, duplication, reordering and stall of clouds, transforms, commands and watchdog resets, and every parameter set",
 "The rostests publish at one fixed rhythm and stop one input at a time; no unit test reaches the node at all in the offline build.",
 [SL], [("cloud timeout, empty cloud and transform guard", SL + ": prediction timer callback and predict()"),
        ("watchdog timer", SL + ": watchdog callbacks"), ("zero output gate", SL + ": twist callback")],
 ["cmd_vel", "~/status", "diagnostics"])

prop("P02", "safety_limiter never lets the robot run into an observed obstacle",
 "For every obstacle layout present in the accepted point cloud (any number of clouds and points within the configured height range), footprint and commanded planar velocity, the limited velocity is such that moving with it for the configured latency and then braking at the configured acceleration keeps the footprint, taken at the pose where the newest cloud was measured, from reaching an obstacle closer than the margin, up to the prediction step and downsampling grid, for a command steady over a prediction period; when already in collision only motion that does not deepen the collision is passed. "
 "In closed loop with a robot that obeys the output, a robot that starts clear never collides with a static obstacle in view, whatever the command source does.",
 ["inputs", "schedules", "fault_sequences"],
 "for every obstacle set, command sequence and message timing within the declared latency",
 "Tests use a single wall at a handful of distances with one command each.",
 [SL], [("collision prediction", SL + ": predict()"), ("rate limiting", SL + ": limit()")], ["cmd_vel", "~/status"])

prop("P03", "safety_limiter only ever slows a command down, keeping its curvature",
 "Every output of safety_limiter is the latest input command scaled by one common non-negative factor not above one (linear and angular alike), additionally clamped so that the linear speed never exceeds max_linear_vel and the angular speed never exceeds max_angular_vel while direction of travel is kept; it is unscaled when no obstacle is near and the inputs are fresh. A straight motion or a rotation on the spot is not slowed down more than stopping in front of the first obstacle on its way needs (within the prediction step), unless a limitation is being held. "
 "The limitation is bypassed only while a disable request younger than disable_timeout is in effect, and the velocity maxima apply even then. "
 "After a limitation the hold time keeps the limit from being relaxed early.",
 ["inputs", "schedules", "configurations"],
 "for every command, limitation state, disable message timing and parameter change",
 "Tests sample single commands at fixed limits.",
 [SL], [("common scale factor", SL + ": limit()"), ("maximum clamp", SL + ": limitMax()"), ("disable window", SL + ": cbDisable / cbTwist")], ["cmd_vel"])

prop("P04", "joystick_interrupt gives the held joystick priority and hands back cleanly",
 "While the configured interrupt button is held and joystick messages keep arriving within the timeout, the output velocity is the joystick's own (axis values scaled by the configured velocities, high-speed ratios and the omni-directional option) and no external command is forwarded; while it is not held, or after the joystick timed out, external commands are forwarded unchanged. "
 "The interrupt status topic reports who is in control (true: external commands pass), releasing the button never leaves a joystick velocity in effect but hands back to the last external command, zero if there is none, and out-of-range button or axis indices never crash the node or assert control.",
 ["schedules", "inputs", "fault_sequences", "configurations"],
 "for every interleaving of joystick and command messages, including loss, delay and joystick disconnection",
 "The rostest exercises a few hand-written joystick sequences with real sleeps; it is not part of the runnable suite.",
 [JI], [("interrupt state machine", JI + ": cbJoy/cbTwist")], ["cmd_vel", "interrupt_status"])

prop("P05", "joystick_mux forwards exactly one selected source",
 "joystick_mux forwards, unchanged and in order, exactly the messages of the source selected by the latest fresh joystick state: the second input while the interrupt button is held, the first one otherwise and whenever the joystick has timed out (noticed within the 0.1 s timer period). "
 "No message of the unselected source ever reaches the output, and messages of any type are forwarded with their type.",
 ["schedules", "inputs", "fault_sequences"],
 "for every interleaving of the two sources, joystick messages and timeouts",
 "There is no test of joystick_mux timing in the runnable suite.",
 [JM], [("selection and timeout", JM)], ["mux_output"])

prop("P06", "trajectory_tracker commands are bounded and zero without a live path",
 "Every velocity trajectory_tracker publishes is finite, and between consecutive control cycles never changes faster than the maximum accelerations allow, except for a stop to exactly zero; it never exceeds the maximum linear velocity (or the speed given by the speed topic, or the velocities the path itself carries) and the maximum angular velocity, other than while decelerating to a limit that has just been lowered. "
 "It is zero when the path is empty or invalid, while the robot pose or odometry it needs has not been received or (with odometry) timed out, and when the robot is beyond the maximum distance from the path it does not accelerate along it; the tracker keeps reporting that state instead of dying or accessing a path that is not there.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "for every path, robot motion and loss, delay, reordering or clock jump of path, transform, speed and odometry data",
 "The rostests follow a few ideal paths with a perfect simulated robot.",
 [TT, "trajectory_tracker/include/trajectory_tracker/basic_control.h"],
 [("velocity/acceleration limiter", "trajectory_tracker/include/trajectory_tracker/basic_control.h"),
  ("path/odometry guards", TT + ": control, cbTimer, cbOdomTimeout")], ["cmd_vel", "~/status"])

prop("P07", "trajectory_tracker brings the robot to the end of any trackable path",
 "For every kinematically trackable path (straight, curved, with switch-backs and in-place turns, forward or backward) followed by a robot that obeys its commands, the tracker drives the robot to the end in bounded time and reports GOAL, whatever message loss, delay or stall happened before; it never reports GOAL for the current path while the robot, by the transform or odometry it received, is farther from the end of the path along it than the goal tolerance, off it laterally by more than the stopping distance, or turned away from its heading by more than the goal tolerance. "
 "The status always refers to the path most recently accepted.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "for every trackable path, path-following and transient message faults that eventually stop",
 "Tests check one straight, one curve and one turn at fixed parameters.",
 [TT, "trajectory_tracker/include/trajectory_tracker/path2d.h"],
 [("tracking control and goal decision", TT + ": getTrackingResult")], ["cmd_vel", "~/status"])

prop("P08", "Recorded and saved trajectories survive exactly or fail visibly",
 "A path saved to a file by trajectory_saver is loaded by trajectory_server as an identical path (but for the stamp and, if configured, the position filter), and the saver finishes only if the complete path is in the file. "
 "Whatever failed, short or torn write or read, truncation, structural corruption or missing file occurs, the server answers the change request with failure, keeps running and keeps serving later requests, and never publishes a path that was not stored. Its status names the file and id in effect, and edits by markers apply to exactly the addressed pose of the path it holds.",
 ["crash_points", "fault_sequences", "inputs"],
 "for every path and every torn, short, failed or corrupted file operation",
 "Existing tests never run the saver/server pair and inject no I/O faults.",
 ["trajectory_tracker/src/trajectory_saver.cpp", "trajectory_tracker/src/trajectory_server.cpp"],
 [("file save", "trajectory_tracker/src/trajectory_saver.cpp: cbPath"), ("file load", "trajectory_tracker/src/trajectory_server.cpp: loadFile / change")],
 ["path", "change_path service", "~/status", "the file system"])

prop("P09", "trajectory_recorder stores the driven trajectory at its intervals",
 "trajectory_recorder publishes a path that contains the robot's actual poses in the order driven, adding a pose whenever the robot moved at least the distance interval or turned at least the angle interval since the last one stored and not otherwise, and it clears the path exactly when asked. "
 "Transform outages only pause recording: the node keeps answering its service and resumes when transforms return.",
 ["schedules", "fault_sequences", "inputs"],
 "for every motion, transform outage and service call timing",
 "The rostest runs one motion with uninterrupted transforms.",
 ["trajectory_tracker/src/trajectory_recorder.cpp"],
 [("interval sampling", "trajectory_tracker/src/trajectory_recorder.cpp: spin"), ("clear service", "trajectory_tracker/src/trajectory_recorder.cpp: clearPath")], ["path", "~/clear_path service"])

prop("P10", "planner_3d paths are collision-free, connected and lead to the goal",
 "Every non-empty path planner_3d publishes avoids every lethal cell of the costmap it was last given (including applied updates), is connected by steps the robot's kinematic model allows, starts at the robot, and either ends within the goal tolerance of the (possibly tolerance-shifted) goal or, where the whole way is not planned in detail, at a pose from which the goal is nearer by at least the local range. "
 "Costmap updates, even if they arrive before the map, out of range, duplicated or out of order, are applied to exactly the region they describe.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "for every map, update sequence, start, goal and number of search threads",
 "Navigation rostests use two fixed maps; the unit tests reach only the containers.",
 [P3, "planner_cspace/src/grid_astar_model_3dof.cpp", "planner_cspace/include/planner_cspace/grid_astar.h"],
 [("search and edge cost", "planner_cspace/src/grid_astar_model_3dof.cpp"), ("update application", P3 + ": cbMapUpdate/applyCostmapUpdate"), ("plan creation", P3 + ": makePlan")], ["path", "status"])

prop("P11", "Every accepted planner goal gets exactly one terminal result",
 "Every goal accepted by the move_base or tolerant_move action ends in exactly one terminal state: succeeded only if the robot reached the goal within the requested tolerance (widened by the relocation where the goal or the robot is in a collision) and finally has its orientation, preempted when cancelled or replaced, aborted when planning failed more than the retry limit; after it ended no further path to it is published. "
 "Once faults stop, a goal that is reachable with clearance for a robot following the path succeeds within bounded time, and no goal is left pending forever (an unreachable goal stays active while retries are unlimited).",
 ["schedules", "fault_sequences", "histories"],
 "for every interleaving of goals, cancels, topic goals, maps and robot motion",
 "Rostests send one goal at a time and check one ending each.",
 [P3], [("action callbacks", P3 + ": cbAction/cbTolerantAction/cbPreempt"), ("goal state machine", P3 + ": spin")], ["move_base result/status", "tolerant_move result/status", "path", "status"])

prop("P12", "planner_3d refuses to plan on stale or missing data and says so",
 "While the costmap watchdog is enabled and no costmap update arrived within its period, planner_3d plans no path, publishes an empty path to stop the robot if a goal is active, and reports DATA_MISSING; without map or goal it publishes no path; it resumes by itself when data return. "
 "An unreachable goal, or a robot enclosed by or inside obstacles, is reported as PATH_NOT_FOUND or IN_ROCK and never produces a path through an obstacle.",
 ["schedules", "fault_sequences", "inputs"],
 "for every outage of costmap, updates or transforms and every enclosing obstacle layout",
 "One watchdog rostest with one fixed outage; not runnable here.",
 [P3], [("watchdog and error status", P3 + ": spin / planPath")], ["path", "status", "diagnostics"])

prop("P13", "Parallel A* gives a valid path under every thread schedule",
 "For every grid, cost model, number of search threads and parallel task count, and every interleaving of the worker threads, the grid search returns the same reachability answer as a sequential reference, a connected path from a given start to the goal (or into the leave range) whose cost is the optimum for one task and a consistent estimate, and never exceeds it by more than as many moves as there are parallel tasks; in best-effort mode a failed search gives a path to the reached cell with the lowest estimate; progress is reported at the requested interval and an abort request stops the search before it does more work. "
 "It never hangs, corrupts memory or leaves an inconsistent parent chain.",
 ["schedules", "inputs", "configurations"],
 "for every interleaving of OpenMP workers at every memory access, and every grid",
 "The unit test runs tiny grids on whatever schedule the OS picks.",
 ["planner_cspace/include/planner_cspace/grid_astar.h"], [("parallel search loop", "planner_cspace/include/planner_cspace/grid_astar.h: searchImpl")], ["search() return value and path"])

prop("P14", "Incremental distance map equals a full rebuild",
 "After every sequence of costmap updates, robot moves, goal changes and search-range limits, and under every thread schedule, the cost-to-goal values of the planner's distance map over the area it guarantees equal those of a freshly created map, which equal the shortest-path values of its cost model; unreachable cells stay unreachable.",
 ["histories", "schedules", "inputs"],
 "for every update sequence and worker interleaving",
 "The ROS-dependent gtests cover a few hand-drawn obstacles and are not buildable offline; they use one schedule.",
 ["planner_cspace/src/distance_map.cpp"], [("incremental update", "planner_cspace/src/distance_map.cpp: update"), ("parallel fill", "planner_cspace/src/distance_map.cpp: fillCostmap")], ["distance map values"])

prop("P15", "planner_3d remembers observed obstacles as configured and forgets on command",
 "With remembering enabled, an obstacle observed repeatedly in costmap updates keeps influencing plans after it left the local view, an obstacle seen once by noise or observed free again is forgotten, and the remembered occupancy of each cell depends only on that cell's own observation history. "
 "The forget service, a new base map and a detected position jump of the localization erase it completely.",
 ["histories", "schedules", "configurations"],
 "for every observation history, forget call and jump",
 "Tests drive one obstacle in and out once.",
 ["planner_cspace/src/costmap_bbf.cpp", P3], [("binary Bayes filter map", "planner_cspace/src/costmap_bbf.cpp"), ("clear triggers", P3)], ["~/remembered_map", "path", "forget_planning_cost service"])

prop("P16", "make_plan answers every request consistently with the map",
 "For every request between distinct cells the plan service of planner_3d either returns a collision-free connected path between the requested poses (moved only when they are in collision, to a free cell within the tolerance) when one exists at its planning resolution, or fails: poses outside the map, in obstacles without a free cell within the tolerance, in other frames or sent before the map are rejected. It neither crashes nor disturbs the navigation in progress.",
 ["inputs", "schedules", "histories"],
 "for every request and every moment relative to map updates and active planning",
 "One rostest asks a handful of requests.",
 [P3], [("service handler", P3 + ": cbMakePlan")], ["make_plan service response"])

prop("P17", "costmap_3d equals its layers composed from the latest inputs",
 "After every sequence and interleaving of base maps and overlay messages, including overlays that arrive before the map, move, leave the map or are repeated, the configuration-space costmap obtained by applying the latest published update to the published base equals, within the update's region, the footprint expansion of the latest inputs layer by layer (maximum or overwrite mode, unknown handling, stop-propagation; overlays of the base map's resolution). "
 "No cell from which the footprint would touch an occupied cell of the governing layer is ever cheaper than lethal, and every update carries exactly the cells of its declared region.",
 ["inputs", "histories", "schedules", "configurations"],
 "for every map, footprint, angular resolution, layer stack and message order",
 "gtests use a few symmetric footprints and maps with isolated obstacles.",
 ["costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h", "costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h", "costmap_cspace/src/costmap_3d.cpp"],
 [("footprint expansion", "costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h"), ("layer chain and regions", "costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h"), ("update output", "costmap_cspace/include/costmap_cspace/costmap_3d_layer/output.h")],
 ["costmap", "costmap_update"])

prop("P18", "Local map generators show exactly the obstacles currently in view",
 "laserscan_to_map and pointcloud2_to_map publish a window centred on the robot in which exactly the cells hit by points in the height range, from scans not older than the accumulation time relative to the newest scan of the same input (single-shot clouds: the latest one), are occupied; a missing transform only loses that scan and a sensor gap never revives or keeps expired points. "
 "largemap_to_map publishes the matching window of the large map (unknown outside it), with the surrounded, rounded and occluded options applied.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "for every sensor timing, gap, reordering, transform outage, robot pose and window",
 "Only the accumulator has a unit test, at a uniform rate.",
 ["costmap_cspace/src/laserscan_to_map.cpp", "costmap_cspace/src/pointcloud2_to_map.cpp", "costmap_cspace/src/largemap_to_map.cpp", "costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h"],
 [("accumulation window", "costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h: push"), ("rasterisation", "costmap_cspace/src/*_to_map.cpp")], ["map_local"])

prop("P19", "Two-link planner trajectories are collision-free and executable",
 "Every trajectory planner_2dof_serial_joints publishes starts at the measured joint state, ends at the requested joint positions modulo whole turns allowed by the joint limits, never passes a configuration in which the two links collide, has increasing times that respect the joint velocity limits, and keeps the joints of other groups untouched. "
 "An unreachable request yields a NOT_FOUND status and no motion, and later requests are still served.",
 ["inputs", "schedules", "configurations"],
 "for every joint state, request and link geometry, and every message timing",
 "One rostest with two requests.",
 ["planner_cspace/src/planner_2dof_serial_joints.cpp"], [("joint-space search", "planner_cspace/src/planner_2dof_serial_joints.cpp: makePlan")], ["joint_trajectory", "~/status"])

prop("P20", "track_odometry compensates slip without losing or inventing motion",
 "For every odometry and IMU stream, including loss, reordering, duplication and gaps, the compensated odometry keeps the IMU attitude, moves by exactly the raw displacement rotated to that attitude and scaled by the estimated slip, equals the raw displacement when IMU and odometry agree, and remains finite; the height filter only ever pulls the height towards zero and the reset sets it. "
 "Published transforms equal the published odometry.",
 ["schedules", "fault_sequences", "inputs"],
 "for every stream and fault sequence",
 "The rostest drives a few constant motions with perfect timing.",
 ["track_odometry/src/track_odometry.cpp", "track_odometry/include/track_odometry/kalman_filter1.h"], [("slip compensation", "track_odometry/src/track_odometry.cpp: cbOdom")], ["odom", "tf"])

prop("P21", "tf_projection publishes the exact planar projection",
 "Whenever both transforms are available, tf_projection publishes, stamped with the source time plus tolerance, the source frame's pose projected onto the projection surface in the parent frame, with the posture handled as configured (kept, yaw only, or aligned); on outages it publishes nothing other than the last available projection, under its own stamp, and resumes by itself.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "for every frame motion, option set and transform outage",
 "One rostest with one static pose per option.",
 ["track_odometry/src/tf_projection_node.cpp", "track_odometry/src/tf_projection.cpp"], [("projection", "track_odometry/src/tf_projection_node.cpp: process")], ["tf", "tf_static"])

prop("P22", "Layered map files round-trip and failures are contained",
 "Maps saved by save_maps and loaded by tie_maps reproduce each floor's cells (free, occupied, unknown), size, resolution, origin, heading and height, in floor order; a map that cannot be written never crashes the saver, and tie_maps publishes either all requested maps or none, and keeps those it published available to later subscribers.",
 ["inputs", "fault_sequences"],
 "for every map array and every failing or short file operation",
 "The rostest loads one prepared pair of files.",
 ["map_organizer/src/save_maps.cpp", "map_organizer/src/tie_maps.cpp"], [("save", "map_organizer/src/save_maps.cpp: mapCallback"), ("load", "map_organizer/src/tie_maps.cpp")], ["files", "maps", "map0..n"])

prop("P23", "select_map publishes the selected floor and its height",
 "After every sequence of map arrays and floor selections, the last published map is the selected floor of the latest array with its height removed, and the published map transform carries that floor's height at the loop rate; an out-of-range selection changes nothing.",
 ["histories", "schedules", "fault_sequences"],
 "for every interleaving of map arrays and selections",
 "One rostest selects two floors in order.",
 ["map_organizer/src/select_map.cpp"], [("selection loop", "map_organizer/src/select_map.cpp: main")], ["map", "tf"])

prop("P24", "pointcloud_to_maps extracts each floor with its walls",
 "For every point cloud, each floor layer large enough by the configured thresholds is published once, at its height, with cells over which floor points lie and no obstacle points stand marked free, cells with points between the tolerance and robot height occupied, free areas never grown across occupied cells, and the array and the individual maps equal; an empty or degenerate cloud publishes an empty array and never crashes.",
 ["inputs", "schedules"], "for every point cloud and parameter set, and repeated clouds",
 "One rostest with one synthetic building.",
 ["map_organizer/src/pointcloud_to_maps.cpp"], [("floor extraction", "map_organizer/src/pointcloud_to_maps.cpp: cbPoints")], ["maps", "map0..n"])

prop("P25", "pose_transform republishes poses in the target frame",
 "Every pose received while a transform is available (or becomes available within the wait) is republished exactly once, transformed to the configured frame with its covariance kept; others are dropped without stopping the node.",
 ["schedules", "fault_sequences", "inputs"], "for every pose and transform timing",
 "No test exists.", ["map_organizer/src/pose_transform.cpp"], [("callback", "map_organizer/src/pose_transform.cpp: cbPose")], ["pose_out"])

prop("P26", "patrol visits every waypoint once, in order",
 "patrol sends each waypoint of the latest path as a goal exactly once and in order, each only after the previous one ended (succeeded or aborted); a new path cancels the current goal (and no other) and restarts from its first waypoint; goals are sent as configured (frame, pose, tolerances). It survives an action server which comes late, is slow or restarts: a goal lost with its server is sent again, and no waypoint is left out. A goal preempted by somebody else suspends the patrol until the next path.",
 ["schedules", "histories", "fault_sequences"], "for every path sequence, goal outcome and message delay",
 "One rostest with a fixed path.", ["planner_cspace/src/patrol.cpp"], [("patrol loop", "planner_cspace/src/patrol.cpp: spin")], ["move_base goals", "tolerant_move goals"])

prop("P27", "The full navigation stack reaches goals without ever colliding",
 "With costmap_3d, planner_3d, trajectory_tracker, safety_limiter and a robot obeying cmd_vel connected over a lossy, delaying network, the robot's footprint never overlaps an occupied cell of the map, and once faults stop every reachable goal is reached and reported within bounded time.",
 ["schedules", "fault_sequences", "inputs"], "for every map, goal and fault sequence within the declared latencies",
 "Rostests run two fixed maps without faults, and cannot run offline.",
 [P3, TT, SL, "costmap_cspace/src/costmap_3d.cpp"], [("whole stack", "all nodes")], ["robot pose", "move_base result"])

prop("P28", "obj_to_pointcloud samples exactly the mesh surface",
 "For every triangle mesh and random sequence, every published point lies on the scaled and shifted surface up to the voxel size, every surface patch larger than the sampling density implies is represented, and unreadable input yields no cloud but a clean shutdown.",
 ["inputs", "fault_sequences"], "for every mesh, seed and file fault",
 "No test exists.", ["obj_to_pointcloud/src/obj_to_pointcloud.cpp"], [("sampling", "obj_to_pointcloud/src/obj_to_pointcloud.cpp: convertObj")], ["mapcloud"])

prop("P29", "Topic names follow the compatibility level for every node",
 "At every compatibility level exactly the documented (old or new) topic or service name is used, and an unsupported level stops the node instead of running with mixed names.",
 ["configurations"], "for every level value", "test_compat covers the helper only for two levels and is not runnable here.",
 ["neonavigation_common/include/neonavigation_common/compatibility.h"], [("compat helpers", "neonavigation_common/include/neonavigation_common/compatibility.h")], ["resolved names"])

prop("P30", "Grid containers and vectors obey their algebra",
 "Block-structured grids store and return every cell independently at every size, and cyclic vectors obey vector-space and modular laws for every dimension mix.",
 ["inputs"], "for every size, coordinate and value", "Unit tests sample small sizes.",
 ["planner_cspace/include/planner_cspace/blockmem_gridmap.h", "planner_cspace/include/planner_cspace/cyclic_vec.h"],
 [("addressing", "planner_cspace/include/planner_cspace/blockmem_gridmap.h"), ("cyclic arithmetic", "planner_cspace/include/planner_cspace/cyclic_vec.h")], ["values"])

prop("P31", "dummy_robot moves exactly as commanded",
 "Every 10 ms dummy_robot publishes one odometry and the equal odom to base_link transform, stamped with the current time: the pose is the previous one advanced by 10 ms of the latest velocity command along its heading, the twist is that command. An initial pose whose transform to odom is available, or comes within a second, becomes the pose (in the odom frame, at its stamp) and stops the robot; any other one changes nothing. After a restart it begins at the configured initial pose.",
 ["schedules", "fault_sequences", "inputs"], "for every sequence of commands and initial poses, frame, stamp and timing of transforms",
 "dummy_robot only appears as a fixture of rostests which cannot run here.",
 ["planner_cspace/src/dummy_robot.cpp"], [("motion", "planner_cspace/src/dummy_robot.cpp: spin"), ("initial pose", "planner_cspace/src/dummy_robot.cpp: cbInit")], ["odom", "tf"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

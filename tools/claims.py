#!/usr/bin/env python3
"""What each check runs, and the source of MANIFEST.json (run to regenerate)."""
import json, os
COMMON_ASSUMPTIONS = [
    "ROS, tf2, PCL and the other absent libraries are replaced by simros, which follows their documented behaviour",
    "threads of one node are serialised at the points where the simulator switches (callbacks, sleeps, publishes, I/O); data races inside one process are only explored where DESIGN.md says so",
    "seeded search: behaviour outside the explored executions is not covered",
]
TECH = "deterministic simulation with fault injection (seeded search over schedules, inputs and faults)"
# property -> harness: [(name, quick runs, quick seconds at most, thorough seconds)]
CLAIMS = {
    "P01": dict(harness=[("safety", 16000, 120, 1500)], nontrivial="a stop reason (no, old, empty or untransformable cloud, watchdog) was forced or the recovery phase was reached",
                note="Every output and status of the real node is compared with a reference of its stop conditions in the order it processes its inputs; recovery is required within a bound after faults stop."),
    "P02": dict(harness=[("safety", 12000, 150, 1800)], nontrivial="an obstacle limited the velocity or the closed loop came near one",
                note="Each evaluation is compared with an independent geometric bound for the true obstacle layout; in closed loop a simulated robot obeying the output must not touch an observed obstacle. Tolerances: prediction step, downsampling grid, transform interpolation."),
    "P03": dict(harness=[("safety", 16000, 120, 1500)], nontrivial="a limitation, maximum, hold or disable window was exercised",
                note="Each output is compared with the input in effect: one common factor, maxima, disable window and hold."),
    "P04": dict(harness=[("joystick", 20000, 120, 900)], nontrivial="the interrupt button was held, or an unusable parameter was given",
                note="Every output and status of the real node is compared with a reference state machine fed in the order the node processes its inputs."),
    "P05": dict(harness=[("joystick", 16000, 120, 900)], nontrivial="both inputs were active or the priority input timed out",
                note="Output of the real node is compared with a reference mux for several message types."),
    "P06": dict(harness=[("tracker", 12000, 150, 1500)], nontrivial="the tracker followed a path",
                note="Every command of the real node is checked against limits taken from the previous command, the parameters in effect and the inputs in the order the node processes them; crashes of the node count."),
    "P07": dict(harness=[("tracker", 10000, 150, 1500)], nontrivial="GOAL was reported or the path was followed",
                note="A simulated robot obeys the commands; arrival is required within a bound after faults stop, and each GOAL is compared with the pose the node was told."),
    "P08": dict(harness=[("tracker", 20000, 120, 900)], nontrivial="a file was saved or loaded",
                note="Saver and server run on real files through a seam which fails, shortens and tears operations; answers, files and paths published are compared with a reference."),
    "P09": dict(harness=[("tracker", 12000, 120, 900)], nontrivial="a path was published",
                note="Every path published is compared with an independent lookup in the transforms the node received."),
    "P10": dict(harness=[("planner", 6000, 200, 1500)], nontrivial="a non-empty path was planned and compared",
                note="Every published path of the real planner is compared with a reference map built from the costmaps and updates it processed (collision of poses and sweeps, connection, kinematics, start and end). Swept cells within a rounding distance of a cell border are not judged."),
    "P11": dict(harness=[("planner", 6000, 200, 1500)], nontrivial="an action goal was active or SUCCEEDED was reported",
                note="Each result is compared with the true robot pose and the goal, cancel and reject history in the order the node processes it; in the closing phase without faults a reachable goal must be reached within a bound. Unreachable goals with unlimited retries stay active by design."),
    "P12": dict(harness=[("planner", 6000, 200, 1500)], nontrivial="a costmap timed out, the goal was unreachable or the robot in collision",
                note="Status and path of each planning cycle are compared with a reference of the watchdog and an independent search on the map in effect."),
    "P13": dict(harness=[("astar", 20000, 200, 1500)], nontrivial="several worker threads found a path",
                note="The real search runs on OpenMP workers switched between memory accesses; every result, progress path and abort is compared with a sequential shortest-path reference, and unsynchronised accesses of two workers are reported. With several parallel tasks the path may exceed the optimum by a bounded number of moves."),
    "P14": dict(harness=[("astar", 8000, 200, 1500)], nontrivial="an incremental update was compared",
                note="After each update or rebuild every cell of the real distance map is compared with an independent shortest-path computation of its cost model (exact within the search range, never lower outside of it); worker threads are switched between memory accesses."),
    "P15": dict(harness=[("planner", 5000, 200, 1500)], nontrivial="the remembered map held an obstacle",
                note="Every remembered map published is compared with bounds given by a Bayes filter fed by the updates processed; clearing on the service and on a localization jump included. Where transforms are interpolated over a jump only bounds are required."),
    "P16": dict(harness=[("planner", 5000, 200, 1500)], nontrivial="make_plan was called",
                note="Each answer of the service is compared with an independent reachability search on the map in effect; the world keeps navigating meanwhile and the plan published must not be disturbed."),
    "P17": dict(harness=[("costmap", 16000, 120, 1500)], nontrivial="an overlay update was published and compared",
                note="Every published costmap and update of the real node is compared cell by cell with a reference composition of the inputs it processed, using a brute-force footprint expansion. Coarser overlay maps are out of scope."),
    "P18": dict(harness=[("costmap", 24000, 120, 1500)], nontrivial="an occupied cell was published (scan, cloud) or a window of the large map compared",
                note="Every published local map is compared with the set of points of the retained scans placed by the true motion; tolerance one float rounding at cell edges, 1.5 cells at occlusion and ring edges."),
    "P19": dict(harness=[("arm", 8000, 150, 1200)], nontrivial="a path to a request was found",
                note="Every trajectory and status of the real node is compared with independent collision geometry of the two links, exact reachability on the grid and the linkage the joints had been told; simulated joints follow the output. Collisions within 1.5 grid cells of the discretisation are not judged."),
    "P20": dict(harness=[("odom", 16000, 120, 1200)], nontrivial="compensated odometry was published",
                note="Every odometry published is compared with a step-by-step reference fed with the pairs in the order the node processes them (message_filters::ApproximateTime is a re-implementation); each pair whose transform is available must be published, each transform must equal its odometry."),
    "P21": dict(harness=[("odom", 20000, 120, 1200)], nontrivial="a projection was published",
                note="Every transform published is compared with the projection computed from the transforms the node received; publication is required while they are available. During an outage the last available projection may be repeated."),
    "P22": dict(harness=[("maporg", 16000, 120, 900)], nontrivial="a floor was saved or an array loaded",
                note="Saver and loader run on real files through a seam which fails, shortens and tears operations; what the loader publishes is compared with what the saver processed, and with hand-written files of every option. YAML and image parsing are simros re-implementations."),
    "P23": dict(harness=[("maporg", 40000, 120, 900)], nontrivial="a map was published",
                note="After each turn of the loop the last published map and the transform are compared with a reference fed in the order the node processes its inputs. Empty map arrays are not judged."),
    "P24": dict(harness=[("maporg", 30000, 150, 1200)], nontrivial="a floor was extracted and compared",
                note="Every array published is compared cell by cell with an independent implementation of the floor extraction; areas exactly at a threshold are not judged. Layers are truncated toward height zero as upstream does."),
    "P25": dict(harness=[("maporg", 40000, 120, 900)], nontrivial="a pose was published",
                note="Every pose published is compared with an own computation from the transforms the node received; a pose whose transform is there, or comes within the wait, must be published exactly once."),
    "P26": dict(harness=[("patrol", 16000, 120, 900)], nontrivial="a goal was sent",
                note="Every goal is compared with a reference which follows the paths and results in the order the node receives them; after the faults all waypoints have to be visited within a bound. Results are delayed, never lost (TCP)."),
    "P27": dict(harness=[("nav", 1500, 240, 1500)], nontrivial="the closing goal was given and its outcome judged",
                note="Five real nodes with the parameters of neonavigation_launch drive a simulated robot; collisions, limits and the outcome of a closing goal are judged against the true world. Goal tolerances of at least two cells; a robot held by the safety limiter is left to P01-P03."),
    "P28": dict(harness=[("mesh", 12000, 120, 900)], nontrivial="a cloud was compared with its mesh or unreadable input was refused",
                note="Every point of the cloud of the real node is compared with the triangles and points of the files, every sufficiently sampled patch must be represented, and the number of points must agree with the density within 8 standard deviations. Loaders of PCL are replaced by parsers with the same results; reads and opens fail or are short."),
    "P29": dict(harness=[("names", 30000, 120, 900)], nontrivial="a started node was compared with the table of names of its level, or had to stop",
                note="The table of documented names of all 19 nodes is fixed in the harness; namespaces, node names, deprecated topic parameters, restarts at other levels and parameter changes at run time are drawn."),
    "P31": dict(harness=[("odom", 16000, 120, 900)], nontrivial="an initial pose was given",
                note="Each odometry and transform is compared with the pose integrated from the commands and initial poses in the order the node processes them, transforms looked up independently."),
}
NOT_BUILT = "no check has been built for it in this tree yet"
NA = {"P30": "Block-structured grids and cyclic vectors are pure, single-threaded functions of their arguments: no scheduling, time, I/O, randomness or failure for a simulator to control, so deterministic simulation would only be ordinary input sampling under another name. Their use under concurrent searches is exercised inside P13 and P14."}

def manifest():
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
    m = {"version": 1, "setup_cmd": "python3 tools/build.py " + " ".join(sorted({h for c in CLAIMS.values() for h, *_ in c["harness"]})),
         "checks": [], "not_applicable": []}
    for i in ids:
        if i in CLAIMS:
            c = CLAIMS[i]
            m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "python3 tools/check.py %s --thorough" % i,
                                "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", TECH), "level": "exploration",
                                "level_note": c["note"] + " Trusts simros' replacement of ROS and libraries; coverage is what the seeds explored."})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, NOT_BUILT)})
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")

if __name__ == "__main__":
    manifest()

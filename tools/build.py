#!/usr/bin/env python3
"""Generates build/build.ninja (simros + node blobs + harness binaries, all from /repo's working tree) and runs ninja.

usage: build.py [harness ...]   (default: all)
"""
import os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIMROS_REPO", "/repo")
B = os.environ.get("SIMROS_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "simros")

INC = ["neonavigation_common", "costmap_cspace", "map_organizer", "planner_cspace", "safety_limiter", "track_odometry",
       "trajectory_tracker", "joystick_interrupt", "obj_to_pointcloud"]
CFG = ["safety_limiter/cfg/SafetyLimiter.cfg", "planner_cspace/cfg/Planner3D.cfg", "trajectory_tracker/cfg/TrajectoryTracker.cfg"]

# node blob -> sources (relative to the repository), extra flags
P = "planner_cspace/src/"
NODES = {
    "safety_limiter": (["safety_limiter/src/safety_limiter.cpp"], ""),
    "joystick_interrupt": (["joystick_interrupt/src/joystick_interrupt.cpp"], ""),
    "joystick_mux": (["joystick_interrupt/src/joystick_mux.cpp"], ""),
    "trajectory_tracker": (["trajectory_tracker/src/trajectory_tracker.cpp"], ""),
    "trajectory_recorder": (["trajectory_tracker/src/trajectory_recorder.cpp"], ""),
    "trajectory_saver": (["trajectory_tracker/src/trajectory_saver.cpp"], ""),
    "trajectory_server": (["trajectory_tracker/src/trajectory_server.cpp"], ""),
    "costmap_3d": (["costmap_cspace/src/costmap_3d.cpp", "costmap_cspace/src/costmap_3d_layers.cpp"], ""),
    "laserscan_to_map": (["costmap_cspace/src/laserscan_to_map.cpp"], ""),
    "pointcloud2_to_map": (["costmap_cspace/src/pointcloud2_to_map.cpp"], ""),
    "largemap_to_map": (["costmap_cspace/src/largemap_to_map.cpp"], ""),
    "planner_3d": ([P + f for f in ("planner_3d.cpp", "costmap_bbf.cpp", "grid_astar_model_3dof.cpp", "motion_cache.cpp",
                                    "motion_primitive_builder.cpp", "rotation_cache.cpp", "distance_map.cpp",
                                    "start_pose_predictor.cpp")], "-fopenmp"),
    "astar_sut": (["verif:astar_sut.cpp"] + [P + f for f in ("distance_map.cpp", "grid_astar_model_3dof.cpp", "motion_cache.cpp",
                   "motion_primitive_builder.cpp", "rotation_cache.cpp")], "-fopenmp -fsanitize=thread"),
    "planner_2dof": ([P + "planner_2dof_serial_joints.cpp", P + "grid_astar_model_2dof_joints.cpp"], "-fopenmp"),
    "dummy_robot": ([P + "dummy_robot.cpp"], ""),
    "patrol": ([P + "patrol.cpp"], ""),
    "track_odometry": (["track_odometry/src/track_odometry.cpp"], ""),
    "tf_projection": (["track_odometry/src/tf_projection_node.cpp", "track_odometry/src/tf_projection.cpp"], ""),
    "pointcloud_to_maps": (["map_organizer/src/pointcloud_to_maps.cpp"], ""),
    "tie_maps": (["map_organizer/src/tie_maps.cpp"], "-DHAVE_NEW_YAMLCPP"),
    "save_maps": (["map_organizer/src/save_maps.cpp"], ""),
    "select_map": (["map_organizer/src/select_map.cpp"], ""),
    "pose_transform": (["map_organizer/src/pose_transform.cpp"], ""),
    "obj_to_pointcloud": (["obj_to_pointcloud/src/obj_to_pointcloud.cpp"], ""),
}
# nodes with variables of static storage which a restarted process must find as they were
GLOBALS = {"select_map"}
# harness -> (harness sources, node blobs)
HARNESS = {
    "safety": (["safety.cpp"], ["safety_limiter"]),
}
exec(open(os.path.join(VERIF, "tools", "harness_table.py")).read())

def esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")

def generate():
    os.makedirs(B, exist_ok=True)
    L = ["builddir = %s" % B, "ninja_required_version = 1.5"]
    inc = " ".join(["-I%s/gen" % B, "-I%s/include" % SIM] + ["-I%s/%s/include" % (REPO, p) for p in INC] + ["-I/usr/include/eigen3"])
    common = "-O1 -g0 -w -fno-gnu-unique -pthread -DSIMROS=1 " + inc
    L += ["cxx_core = g++ -std=c++20 " + common,
          "cxx_node = g++ -std=c++17 " + common,
          "rule core", "  command = $cxx_core $extra -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc", "  description = CXX $out",
          "rule node", "  command = $cxx_node $extra -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc", "  description = CXX $out",
          "rule blob", "  command = ld -r --force-group-allocation $in -o $out.tmp && objcopy $sect --keep-global-symbol=$keep $out.tmp $out && rm -f $out.tmp",
          "  description = BLOB $out",
          "rule link", "  command = g++ -no-pie -o $out $in $libs", "  description = LINK $out",
          "rule msgs", "  command = python3 %s/gen_msgs.py $in %s/gen && touch $out" % (SIM, B), "  description = MSGS",
          "rule cfg", "  command = python3 %s/gen_cfg.py $in %s/gen && touch $out" % (SIM, B), "  description = CFG $in",
          ""]
    stamps = ["%s/msgs.stamp" % B]
    L.append("build %s/msgs.stamp: msgs %s/msgs/msgs.spec | %s/gen_msgs.py" % (B, SIM, SIM))
    for c in CFG:
        s = "%s/%s.stamp" % (B, os.path.basename(c))
        stamps.append(s)
        L.append("build %s: cfg %s/%s | %s/gen_cfg.py" % (s, REPO, c, SIM))
    order = " || " + " ".join(stamps)
    core = []
    for f in sorted(os.listdir(SIM + "/src")):
        if f.endswith(".cpp"):
            o = "%s/core/%s.o" % (B, f[:-4])
            core.append(o)
            L.append("build %s: core %s/src/%s%s" % (o, SIM, f, order))
            if f == "io.cpp":
                pass
    for n, (srcs, extra) in NODES.items():
        objs = []
        for s in srcs:
            o = "%s/node/%s/%s.o" % (B, n, os.path.basename(s.replace(":", "/"))[:-4])
            objs.append(o)
            full = "%s/harness/%s" % (VERIF, s[6:]) if s.startswith("verif:") else REPO + "/" + s
            L.append("build %s: node %s%s" % (o, full, order))
            L.append("  extra = -I%s/harness -Dmain=%s_main %s" % (VERIF, n, extra))
        L.append("build %s/node/%s.o: blob %s" % (B, n, " ".join(objs)))
        m = n + "_main"
        L.append("  keep = _Z%d%siPPc" % (len(m), m))
        if n in GLOBALS:
            L.append("  sect = --rename-section .data=nd_data_%s --rename-section .bss=nd_bss_%s" % (n, n))
    for h, ent in HARNESS.items():
        srcs, nodes = ent[0], ent[1]
        extra = ent[2] if len(ent) > 2 else ""
        objs = []
        for s in srcs:
            full = s if s.startswith("/") else (REPO + s[5:] if s.startswith("repo:") else "%s/harness/%s" % (VERIF, s))
            if s.startswith("repo:"):
                full = REPO + "/" + s[5:]
            o = "%s/h/%s/%s.o" % (B, h, os.path.basename(s)[:-4])
            objs.append(o)
            L.append("build %s: core %s%s" % (o, full, order))
            L.append("  extra = -I%s/harness %s" % (VERIF, extra))
        objs += ["%s/node/%s.o" % (B, n) for n in nodes]
        L.append("build %s/bin/%s: link %s %s" % (B, h, " ".join(objs), " ".join(core)))
        L.append("  libs = $libs_base")
        L.append("build %s: phony %s/bin/%s" % (h, B, h))
    L.insert(2, "libs_base = -lboost_context -lboost_thread -lboost_chrono -lboost_system -pthread " + LINK_EXTRA)
    text = "\n".join(L) + "\n"
    p = B + "/build.ninja"
    if not (os.path.exists(p) and open(p).read() == text):
        open(p, "w").write(text)

def build(targets, quiet=True):
    generate()
    for d in ("core", "node", "h", "bin", "gen"):
        os.makedirs(B + "/" + d, exist_ok=True)
    cmd = ["ninja", "-C", B] + targets
    r = subprocess.run(cmd, stdout=subprocess.PIPE if quiet else None, stderr=subprocess.STDOUT if quiet else None, text=True)
    if r.returncode != 0 and quiet:
        sys.stderr.write(r.stdout[-6000:])
    return r.returncode

if __name__ == "__main__":
    sys.exit(build(sys.argv[1:] or list(HARNESS), quiet=False))

LINK_EXTRA = "-Wl,--wrap=fopen -Wl,--wrap=_ZNSt13random_device9_M_getvalEv -ldl"
HARNESS = {
    "safety": (["safety.cpp"], ["safety_limiter"]),
    "joystick": (["joystick.cpp"], ["joystick_interrupt", "joystick_mux"]),
}
HARNESS["costmap"] = (["costmap.cpp"], ["costmap_3d", "laserscan_to_map", "pointcloud2_to_map", "largemap_to_map"])
HARNESS["tracker"] = (["tracker.cpp"], ["trajectory_tracker", "trajectory_recorder", "trajectory_saver", "trajectory_server"])
HARNESS["planner"] = (["planner.cpp"], ["planner_3d"])
HARNESS["astar"] = (["astar.cpp"], ["astar_sut"])
HARNESS["odom"] = (["odom.cpp"], ["track_odometry", "tf_projection", "dummy_robot"])
HARNESS["maporg"] = (["maporg.cpp"], ["save_maps", "tie_maps", "select_map", "pointcloud_to_maps", "pose_transform"])
HARNESS["patrol"] = (["patrol.cpp"], ["patrol"])
HARNESS["names"] = (["names.cpp"], ["costmap_3d", "laserscan_to_map", "pointcloud2_to_map", "largemap_to_map", "joystick_interrupt", "joystick_mux", "pose_transform", "select_map", "pointcloud_to_maps", "patrol", "dummy_robot", "planner_3d",
                    "planner_2dof", "safety_limiter", "track_odometry", "trajectory_server", "trajectory_tracker", "trajectory_saver", "trajectory_recorder"])
HARNESS["arm"] = (["arm.cpp"], ["planner_2dof"])
HARNESS["mesh"] = (["mesh.cpp"], ["obj_to_pointcloud"])
HARNESS["nav"] = (["nav.cpp"], ["costmap_3d", "planner_3d", "trajectory_tracker", "safety_limiter", "pointcloud2_to_map"])

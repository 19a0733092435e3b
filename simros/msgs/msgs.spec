# ROS interface definitions used by neonavigation (public ROS message definitions, restated)
=== msg std_msgs/Header
uint32 seq
time stamp
string frame_id
=== msg std_msgs/Bool
bool data
=== msg std_msgs/Empty
=== msg std_msgs/Int32
int32 data
=== msg std_msgs/UInt32
uint32 data
=== msg std_msgs/Float32
float32 data
=== msg std_msgs/Float64
float64 data
=== msg std_msgs/String
string data
=== msg std_msgs/ColorRGBA
float32 r
float32 g
float32 b
float32 a
=== msg std_msgs/MultiArrayDimension
string label
uint32 size
uint32 stride
=== msg std_msgs/MultiArrayLayout
std_msgs/MultiArrayDimension[] dim
uint32 data_offset
=== msg std_msgs/Float32MultiArray
std_msgs/MultiArrayLayout layout
float32[] data
=== srv std_srvs/Empty
---
=== srv std_srvs/Trigger
---
bool success
string message
=== srv std_srvs/SetBool
bool data
---
bool success
string message
=== msg geometry_msgs/Vector3
float64 x
float64 y
float64 z
=== msg geometry_msgs/Vector3Stamped
std_msgs/Header header
geometry_msgs/Vector3 vector
=== msg geometry_msgs/Point
float64 x
float64 y
float64 z
=== msg geometry_msgs/PointStamped
std_msgs/Header header
geometry_msgs/Point point
=== msg geometry_msgs/Point32
float32 x
float32 y
float32 z
=== msg geometry_msgs/Quaternion
float64 x
float64 y
float64 z
float64 w
=== msg geometry_msgs/QuaternionStamped
std_msgs/Header header
geometry_msgs/Quaternion quaternion
=== msg geometry_msgs/Pose
geometry_msgs/Point position
geometry_msgs/Quaternion orientation
=== msg geometry_msgs/Pose2D
float64 x
float64 y
float64 theta
=== msg geometry_msgs/PoseStamped
std_msgs/Header header
geometry_msgs/Pose pose
=== msg geometry_msgs/PoseArray
std_msgs/Header header
geometry_msgs/Pose[] poses
=== msg geometry_msgs/PoseWithCovariance
geometry_msgs/Pose pose
float64[36] covariance
=== msg geometry_msgs/PoseWithCovarianceStamped
std_msgs/Header header
geometry_msgs/PoseWithCovariance pose
=== msg geometry_msgs/Twist
geometry_msgs/Vector3 linear
geometry_msgs/Vector3 angular
=== msg geometry_msgs/TwistStamped
std_msgs/Header header
geometry_msgs/Twist twist
=== msg geometry_msgs/TwistWithCovariance
geometry_msgs/Twist twist
float64[36] covariance
=== msg geometry_msgs/Transform
geometry_msgs/Vector3 translation
geometry_msgs/Quaternion rotation
=== msg geometry_msgs/TransformStamped
std_msgs/Header header
string child_frame_id
geometry_msgs/Transform transform
=== msg geometry_msgs/Polygon
geometry_msgs/Point32[] points
=== msg geometry_msgs/PolygonStamped
std_msgs/Header header
geometry_msgs/Polygon polygon
=== msg tf2_msgs/TFMessage
geometry_msgs/TransformStamped[] transforms
=== msg nav_msgs/Path
std_msgs/Header header
geometry_msgs/PoseStamped[] poses
=== msg nav_msgs/Odometry
std_msgs/Header header
string child_frame_id
geometry_msgs/PoseWithCovariance pose
geometry_msgs/TwistWithCovariance twist
=== msg nav_msgs/MapMetaData
time map_load_time
float32 resolution
uint32 width
uint32 height
geometry_msgs/Pose origin
=== msg nav_msgs/OccupancyGrid
std_msgs/Header header
nav_msgs/MapMetaData info
int8[] data
=== srv nav_msgs/GetPlan
geometry_msgs/PoseStamped start
geometry_msgs/PoseStamped goal
float32 tolerance
---
nav_msgs/Path plan
=== srv nav_msgs/GetMap
---
nav_msgs/OccupancyGrid map
=== msg sensor_msgs/ChannelFloat32
string name
float32[] values
=== msg sensor_msgs/PointCloud
std_msgs/Header header
geometry_msgs/Point32[] points
sensor_msgs/ChannelFloat32[] channels
=== msg sensor_msgs/PointField
const uint8 INT8=1
const uint8 UINT8=2
const uint8 INT16=3
const uint8 UINT16=4
const uint8 INT32=5
const uint8 UINT32=6
const uint8 FLOAT32=7
const uint8 FLOAT64=8
string name
uint32 offset
uint8 datatype
uint32 count
=== msg sensor_msgs/PointCloud2
std_msgs/Header header
uint32 height
uint32 width
sensor_msgs/PointField[] fields
bool is_bigendian
uint32 point_step
uint32 row_step
uint8[] data
bool is_dense
=== msg sensor_msgs/Joy
std_msgs/Header header
float32[] axes
int32[] buttons
=== msg sensor_msgs/JointState
std_msgs/Header header
string[] name
float64[] position
float64[] velocity
float64[] effort
=== msg sensor_msgs/LaserScan
std_msgs/Header header
float32 angle_min
float32 angle_max
float32 angle_increment
float32 time_increment
float32 scan_time
float32 range_min
float32 range_max
float32[] ranges
float32[] intensities
=== msg sensor_msgs/Imu
std_msgs/Header header
geometry_msgs/Quaternion orientation
float64[9] orientation_covariance
geometry_msgs/Vector3 angular_velocity
float64[9] angular_velocity_covariance
geometry_msgs/Vector3 linear_acceleration
float64[9] linear_acceleration_covariance
=== msg trajectory_msgs/JointTrajectoryPoint
float64[] positions
float64[] velocities
float64[] accelerations
float64[] effort
duration time_from_start
=== msg trajectory_msgs/JointTrajectory
std_msgs/Header header
string[] joint_names
trajectory_msgs/JointTrajectoryPoint[] points
=== msg diagnostic_msgs/KeyValue
string key
string value
=== msg diagnostic_msgs/DiagnosticStatus
const int8 OK=0
const int8 WARN=1
const int8 ERROR=2
const int8 STALE=3
int8 level
string name
string message
string hardware_id
diagnostic_msgs/KeyValue[] values
=== msg diagnostic_msgs/DiagnosticArray
std_msgs/Header header
diagnostic_msgs/DiagnosticStatus[] status
=== msg visualization_msgs/Marker
const uint8 ARROW=0
const uint8 CUBE=1
const uint8 SPHERE=2
const uint8 CYLINDER=3
const uint8 LINE_STRIP=4
const uint8 LINE_LIST=5
const uint8 TEXT_VIEW_FACING=9
const uint8 ADD=0
const uint8 MODIFY=0
const uint8 DELETE=2
std_msgs/Header header
string ns
int32 id
int32 type
int32 action
geometry_msgs/Pose pose
geometry_msgs/Vector3 scale
std_msgs/ColorRGBA color
duration lifetime
bool frame_locked
geometry_msgs/Point[] points
std_msgs/ColorRGBA[] colors
string text
string mesh_resource
bool mesh_use_embedded_materials
=== msg visualization_msgs/MenuEntry
const uint8 FEEDBACK=0
uint32 id
uint32 parent_id
string title
string command
uint8 command_type
=== msg visualization_msgs/InteractiveMarkerControl
const uint8 INHERIT=0
const uint8 FIXED=1
const uint8 VIEW_FACING=2
const uint8 NONE=0
const uint8 MENU=1
const uint8 BUTTON=2
const uint8 MOVE_AXIS=3
const uint8 MOVE_PLANE=4
const uint8 ROTATE_AXIS=5
const uint8 MOVE_ROTATE=6
const uint8 MOVE_3D=7
const uint8 ROTATE_3D=8
const uint8 MOVE_ROTATE_3D=9
string name
geometry_msgs/Quaternion orientation
uint8 orientation_mode
uint8 interaction_mode
bool always_visible
visualization_msgs/Marker[] markers
bool independent_marker_orientation
string description
=== msg visualization_msgs/InteractiveMarker
std_msgs/Header header
geometry_msgs/Pose pose
string name
string description
float32 scale
visualization_msgs/MenuEntry[] menu_entries
visualization_msgs/InteractiveMarkerControl[] controls
=== msg visualization_msgs/InteractiveMarkerPose
std_msgs/Header header
geometry_msgs/Pose pose
string name
=== msg visualization_msgs/InteractiveMarkerUpdate
const uint8 KEEP_ALIVE=0
const uint8 UPDATE=1
string server_id
uint64 seq_num
uint8 type
visualization_msgs/InteractiveMarker[] markers
visualization_msgs/InteractiveMarkerPose[] poses
string[] erases
=== msg visualization_msgs/InteractiveMarkerFeedback
const uint8 KEEP_ALIVE=0
const uint8 POSE_UPDATE=1
const uint8 MENU_SELECT=2
const uint8 BUTTON_CLICK=3
const uint8 MOUSE_DOWN=4
const uint8 MOUSE_UP=5
std_msgs/Header header
string client_id
string marker_name
string control_name
uint8 event_type
geometry_msgs/Pose pose
uint32 menu_entry_id
geometry_msgs/Point mouse_point
bool mouse_point_valid
=== msg actionlib_msgs/GoalID
time stamp
string id
=== msg actionlib_msgs/GoalStatus
const uint8 PENDING=0
const uint8 ACTIVE=1
const uint8 PREEMPTED=2
const uint8 SUCCEEDED=3
const uint8 ABORTED=4
const uint8 REJECTED=5
const uint8 PREEMPTING=6
const uint8 RECALLING=7
const uint8 RECALLED=8
const uint8 LOST=9
actionlib_msgs/GoalID goal_id
uint8 status
string text
=== msg actionlib_msgs/GoalStatusArray
std_msgs/Header header
actionlib_msgs/GoalStatus[] status_list
=== action move_base_msgs/MoveBase
geometry_msgs/PoseStamped target_pose
---
---
geometry_msgs/PoseStamped base_position
=== action planner_cspace_msgs/MoveWithTolerance
geometry_msgs/PoseStamped target_pose
float32 goal_tolerance_lin
float32 goal_tolerance_ang
float32 goal_tolerance_ang_finish
bool continuous_movement_mode
---
---
geometry_msgs/PoseStamped base_position
=== msg planner_cspace_msgs/PlannerStatus
const int32 DONE=0
const int32 DOING=1
const int32 FINISHING=2
const int32 GOING_WELL=0
const int32 IN_ROCK=1
const int32 PATH_NOT_FOUND=2
const int32 DATA_MISSING=3
const int32 INTERNAL_ERROR=4
std_msgs/Header header
int32 status
int32 error
=== msg costmap_cspace_msgs/MapMetaData3D
time map_load_time
uint32 width
uint32 height
uint32 angle
float32 linear_resolution
float32 angular_resolution
geometry_msgs/Pose origin
=== msg costmap_cspace_msgs/CSpace3D
std_msgs/Header header
costmap_cspace_msgs/MapMetaData3D info
int8[] data
=== msg costmap_cspace_msgs/CSpace3DUpdate
std_msgs/Header header
uint32 x
uint32 y
uint32 yaw
uint32 width
uint32 height
uint32 angle
int8[] data
=== msg trajectory_tracker_msgs/PoseStampedWithVelocity
std_msgs/Header header
geometry_msgs/Pose pose
geometry_msgs/Vector3 linear_velocity
=== msg trajectory_tracker_msgs/PathWithVelocity
std_msgs/Header header
trajectory_tracker_msgs/PoseStampedWithVelocity[] poses
=== msg trajectory_tracker_msgs/TrajectoryTrackerStatus
const int32 NO_PATH=0
const int32 FAR_FROM_PATH=1
const int32 FOLLOWING=2
const int32 GOAL=3
std_msgs/Header header
int32 status
float32 distance_remains
float32 angle_remains
std_msgs/Header path_header
=== msg trajectory_tracker_msgs/TrajectoryServerStatus
std_msgs/Header header
string filename
uint32 id
=== srv trajectory_tracker_msgs/ChangePath
string filename
uint32 id
---
bool success
=== msg safety_limiter_msgs/SafetyLimiterStatus
std_msgs/Header header
float32 limit_ratio
bool is_cloud_available
bool has_watchdog_timed_out
time stuck_started_since
=== msg map_organizer_msgs/OccupancyGridArray
nav_msgs/OccupancyGrid[] maps
=== msg neonavigation_metrics_msgs/Metric
string name
string unit
float64 value
string[] tags
=== msg neonavigation_metrics_msgs/Metrics
std_msgs/Header header
neonavigation_metrics_msgs/Metric[] data

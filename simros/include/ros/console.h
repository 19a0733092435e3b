#ifndef SIMROS_CONSOLE_H
#define SIMROS_CONSOLE_H
#include <cstdio>
#include <sstream>
#include <string>
#include <map>
#include <ros/time.h>
namespace sim
{
void logf(int level, const char* file, int line, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
void logs(int level, const char* file, int line, const std::string& s);
[[noreturn]] void assertFailed(const char* cond, const char* file, int line, const char* msg = nullptr);
bool throttle(double& last, double period);
}
#define SIMROS_LOG(lv, ...) do { ::sim::logf(lv, __FILE__, __LINE__, __VA_ARGS__); } while (0)
#define SIMROS_LOG_ONCE(lv, ...) do { static bool hit = false; if (!hit) { hit = true; ::sim::logf(lv, __FILE__, __LINE__, __VA_ARGS__); } } while (0)
#define SIMROS_LOG_THR(lv, p, ...) do { static double last = 0; if (::sim::throttle(last, p)) ::sim::logf(lv, __FILE__, __LINE__, __VA_ARGS__); } while (0)
#define SIMROS_LOG_STREAM(lv, x) do { std::stringstream ss__; ss__ << x; ::sim::logs(lv, __FILE__, __LINE__, ss__.str()); } while (0)
#define SIMROS_LOG_COND(lv, c, ...) do { if (c) ::sim::logf(lv, __FILE__, __LINE__, __VA_ARGS__); } while (0)
#define ROS_DEBUG(...) SIMROS_LOG(0, __VA_ARGS__)
#define ROS_INFO(...) SIMROS_LOG(1, __VA_ARGS__)
#define ROS_WARN(...) SIMROS_LOG(2, __VA_ARGS__)
#define ROS_ERROR(...) SIMROS_LOG(3, __VA_ARGS__)
#define ROS_FATAL(...) SIMROS_LOG(4, __VA_ARGS__)
#define ROS_DEBUG_ONCE(...) SIMROS_LOG_ONCE(0, __VA_ARGS__)
#define ROS_INFO_ONCE(...) SIMROS_LOG_ONCE(1, __VA_ARGS__)
#define ROS_WARN_ONCE(...) SIMROS_LOG_ONCE(2, __VA_ARGS__)
#define ROS_ERROR_ONCE(...) SIMROS_LOG_ONCE(3, __VA_ARGS__)
#define ROS_FATAL_ONCE(...) SIMROS_LOG_ONCE(4, __VA_ARGS__)
#define ROS_DEBUG_THROTTLE(p, ...) SIMROS_LOG_THR(0, p, __VA_ARGS__)
#define ROS_INFO_THROTTLE(p, ...) SIMROS_LOG_THR(1, p, __VA_ARGS__)
#define ROS_WARN_THROTTLE(p, ...) SIMROS_LOG_THR(2, p, __VA_ARGS__)
#define ROS_ERROR_THROTTLE(p, ...) SIMROS_LOG_THR(3, p, __VA_ARGS__)
#define ROS_FATAL_THROTTLE(p, ...) SIMROS_LOG_THR(4, p, __VA_ARGS__)
#define ROS_DEBUG_STREAM(x) SIMROS_LOG_STREAM(0, x)
#define ROS_INFO_STREAM(x) SIMROS_LOG_STREAM(1, x)
#define ROS_WARN_STREAM(x) SIMROS_LOG_STREAM(2, x)
#define ROS_ERROR_STREAM(x) SIMROS_LOG_STREAM(3, x)
#define ROS_FATAL_STREAM(x) SIMROS_LOG_STREAM(4, x)
#define ROS_DEBUG_STREAM_THROTTLE(p, x) do { static double last = 0; if (::sim::throttle(last, p)) SIMROS_LOG_STREAM(0, x); } while (0)
#define ROS_INFO_STREAM_THROTTLE(p, x) do { static double last = 0; if (::sim::throttle(last, p)) SIMROS_LOG_STREAM(1, x); } while (0)
#define ROS_WARN_STREAM_THROTTLE(p, x) do { static double last = 0; if (::sim::throttle(last, p)) SIMROS_LOG_STREAM(2, x); } while (0)
#define ROS_ERROR_STREAM_THROTTLE(p, x) do { static double last = 0; if (::sim::throttle(last, p)) SIMROS_LOG_STREAM(3, x); } while (0)
#define ROS_DEBUG_COND(c, ...) SIMROS_LOG_COND(0, c, __VA_ARGS__)
#define ROS_INFO_COND(c, ...) SIMROS_LOG_COND(1, c, __VA_ARGS__)
#define ROS_WARN_COND(c, ...) SIMROS_LOG_COND(2, c, __VA_ARGS__)
#define ROS_ERROR_COND(c, ...) SIMROS_LOG_COND(3, c, __VA_ARGS__)
#define ROS_DEBUG_NAMED(n, ...) SIMROS_LOG(0, __VA_ARGS__)
#define ROS_DEBUG_STREAM_NAMED(n, x) SIMROS_LOG_STREAM(0, x)
#define ROS_DEBUG_DELAYED_THROTTLE(p, ...) SIMROS_LOG_THR(0, p, __VA_ARGS__)
#define ROS_DEBUG_STREAM_ONCE(x) do { static bool hit = false; if (!hit) { hit = true; SIMROS_LOG_STREAM(0, x); } } while (0)
#define ROS_DEBUG_STREAM_COND(c, x) do { if (c) SIMROS_LOG_STREAM(0, x); } while (0)
#define ROS_INFO_NAMED(n, ...) SIMROS_LOG(1, __VA_ARGS__)
#define ROS_INFO_STREAM_NAMED(n, x) SIMROS_LOG_STREAM(1, x)
#define ROS_INFO_DELAYED_THROTTLE(p, ...) SIMROS_LOG_THR(1, p, __VA_ARGS__)
#define ROS_INFO_STREAM_ONCE(x) do { static bool hit = false; if (!hit) { hit = true; SIMROS_LOG_STREAM(1, x); } } while (0)
#define ROS_INFO_STREAM_COND(c, x) do { if (c) SIMROS_LOG_STREAM(1, x); } while (0)
#define ROS_WARN_NAMED(n, ...) SIMROS_LOG(2, __VA_ARGS__)
#define ROS_WARN_STREAM_NAMED(n, x) SIMROS_LOG_STREAM(2, x)
#define ROS_WARN_DELAYED_THROTTLE(p, ...) SIMROS_LOG_THR(2, p, __VA_ARGS__)
#define ROS_WARN_STREAM_ONCE(x) do { static bool hit = false; if (!hit) { hit = true; SIMROS_LOG_STREAM(2, x); } } while (0)
#define ROS_WARN_STREAM_COND(c, x) do { if (c) SIMROS_LOG_STREAM(2, x); } while (0)
#define ROS_ERROR_NAMED(n, ...) SIMROS_LOG(3, __VA_ARGS__)
#define ROS_ERROR_STREAM_NAMED(n, x) SIMROS_LOG_STREAM(3, x)
#define ROS_ERROR_DELAYED_THROTTLE(p, ...) SIMROS_LOG_THR(3, p, __VA_ARGS__)
#define ROS_ERROR_STREAM_ONCE(x) do { static bool hit = false; if (!hit) { hit = true; SIMROS_LOG_STREAM(3, x); } } while (0)
#define ROS_ERROR_STREAM_COND(c, x) do { if (c) SIMROS_LOG_STREAM(3, x); } while (0)
#define ROS_FATAL_NAMED(n, ...) SIMROS_LOG(4, __VA_ARGS__)
#define ROS_FATAL_STREAM_NAMED(n, x) SIMROS_LOG_STREAM(4, x)
#define ROS_FATAL_DELAYED_THROTTLE(p, ...) SIMROS_LOG_THR(4, p, __VA_ARGS__)
#define ROS_FATAL_STREAM_ONCE(x) do { static bool hit = false; if (!hit) { hit = true; SIMROS_LOG_STREAM(4, x); } } while (0)
#define ROS_FATAL_STREAM_COND(c, x) do { if (c) SIMROS_LOG_STREAM(4, x); } while (0)
#define ROS_ASSERT(c) do { if (!(c)) ::sim::assertFailed(#c, __FILE__, __LINE__); } while (0)
#define ROS_ASSERT_MSG(c, ...) do { if (!(c)) { ::sim::logf(4, __FILE__, __LINE__, __VA_ARGS__); ::sim::assertFailed(#c, __FILE__, __LINE__); } } while (0)
#define ROS_ASSERT_CMD(c, cmd) do { if (!(c)) { cmd; } } while (0)
#define ROS_BREAK() ::sim::assertFailed("ROS_BREAK", __FILE__, __LINE__)
#define ROSCONSOLE_DEFAULT_NAME "ros"
namespace ros { namespace console {
namespace levels { enum Level { Debug, Info, Warn, Error, Fatal, Count }; }
inline bool set_logger_level(const std::string&, levels::Level) { return true; }
inline void notifyLoggerLevelsChanged() {}
}}
#endif

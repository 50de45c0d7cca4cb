#pragma once
// Stand-in for rosconsole: every macro formats its arguments (so bad arguments are
// seen by the sanitizers) and reports to an optional hook owned by the harness.
#include <cstdarg>
#include <cstdio>
#include <sstream>
#include <string>
namespace ros { namespace console { namespace levels {
enum Level { Debug, Info, Warn, Error, Fatal, Count };
} typedef levels::Level Level;
inline bool set_logger_level(const std::string&, levels::Level) { return true; }
inline void notifyLoggerLevelsChanged() {}
} namespace shim {
typedef void (*LogHook)(int level, const char* text);
inline LogHook& logHook() { static LogHook h = nullptr; return h; }
__attribute__((format(printf, 2, 3)))
inline void logf(int level, const char* fmt, ...)
{ char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (logHook()) logHook()(level, buf); }
inline void logs(int level, const std::string& s) { if (logHook()) logHook()(level, s.c_str()); }
} }
#define ROSCONSOLE_DEFAULT_NAME "ros"
#define ROSCONSOLE_AUTOINIT do {} while (0)

#define ROS_DEBUG(...) do { ::ros::shim::logf(0, __VA_ARGS__); } while (0)
#define ROS_DEBUG_NAMED(name, ...) do { ::ros::shim::logf(0, __VA_ARGS__); } while (0)
#define ROS_DEBUG_COND(cond, ...) do { if (cond) { ::ros::shim::logf(0, __VA_ARGS__); } } while (0)
#define ROS_DEBUG_COND_NAMED(cond, name, ...) do { if (cond) { ::ros::shim::logf(0, __VA_ARGS__); } } while (0)
#define ROS_DEBUG_ONCE(...) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; ::ros::shim::logf(0, __VA_ARGS__); } } while (0)
#define ROS_DEBUG_ONCE_NAMED(name, ...) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; ::ros::shim::logf(0, __VA_ARGS__); } } while (0)
#define ROS_DEBUG_THROTTLE(period, ...) do { ::ros::shim::logf(0, __VA_ARGS__); } while (0)
#define ROS_DEBUG_THROTTLE_NAMED(period, name, ...) do { ::ros::shim::logf(0, __VA_ARGS__); } while (0)
#define ROS_DEBUG_DELAYED_THROTTLE(period, ...) do { ::ros::shim::logf(0, __VA_ARGS__); } while (0)
#define ROS_DEBUG_DELAYED_THROTTLE_NAMED(period, name, ...) do { ::ros::shim::logf(0, __VA_ARGS__); } while (0)
#define ROS_DEBUG_FILTER(filter, ...) do { ::ros::shim::logf(0, __VA_ARGS__); } while (0)
#define ROS_DEBUG_FILTER_NAMED(filter, name, ...) do { ::ros::shim::logf(0, __VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM(args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(0, ros_shim_ss_.str()); } while (0)
#define ROS_DEBUG_STREAM_NAMED(name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(0, ros_shim_ss_.str()); } while (0)
#define ROS_DEBUG_STREAM_COND(cond, args) do { if (cond) { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(0, ros_shim_ss_.str()); } } while (0)
#define ROS_DEBUG_STREAM_COND_NAMED(cond, name, args) do { if (cond) { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(0, ros_shim_ss_.str()); } } while (0)
#define ROS_DEBUG_STREAM_ONCE(args) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(0, ros_shim_ss_.str()); } } while (0)
#define ROS_DEBUG_STREAM_ONCE_NAMED(name, args) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(0, ros_shim_ss_.str()); } } while (0)
#define ROS_DEBUG_STREAM_THROTTLE(period, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(0, ros_shim_ss_.str()); } while (0)
#define ROS_DEBUG_STREAM_THROTTLE_NAMED(period, name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(0, ros_shim_ss_.str()); } while (0)
#define ROS_DEBUG_STREAM_DELAYED_THROTTLE(period, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(0, ros_shim_ss_.str()); } while (0)
#define ROS_DEBUG_STREAM_DELAYED_THROTTLE_NAMED(period, name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(0, ros_shim_ss_.str()); } while (0)
#define ROS_DEBUG_STREAM_FILTER(filter, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(0, ros_shim_ss_.str()); } while (0)
#define ROS_DEBUG_STREAM_FILTER_NAMED(filter, name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(0, ros_shim_ss_.str()); } while (0)
#define ROS_INFO(...) do { ::ros::shim::logf(1, __VA_ARGS__); } while (0)
#define ROS_INFO_NAMED(name, ...) do { ::ros::shim::logf(1, __VA_ARGS__); } while (0)
#define ROS_INFO_COND(cond, ...) do { if (cond) { ::ros::shim::logf(1, __VA_ARGS__); } } while (0)
#define ROS_INFO_COND_NAMED(cond, name, ...) do { if (cond) { ::ros::shim::logf(1, __VA_ARGS__); } } while (0)
#define ROS_INFO_ONCE(...) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; ::ros::shim::logf(1, __VA_ARGS__); } } while (0)
#define ROS_INFO_ONCE_NAMED(name, ...) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; ::ros::shim::logf(1, __VA_ARGS__); } } while (0)
#define ROS_INFO_THROTTLE(period, ...) do { ::ros::shim::logf(1, __VA_ARGS__); } while (0)
#define ROS_INFO_THROTTLE_NAMED(period, name, ...) do { ::ros::shim::logf(1, __VA_ARGS__); } while (0)
#define ROS_INFO_DELAYED_THROTTLE(period, ...) do { ::ros::shim::logf(1, __VA_ARGS__); } while (0)
#define ROS_INFO_DELAYED_THROTTLE_NAMED(period, name, ...) do { ::ros::shim::logf(1, __VA_ARGS__); } while (0)
#define ROS_INFO_FILTER(filter, ...) do { ::ros::shim::logf(1, __VA_ARGS__); } while (0)
#define ROS_INFO_FILTER_NAMED(filter, name, ...) do { ::ros::shim::logf(1, __VA_ARGS__); } while (0)
#define ROS_INFO_STREAM(args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(1, ros_shim_ss_.str()); } while (0)
#define ROS_INFO_STREAM_NAMED(name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(1, ros_shim_ss_.str()); } while (0)
#define ROS_INFO_STREAM_COND(cond, args) do { if (cond) { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(1, ros_shim_ss_.str()); } } while (0)
#define ROS_INFO_STREAM_COND_NAMED(cond, name, args) do { if (cond) { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(1, ros_shim_ss_.str()); } } while (0)
#define ROS_INFO_STREAM_ONCE(args) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(1, ros_shim_ss_.str()); } } while (0)
#define ROS_INFO_STREAM_ONCE_NAMED(name, args) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(1, ros_shim_ss_.str()); } } while (0)
#define ROS_INFO_STREAM_THROTTLE(period, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(1, ros_shim_ss_.str()); } while (0)
#define ROS_INFO_STREAM_THROTTLE_NAMED(period, name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(1, ros_shim_ss_.str()); } while (0)
#define ROS_INFO_STREAM_DELAYED_THROTTLE(period, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(1, ros_shim_ss_.str()); } while (0)
#define ROS_INFO_STREAM_DELAYED_THROTTLE_NAMED(period, name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(1, ros_shim_ss_.str()); } while (0)
#define ROS_INFO_STREAM_FILTER(filter, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(1, ros_shim_ss_.str()); } while (0)
#define ROS_INFO_STREAM_FILTER_NAMED(filter, name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(1, ros_shim_ss_.str()); } while (0)
#define ROS_WARN(...) do { ::ros::shim::logf(2, __VA_ARGS__); } while (0)
#define ROS_WARN_NAMED(name, ...) do { ::ros::shim::logf(2, __VA_ARGS__); } while (0)
#define ROS_WARN_COND(cond, ...) do { if (cond) { ::ros::shim::logf(2, __VA_ARGS__); } } while (0)
#define ROS_WARN_COND_NAMED(cond, name, ...) do { if (cond) { ::ros::shim::logf(2, __VA_ARGS__); } } while (0)
#define ROS_WARN_ONCE(...) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; ::ros::shim::logf(2, __VA_ARGS__); } } while (0)
#define ROS_WARN_ONCE_NAMED(name, ...) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; ::ros::shim::logf(2, __VA_ARGS__); } } while (0)
#define ROS_WARN_THROTTLE(period, ...) do { ::ros::shim::logf(2, __VA_ARGS__); } while (0)
#define ROS_WARN_THROTTLE_NAMED(period, name, ...) do { ::ros::shim::logf(2, __VA_ARGS__); } while (0)
#define ROS_WARN_DELAYED_THROTTLE(period, ...) do { ::ros::shim::logf(2, __VA_ARGS__); } while (0)
#define ROS_WARN_DELAYED_THROTTLE_NAMED(period, name, ...) do { ::ros::shim::logf(2, __VA_ARGS__); } while (0)
#define ROS_WARN_FILTER(filter, ...) do { ::ros::shim::logf(2, __VA_ARGS__); } while (0)
#define ROS_WARN_FILTER_NAMED(filter, name, ...) do { ::ros::shim::logf(2, __VA_ARGS__); } while (0)
#define ROS_WARN_STREAM(args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(2, ros_shim_ss_.str()); } while (0)
#define ROS_WARN_STREAM_NAMED(name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(2, ros_shim_ss_.str()); } while (0)
#define ROS_WARN_STREAM_COND(cond, args) do { if (cond) { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(2, ros_shim_ss_.str()); } } while (0)
#define ROS_WARN_STREAM_COND_NAMED(cond, name, args) do { if (cond) { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(2, ros_shim_ss_.str()); } } while (0)
#define ROS_WARN_STREAM_ONCE(args) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(2, ros_shim_ss_.str()); } } while (0)
#define ROS_WARN_STREAM_ONCE_NAMED(name, args) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(2, ros_shim_ss_.str()); } } while (0)
#define ROS_WARN_STREAM_THROTTLE(period, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(2, ros_shim_ss_.str()); } while (0)
#define ROS_WARN_STREAM_THROTTLE_NAMED(period, name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(2, ros_shim_ss_.str()); } while (0)
#define ROS_WARN_STREAM_DELAYED_THROTTLE(period, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(2, ros_shim_ss_.str()); } while (0)
#define ROS_WARN_STREAM_DELAYED_THROTTLE_NAMED(period, name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(2, ros_shim_ss_.str()); } while (0)
#define ROS_WARN_STREAM_FILTER(filter, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(2, ros_shim_ss_.str()); } while (0)
#define ROS_WARN_STREAM_FILTER_NAMED(filter, name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(2, ros_shim_ss_.str()); } while (0)
#define ROS_ERROR(...) do { ::ros::shim::logf(3, __VA_ARGS__); } while (0)
#define ROS_ERROR_NAMED(name, ...) do { ::ros::shim::logf(3, __VA_ARGS__); } while (0)
#define ROS_ERROR_COND(cond, ...) do { if (cond) { ::ros::shim::logf(3, __VA_ARGS__); } } while (0)
#define ROS_ERROR_COND_NAMED(cond, name, ...) do { if (cond) { ::ros::shim::logf(3, __VA_ARGS__); } } while (0)
#define ROS_ERROR_ONCE(...) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; ::ros::shim::logf(3, __VA_ARGS__); } } while (0)
#define ROS_ERROR_ONCE_NAMED(name, ...) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; ::ros::shim::logf(3, __VA_ARGS__); } } while (0)
#define ROS_ERROR_THROTTLE(period, ...) do { ::ros::shim::logf(3, __VA_ARGS__); } while (0)
#define ROS_ERROR_THROTTLE_NAMED(period, name, ...) do { ::ros::shim::logf(3, __VA_ARGS__); } while (0)
#define ROS_ERROR_DELAYED_THROTTLE(period, ...) do { ::ros::shim::logf(3, __VA_ARGS__); } while (0)
#define ROS_ERROR_DELAYED_THROTTLE_NAMED(period, name, ...) do { ::ros::shim::logf(3, __VA_ARGS__); } while (0)
#define ROS_ERROR_FILTER(filter, ...) do { ::ros::shim::logf(3, __VA_ARGS__); } while (0)
#define ROS_ERROR_FILTER_NAMED(filter, name, ...) do { ::ros::shim::logf(3, __VA_ARGS__); } while (0)
#define ROS_ERROR_STREAM(args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(3, ros_shim_ss_.str()); } while (0)
#define ROS_ERROR_STREAM_NAMED(name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(3, ros_shim_ss_.str()); } while (0)
#define ROS_ERROR_STREAM_COND(cond, args) do { if (cond) { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(3, ros_shim_ss_.str()); } } while (0)
#define ROS_ERROR_STREAM_COND_NAMED(cond, name, args) do { if (cond) { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(3, ros_shim_ss_.str()); } } while (0)
#define ROS_ERROR_STREAM_ONCE(args) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(3, ros_shim_ss_.str()); } } while (0)
#define ROS_ERROR_STREAM_ONCE_NAMED(name, args) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(3, ros_shim_ss_.str()); } } while (0)
#define ROS_ERROR_STREAM_THROTTLE(period, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(3, ros_shim_ss_.str()); } while (0)
#define ROS_ERROR_STREAM_THROTTLE_NAMED(period, name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(3, ros_shim_ss_.str()); } while (0)
#define ROS_ERROR_STREAM_DELAYED_THROTTLE(period, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(3, ros_shim_ss_.str()); } while (0)
#define ROS_ERROR_STREAM_DELAYED_THROTTLE_NAMED(period, name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(3, ros_shim_ss_.str()); } while (0)
#define ROS_ERROR_STREAM_FILTER(filter, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(3, ros_shim_ss_.str()); } while (0)
#define ROS_ERROR_STREAM_FILTER_NAMED(filter, name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(3, ros_shim_ss_.str()); } while (0)
#define ROS_FATAL(...) do { ::ros::shim::logf(4, __VA_ARGS__); } while (0)
#define ROS_FATAL_NAMED(name, ...) do { ::ros::shim::logf(4, __VA_ARGS__); } while (0)
#define ROS_FATAL_COND(cond, ...) do { if (cond) { ::ros::shim::logf(4, __VA_ARGS__); } } while (0)
#define ROS_FATAL_COND_NAMED(cond, name, ...) do { if (cond) { ::ros::shim::logf(4, __VA_ARGS__); } } while (0)
#define ROS_FATAL_ONCE(...) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; ::ros::shim::logf(4, __VA_ARGS__); } } while (0)
#define ROS_FATAL_ONCE_NAMED(name, ...) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; ::ros::shim::logf(4, __VA_ARGS__); } } while (0)
#define ROS_FATAL_THROTTLE(period, ...) do { ::ros::shim::logf(4, __VA_ARGS__); } while (0)
#define ROS_FATAL_THROTTLE_NAMED(period, name, ...) do { ::ros::shim::logf(4, __VA_ARGS__); } while (0)
#define ROS_FATAL_DELAYED_THROTTLE(period, ...) do { ::ros::shim::logf(4, __VA_ARGS__); } while (0)
#define ROS_FATAL_DELAYED_THROTTLE_NAMED(period, name, ...) do { ::ros::shim::logf(4, __VA_ARGS__); } while (0)
#define ROS_FATAL_FILTER(filter, ...) do { ::ros::shim::logf(4, __VA_ARGS__); } while (0)
#define ROS_FATAL_FILTER_NAMED(filter, name, ...) do { ::ros::shim::logf(4, __VA_ARGS__); } while (0)
#define ROS_FATAL_STREAM(args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(4, ros_shim_ss_.str()); } while (0)
#define ROS_FATAL_STREAM_NAMED(name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(4, ros_shim_ss_.str()); } while (0)
#define ROS_FATAL_STREAM_COND(cond, args) do { if (cond) { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(4, ros_shim_ss_.str()); } } while (0)
#define ROS_FATAL_STREAM_COND_NAMED(cond, name, args) do { if (cond) { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(4, ros_shim_ss_.str()); } } while (0)
#define ROS_FATAL_STREAM_ONCE(args) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(4, ros_shim_ss_.str()); } } while (0)
#define ROS_FATAL_STREAM_ONCE_NAMED(name, args) do { static bool ros_shim_once_ = false; if (!ros_shim_once_) { ros_shim_once_ = true; std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(4, ros_shim_ss_.str()); } } while (0)
#define ROS_FATAL_STREAM_THROTTLE(period, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(4, ros_shim_ss_.str()); } while (0)
#define ROS_FATAL_STREAM_THROTTLE_NAMED(period, name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(4, ros_shim_ss_.str()); } while (0)
#define ROS_FATAL_STREAM_DELAYED_THROTTLE(period, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(4, ros_shim_ss_.str()); } while (0)
#define ROS_FATAL_STREAM_DELAYED_THROTTLE_NAMED(period, name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(4, ros_shim_ss_.str()); } while (0)
#define ROS_FATAL_STREAM_FILTER(filter, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(4, ros_shim_ss_.str()); } while (0)
#define ROS_FATAL_STREAM_FILTER_NAMED(filter, name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(4, ros_shim_ss_.str()); } while (0)
#define ROS_LOG(level, name, ...) do { ::ros::shim::logf(1, __VA_ARGS__); } while (0)
#define ROS_LOG_STREAM(level, name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(1, ros_shim_ss_.str()); } while (0)
#include <ros/assert.h>

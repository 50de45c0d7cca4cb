# generates include/ros/console.h (all ROS logging macro variants)
out=["""#pragma once
// Stand-in for rosconsole: every macro formats its arguments (so bad arguments are
// seen by the sanitizers) and reports to an optional hook owned by the harness.
#include <cstdarg>
#include <cstdio>
#include <sstream>
#include <string>
namespace ros { namespace console { namespace levels {
enum Level { Debug, Info, Warn, Error, Fatal, Count };
} typedef levels::Level Level;
inline bool set_logger_level(const std::string&, levels::Level) { return true; }
inline void notifyLoggerLevelsChanged() {}
} namespace shim {
typedef void (*LogHook)(int level, const char* text);
inline LogHook& logHook() { static LogHook h = nullptr; return h; }
__attribute__((format(printf, 2, 3)))
inline void logf(int level, const char* fmt, ...)
{ char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (logHook()) logHook()(level, buf); }
inline void logs(int level, const std::string& s) { if (logHook()) logHook()(level, s.c_str()); }
} }
#define ROSCONSOLE_DEFAULT_NAME "ros"
#define ROSCONSOLE_AUTOINIT do {} while (0)
"""]
lv=dict(DEBUG=0,INFO=1,WARN=2,ERROR=3,FATAL=4)
def m(name,params,cond,stream,l,once=False):
    args = "args" if stream else "..."
    p=", ".join(params+[args])
    if stream: body=f"std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs({l}, ros_shim_ss_.str());"
    else: body=f"::ros::shim::logf({l}, __VA_ARGS__);"
    pre=""
    if cond: body=f"if (cond) {{ {body} }}"
    if once: body=f"static bool ros_shim_once_ = false; if (!ros_shim_once_) {{ ros_shim_once_ = true; {body} }}"
    out.append(f"#define {name}({p}) do {{ {body} }} while (0)")
for L,l in lv.items():
  for st in (False,True):
    S="_STREAM" if st else ""
    for var,ps,c,o in (("",[],0,0),("_COND",["cond"],1,0),("_ONCE",[],0,1),("_THROTTLE",["period"],0,0),("_DELAYED_THROTTLE",["period"],0,0),("_FILTER",["filter"],0,0)):
      for nm in (False,True):
        N="_NAMED" if nm else ""
        # real names: ROS_DEBUG_STREAM_COND_NAMED(cond, name, args)
        pp=ps+(["name"] if nm else [])
        m(f"ROS_{L}{S}{var}{N}",pp,c,st,l,o)
out.append("""#define ROS_LOG(level, name, ...) do { ::ros::shim::logf(1, __VA_ARGS__); } while (0)
#define ROS_LOG_STREAM(level, name, args) do { std::stringstream ros_shim_ss_; ros_shim_ss_ << args; ::ros::shim::logs(1, ros_shim_ss_.str()); } while (0)
#include <ros/assert.h>
""")
open("include/ros/console.h","w").write("\n".join(out))

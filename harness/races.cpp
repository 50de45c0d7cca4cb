// C45: requests and the control loop under ThreadSanitizer. The threads take turns as the case says, but the hand-over is
// invisible to ThreadSanitizer, so that only the repository's own synchronisation counts. This file is compiled without it.
#define SCHED_INTERPOSE
#define SCHED_INVISIBLE
#include "pbt.h"
#include "schedule.h"
#include "races_user.h"
#include <combined_robot_hw/combined_robot_hw.h>
#include <controller_manager/controller_manager.h>
#include <pluginlib/class_loader.hpp>
#include <deque>
#include <memory>
using pbt::Src; using pbt::show; typedef std::vector<std::string> Names; namespace msgs = controller_manager_msgs;
namespace {
const char* const BASE = "controller_interface::ControllerBase";
template <class T, class Q, class R> bool call(const char* n, Q& q, R& r) { std::function<bool(void*, void*)>* f; { sched::Pause p; f = &ros::shim::services().at(std::string("/controller_manager/") + n).fn; } return (*f)(&q, &r); }
void races(Src& s)
{
  auto& par = ros::shim::params(); par.clear(); pluginlib::shim::declared().m.clear(); ros::shim::rosNow() = 100000000000LL; size_t joints = 1 + s.index(3), n = 1 + s.index(4);
  pluginlib::shim::declare<controller_interface::ControllerBase>(BASE, "pkg/Controller", []() -> controller_interface::ControllerBase* { return user::makeController(); });
  Names names; for (size_t i = 0; i < n; ++i) { names.push_back(std::string(1, (char)('a' + i))); par["/" + names[i] + "/type"] = XmlRpc::XmlRpcValue("pkg/Controller"); XmlRpc::XmlRpcValue v; int k = 0; for (size_t j = 0; j < joints; ++j) if (s.chance(1, 3)) { v.setSize(k + 1); v[k++] = "r" + std::to_string(j); } if (k) par["/" + names[i] + "/joints"] = v; }
  user::reset(); bool combined = s.chance(1, 3); std::unique_ptr<hardware_interface::RobotHW> hw; if (!combined) hw.reset(user::makeRobot(0, joints)); else {
    XmlRpc::XmlRpcValue v; v.setSize(2); size_t cut = s.index(joints + 1); for (int i = 0; i < 2; ++i) { std::string c = "u" + std::to_string(i); v[i] = c; par["/robot/" + c + "/type"] = XmlRpc::XmlRpcValue("pkg/" + c); size_t first = i ? cut : 0, k = i ? joints - cut : cut; pluginlib::shim::declare<hardware_interface::RobotHW>("hardware_interface::RobotHW", "pkg/" + c, [first, k]() -> hardware_interface::RobotHW* { return user::makeRobot(first, k); }); }
    par["/robot/robot_hardware"] = v; hw.reset(new combined_robot_hw::CombinedRobotHW); ros::NodeHandle root, nh("/robot"); CHECK(hw->init(root, nh), "the robot cannot be initialised"); }
   std::unique_ptr<controller_manager::ControllerManager> cm(new controller_manager::ControllerManager(hw.get()));
  sched::Sched sc; std::deque<sched::Thread> th; size_t clients = 1 + s.weighted({3, 2}); int left = (int)clients, switches = 0, unloads = 0, looked = 0, gaveUp = 0; bool resets = s.chance(1, 3), slow = s.chance(1, 4);
  auto client = [&](size_t me) {
    size_t ops; bool all; { sched::Pause p; ops = 2 + s.index(12); all = s.chance(2, 3); } if (all && !me) for (auto& x : names) cm->loadController(x);
    for (size_t k = 0; k < ops; ++k) {
      size_t what, idx; bool flag, asap; double to; Names a, b; std::string nm; int strict;
      { sched::Pause p; what = s.weighted({5, 3, 7, 3, 1, 1, 1}); idx = s.index(n); nm = names[idx]; flag = s.boolean(); asap = s.boolean(); to = s.chance(1, 3) ? s.oneof<double>({0.01, 0.05, 0.5}) : 0; strict = (int)s.index(3); for (auto& x : names) { if (s.chance(2, 5)) a.push_back(x); if (s.chance(2, 5)) b.push_back(x); } user::answers.prepare = !s.chance(1, 10); }
      bool ok = false; std::string did;
      switch (what) {
        case 0: if (flag) ok = cm->loadController(nm); else { msgs::LoadController::Request q; msgs::LoadController::Response r; { sched::Pause p; q.name = nm; } call<msgs::LoadController>("load_controller", q, r); ok = r.ok; } break;
        case 1: if (flag) ok = cm->unloadController(nm); else { msgs::UnloadController::Request q; msgs::UnloadController::Response r; { sched::Pause p; q.name = nm; } call<msgs::UnloadController>("unload_controller", q, r); ok = r.ok; } unloads += ok; break;
        case 2: if (flag) ok = cm->switchController(a, b, strict, asap, to); else { msgs::SwitchController::Request q; msgs::SwitchController::Response r; { sched::Pause p; q.start_controllers = a; q.stop_controllers = b; q.strictness = strict; q.start_asap = asap; q.timeout = to; } call<msgs::SwitchController>("switch_controller", q, r); ok = r.ok; }
          switches += ok; gaveUp += !ok && slow; if (ok && !resets && clients == 1) for (auto& x : a) if (auto* c = cm->getControllerByName(x)) { user::look(c); ++looked; } break;
        case 3: { msgs::ListControllers::Request q; msgs::ListControllers::Response r; ok = call<msgs::ListControllers>("list_controllers", q, r); break; }
        case 4: { msgs::ListControllerTypes::Request q; msgs::ListControllerTypes::Response r; ok = call<msgs::ListControllerTypes>("list_controller_types", q, r); break; }
        case 5: { msgs::ReloadControllerLibraries::Request q; msgs::ReloadControllerLibraries::Response r; q.force_kill = flag; call<msgs::ReloadControllerLibraries>("reload_controller_libraries", q, r); ok = r.ok; break; }
        default: ok = cm->getControllerByName(nm) != nullptr; }
      { sched::Pause p; static const char* w[] = {"load", "unload", "switch", "list", "types", "reload", "find"}; NOTE("client " << me << ": " << w[what] << (what == 2 ? " start " + show(a) + " stop " + show(b) + (asap ? " asap" : "") : what < 2 ? " " + nm : "") << " -> " << ok); size_t z = s.index(3); while (z--) sched::virtualSleep(1000000, "harness"); } }
    sched::Pause p; --left; };
  auto loop = [&] {
    double t = 100; int after = 0; for (;;) {
      bool reset; double dt; { sched::Pause p; if (left <= 0 && ++after > 2) break; user::answers.result = (int)s.weighted({5, 2, 1}); reset = resets && s.chance(1, 5); dt = slow && s.chance(1, 5) ? 1.5 : 0.001; t += dt; }
      cm->update(ros::Time(t), ros::Duration(dt), reset); sched::virtualSleep((int64_t)(dt * 1e9), "control loop"); } };
  for (size_t i = 0; i < clients; ++i) { th.emplace_back(); th.back().body = [&, i] { client(i); }; } th.emplace_back(); th.back().rt = true; th.back().body = loop;
  for (auto& t : th) sc.th.push_back(&t); sc.s = &s; sc.rtAtomic = s.boolean(); sc.softDen = 4; sc.limit = 100000; sc.onHang = [] { pbt::die("a request never returns"); }; sched::run(sc);
  cm.reset(); hw.reset(); par.clear(); pluginlib::shim::declared().m.clear();
  if (clients > 1) s.label("two clients"); if (combined) s.label("combined robot"); if (looked) s.label("effects of a switch looked at"); if (unloads) s.label("unloads"); if (gaveUp) s.label("slow loop, failed switches"); if (resets) s.label("resets"); if (!sc.rtAtomic) s.label("the loop is preempted");
  if (user::performed && user::updates && (unloads || clients > 1)) s.nontrivial();
}
}
PROPERTY(C45, races, "a switch performed, controllers updated, and a controller unloaded or two clients", 20000, 300000) { races(s); }

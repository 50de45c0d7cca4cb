// C34, C44: complete robots. Components are built from a transmission description, may be combined, limit the commands of
// their joints, and are run by a controller manager whose controllers compute commands from joint states.
#define SCHED_INTERPOSE
#include "pbt.h"
#include "schedule.h"
#include <algorithm>
#include <combined_robot_hw/combined_robot_hw.h>
#include <controller_interface/multi_interface_controller.h>
#include <controller_manager/controller_manager.h>
#include <controller_manager_msgs/ListControllers.h>
#include <controller_manager_msgs/SwitchController.h>
#include <deque>
#include <joint_limits_interface/joint_limits_interface.h>
#include <joint_limits_interface/joint_limits_rosparam.h>
#include <memory>
#include <pluginlib/class_loader.hpp>
#include <set>
#include <tinyxml.h>
#include <transmission_interface/transmission_interface_loader.h>
// ---- allocations of the thread that is in a realtime section
namespace rtc { thread_local int in = 0, allocs = 0, frees = 0; struct Section { Section() { ++in; } ~Section() { --in; } }; inline bool counts() { return in && !sched::paused; } void* get(size_t n) { if (counts()) ++allocs; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; } void put(void* p) { if (p && counts()) ++frees; free(p); } }
void* operator new(size_t n) { return rtc::get(n); } void* operator new[](size_t n) { return rtc::get(n); }
void operator delete(void* p) noexcept { rtc::put(p); } void operator delete[](void* p) noexcept { rtc::put(p); } void operator delete(void* p, size_t) noexcept { rtc::put(p); } void operator delete[](void* p, size_t) noexcept { rtc::put(p); }
using namespace hardware_interface; using pbt::Src; using pbt::show; typedef std::vector<std::string> Names;
namespace {
const double NaN = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
enum Cmd { POS, VEL, EFF }; const char* cmdName[] = {"Position", "Velocity", "Effort"};
double clampd(double v, double lo, double hi) { return std::isnan(v) ? v : v < lo ? lo : v > hi ? hi : v; }
// ---- the model of a robot: what its description says --------------------------------------------
struct Act { std::string name; double st[3] = {}, cmd[3] = {}; };
struct Lim { bool on = false, acc = false, posLim = false, velLim = false, soft = false; double lo = 0, hi = 0, v = 0, a = 0, e = 0, slo = 0, shi = 0, kp = 0, kv = 0; };
enum Kind { SIMPLE, DIFFERENTIAL, FOUR_BAR }; const char* kindName[] = {"Simple", "Differential", "FourBarLinkage"};
struct Jnt { std::string name; Cmd type; int comp = 0; bool commanded = true; double st[3] = {NaN, NaN, NaN}, cmd = NaN, prev = NaN; Lim lim; };
struct Trn { Kind kind = SIMPLE; bool stateOnly = false; Cmd type = POS; std::string name; double na[2] = {1, 1}, nj[2] = {1, 1}, off[2] = {0, 0}; size_t j0 = 0, a0 = 0; size_t n() const { return kind == SIMPLE ? 1 : 2; } };
struct Comp { std::string name; std::vector<Trn> trn; std::vector<Act> act; std::vector<size_t> jnt; bool resets = false; int doSwitches = 0; };
// the documented relations
void statesOf(const Trn& t, const Comp& c, std::deque<Jnt>& J)
{
  for (int q = 0; q < 3; ++q) { double x = c.act[t.a0].st[q];
    if (t.kind == SIMPLE) { J[t.j0].st[q] = q == EFF ? x * t.na[0] : x / t.na[0] + (q == POS ? t.off[0] : 0); continue; }
    double y = c.act[t.a0 + 1].st[q];
    if (t.kind == FOUR_BAR) { if (q == EFF) { double u = x * t.na[0]; J[t.j0].st[q] = t.nj[0] * u; J[t.j0 + 1].st[q] = t.nj[1] * (y * t.na[1] - u * t.nj[0]); } else { double u = x / (t.nj[0] * t.na[0]); J[t.j0].st[q] = u + (q == POS ? t.off[0] : 0); J[t.j0 + 1].st[q] = (y / t.na[1] - u) / t.nj[1] + (q == POS ? t.off[1] : 0); } continue; }
    for (int k = 0; k < 2; ++k) { double g = k ? -1 : 1; J[t.j0 + k].st[q] = q == EFF ? t.nj[k] * (x * t.na[0] + g * y * t.na[1]) : (x / t.na[0] + g * y / t.na[1]) / (2 * t.nj[k]) + (q == POS ? t.off[k] : 0); } }
}
void commandsOf(const Trn& t, const std::deque<Jnt>& J, double* out)
{
  double x = J[t.j0].cmd - (t.type == POS ? t.off[0] : 0); if (t.kind == SIMPLE) { out[0] = t.type == EFF ? x / t.na[0] : x * t.na[0]; return; }
  double y = J[t.j0 + 1].cmd - (t.type == POS ? t.off[1] : 0);
  if (t.kind == FOUR_BAR) { if (t.type == EFF) { out[0] = x / (t.na[0] * t.nj[0]); out[1] = (x + y / t.nj[1]) / t.na[1]; } else { out[0] = x * t.nj[0] * t.na[0]; out[1] = (x + y * t.nj[1]) * t.na[1]; } return; }
  for (int k = 0; k < 2; ++k) { double g = k ? -1 : 1; out[k] = t.type == EFF ? (x / t.nj[0] + g * y / t.nj[1]) / (2 * t.na[k]) : (x * t.nj[0] + g * y * t.nj[1]) * t.na[k]; }
}
struct Uses { size_t j; double k, kp, kv, ke; long other; };   // command = k + kp*position + kv*velocity + ke*effort + position of another joint
struct Ctl { std::string name; std::vector<Uses> uses; bool loaded = false, running = false, ran = false; int instances = 0; };
struct World {
  Src& s; std::deque<Comp> comps; std::deque<Jnt> J; std::deque<Ctl> ctls; std::unique_ptr<RobotHW> hw; std::unique_ptr<controller_manager::ControllerManager> cm; sched::Sched sc; bool done = false; int cycles = 0, updates = 0, limited = 0, crossing = 0, soft = 0; std::vector<size_t> updatedNow; RobotHW::SwitchState answer = RobotHW::SwitchState::DONE; bool combined = false, asked = false;
  ros::Duration period; World(Src& s_) : s(s_) {} ~World() { cm.reset(); hw.reset(); pluginlib::shim::declared().m.clear(); ros::shim::params().clear(); }
  Ctl& ctl(const std::string& n) { for (auto& c : ctls) if (c.name == n) return c; pbt::die("unknown controller " + n); }
};
World* W = nullptr;
std::string num(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
std::string urdf(const Comp& c, Src& s)
{
  std::string o = "<robot name='" + c.name + "'>"; for (auto& t : c.trn) {
    o += "<transmission name=\"" + t.name + "\"><type>transmission_interface/" + kindName[t.kind] + "Transmission</type>"; std::string hi = t.stateOnly ? "JointState" : std::string(cmdName[t.type]) + "Joint";
    Names parts; for (size_t k = 0; k < t.n(); ++k) { std::string num1 = std::to_string(k + 1);
      parts.push_back("<joint name=\"" + W->J[t.j0 + k].name + "\">" + (t.n() == 2 ? "<role>joint" + num1 + "</role><mechanicalReduction>" + num(t.nj[k]) + "</mechanicalReduction>" : "") + "<offset>" + num(t.off[k]) + "</offset><hardwareInterface>hardware_interface/" + hi + "Interface</hardwareInterface></joint>");
      parts.push_back("<actuator name=\"" + c.act[t.a0 + k].name + "\">" + (t.n() == 2 ? "<role>actuator" + num1 + "</role>" : "") + "<mechanicalReduction>" + num(t.na[k]) + "</mechanicalReduction></actuator>"); }
    s.shuffle(parts); for (auto& p : parts) o += p; o += "</transmission>"; }
  return o + "</robot>";
}
// a component as one writes it against the interfaces
struct Rig : RobotHW {
  Comp& c; ActuatorStateInterface asi; PositionActuatorInterface pai; VelocityActuatorInterface vai; EffortActuatorInterface eai; transmission_interface::RobotTransmissions rt; std::unique_ptr<transmission_interface::TransmissionInterfaceLoader> loader;
  joint_limits_interface::PositionJointSaturationInterface psi; joint_limits_interface::VelocityJointSaturationInterface vsi; joint_limits_interface::EffortJointSaturationInterface esi;
  joint_limits_interface::PositionJointSoftLimitsInterface pli; joint_limits_interface::VelocityJointSoftLimitsInterface vli; joint_limits_interface::EffortJointSoftLimitsInterface eli;
  explicit Rig(Comp& c_) : c(c_) {}
  bool init(ros::NodeHandle& root, ros::NodeHandle& nh) override
  {
    for (auto& a : c.act) { ActuatorStateHandle h(a.name, &a.st[0], &a.st[1], &a.st[2]); asi.registerHandle(h); pai.registerHandle(ActuatorHandle(h, &a.cmd[0])); vai.registerHandle(ActuatorHandle(h, &a.cmd[1])); eai.registerHandle(ActuatorHandle(h, &a.cmd[2])); }
    registerInterface(&asi); registerInterface(&pai); registerInterface(&vai); registerInterface(&eai); loader.reset(new transmission_interface::TransmissionInterfaceLoader(this, &rt));
    std::string text; if (!nh.getParam("description", text) || !loader->load(text)) return false;
    for (size_t k : c.jnt) { auto& j = W->J[k]; if (!j.commanded) continue; joint_limits_interface::JointLimits l; if (!j.lim.on) continue; if (!joint_limits_interface::getJointLimits(j.name, root, l)) pbt::die("no limits for joint " + j.name); joint_limits_interface::SoftJointLimits f; if (getSoftJointLimits(j.name, root, f) != j.lim.soft) pbt::die("soft limits of joint " + j.name);
      if (j.lim.soft) { switch (j.type) { case POS: pli.registerHandle({get<PositionJointInterface>()->getHandle(j.name), l, f}); break; case VEL: vli.registerHandle({get<VelocityJointInterface>()->getHandle(j.name), l, f}); break; default: eli.registerHandle({get<EffortJointInterface>()->getHandle(j.name), l, f}); } continue; }
     
      switch (j.type) { case POS: psi.registerHandle({get<PositionJointInterface>()->getHandle(j.name), l}); break; case VEL: vsi.registerHandle({get<VelocityJointInterface>()->getHandle(j.name), l}); break; default: esi.registerHandle({get<EffortJointInterface>()->getHandle(j.name), l}); } }
    if (auto* i = get<PositionJointInterface>()) i->clearClaims(); if (auto* i = get<VelocityJointInterface>()) i->clearClaims(); if (auto* i = get<EffortJointInterface>()) i->clearClaims(); return true;
  }
  template <class T> T* found() { sched::Pause p; return rt.get<T>(); }
  SwitchState switchResult() const override { return W->answer; } SwitchState switchResult(const ControllerInfo&) const override { W->asked = true; return W->answer; }
  void read(const ros::Time&, const ros::Duration&) override { if (auto* p = found<transmission_interface::ActuatorToJointStateInterface>()) p->propagate(); }
  void write(const ros::Time&, const ros::Duration& d) override
  {
    psi.enforceLimits(d); vsi.enforceLimits(d); esi.enforceLimits(d); pli.enforceLimits(d); vli.enforceLimits(d); eli.enforceLimits(d); using namespace transmission_interface;
    if (auto* p = found<JointToActuatorPositionInterface>()) p->propagate(); if (auto* p = found<JointToActuatorVelocityInterface>()) p->propagate(); if (auto* p = found<JointToActuatorEffortInterface>()) p->propagate();
  }
  void doSwitch(const std::list<ControllerInfo>&, const std::list<ControllerInfo>&) override { ++c.doSwitches; if (c.resets) { psi.reset(); pli.reset(); for (size_t k : c.jnt) if (W->J[k].type == POS) W->J[k].prev = NaN; } }
};
typedef controller_interface::MultiInterfaceController<JointStateInterface, PositionJointInterface, VelocityJointInterface, EffortJointInterface> Base;
struct Controller : Base {
  Ctl* c = nullptr; std::vector<JointHandle> h; std::vector<JointStateHandle> o; Controller() : Base(true) {} ~Controller() override { if (c) --c->instances; }
  bool init(RobotHW* hw, ros::NodeHandle&, ros::NodeHandle& nh) override
  {
    c = &W->ctl(nh.getNamespace().substr(1)); ++c->instances; for (auto& u : c->uses) { auto& j = W->J[u.j];
      switch (j.type) { case POS: h.push_back(hw->get<PositionJointInterface>()->getHandle(j.name)); break; case VEL: h.push_back(hw->get<VelocityJointInterface>()->getHandle(j.name)); break; default: h.push_back(hw->get<EffortJointInterface>()->getHandle(j.name)); }
      o.push_back(u.other < 0 ? JointStateHandle() : hw->get<JointStateInterface>()->getHandle(W->J[(size_t)u.other].name)); }
    return true;
  }
  void starting(const ros::Time&) override { if (!sched::managed() || !W->sc.th[sched::me]->rt) pbt::die("a controller was started outside the control loop"); c->running = true; }
  void stopping(const ros::Time&) override { c->running = false; }
  void update(const ros::Time&, const ros::Duration&) override
  {
    { sched::Pause p; if (!c->running) pbt::die(c->name + " is updated although it does not run"); W->updatedNow.push_back((size_t)(std::find_if(W->ctls.begin(), W->ctls.end(), [&](Ctl& x) { return &x == c; }) - W->ctls.begin())); }
    for (size_t i = 0; i < h.size(); ++i) { auto& u = c->uses[i]; h[i].setCommand(u.k + u.kp * h[i].getPosition() + u.kv * h[i].getVelocity() + u.ke * h[i].getEffort() + (u.other < 0 ? 0 : o[i].getPosition())); }
  }
};
void declarePlugins()
{
  std::string f = std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/transmission_interface/ros_control_plugins.xml"; TiXmlDocument doc(f); if (!doc.LoadFile()) pbt::die("cannot read " + f);
  for (auto* c = doc.RootElement()->FirstChildElement("class"); c; c = c->NextSiblingElement("class")) pluginlib::shim::declareExported(c->Attribute("base_class_type"), c->Attribute("name"), c->Attribute("type"));
}
bool closeTo(double a, double b, double scale) { return pbt::same(a, b) || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b) + scale); }
// one turn of the control loop, judged against the description
void cycle(World& w, uint64_t n)
{
  Src& s = w.s; ros::Time t((uint32_t)(100 + n / 100), (uint32_t)(n % 100) * 10000000); w.period = ros::Duration(0, (int32_t)s.oneof<int>({10000000, 1000000, 100000000, 500000000})); ros::shim::rosNow() = (int64_t)t.toNSec(); double T = w.period.toSec();
  for (auto& c : w.comps) for (auto& a : c.act) { for (auto& x : a.st) x = s.real(-1, 1); for (auto& x : a.cmd) x = 12345; }
  w.updatedNow.clear(); for (auto& c : w.comps) c.doSwitches = 0; for (auto& c : w.ctls) c.ran = c.running;
  w.hw->read(t, w.period); w.cm->update(t, w.period); w.hw->write(t, w.period); ++w.cycles; w.updates += (int)w.updatedNow.size();
  for (auto& c : w.comps) { for (auto& tr : c.trn) statesOf(tr, c, w.J); if (c.doSwitches > 1) pbt::die("a component was told twice to switch"); if (c.doSwitches != w.comps[0].doSwitches) pbt::die("not every component was told to switch"); for (auto& x : w.ctls) if (x.ran != x.running && !c.doSwitches) pbt::die("controllers were switched without telling " + c.name); }
  if (s.verbose) { std::string l = "  cycle: updated"; for (size_t i : w.updatedNow) l += " " + w.ctls[i].name; s.note(l); }
  // commands of the controllers
  std::set<size_t> up(w.updatedNow.begin(), w.updatedNow.end()); if (up.size() != w.updatedNow.size()) pbt::die("a controller was updated twice in a cycle"); std::set<size_t> commanded; for (size_t i = 0; i < w.ctls.size(); ++i) {
    auto& c = w.ctls[i]; bool u1 = up.count(i) > 0; if (c.running == c.ran && c.running != u1) pbt::die(c.name + (c.running ? " runs but was not updated" : " was updated although it does not run")); if (!u1) continue;
    for (auto& u : c.uses) { auto& j = w.J[u.j]; if (!commanded.insert(u.j).second) pbt::die("two running controllers command joint " + j.name); j.cmd = u.k + u.kp * j.st[0] + u.kv * j.st[1] + u.ke * j.st[2] + (u.other < 0 ? 0 : w.J[(size_t)u.other].st[0]); if (u.other >= 0 && w.J[(size_t)u.other].comp != j.comp) ++w.crossing; } }
  // limits
  for (auto& j : w.J) { if (!j.commanded || !j.lim.on) continue; auto& l = j.lim; double asked = j.cmd, want = asked, vmax = l.velLim ? l.v : inf, slo = -vmax, shi = vmax; // velocity bounds near the soft limits
    if (l.soft && l.posLim) { double p = j.type == POS && !std::isnan(j.prev) ? j.prev : j.st[0]; slo = clampd(-l.kp * (p - l.slo), -vmax, vmax); shi = clampd(-l.kp * (p - l.shi), -vmax, vmax); }
    switch (j.type) {
      case POS: { double p = std::isnan(j.prev) ? j.st[0] : j.prev, lo = l.posLim ? l.lo : -inf, hi = l.posLim ? l.hi : inf; if (l.velLim) want = clampd(want, p + slo * T, p + shi * T); j.cmd = j.prev = clampd(want, lo, hi); want = asked; break; }
      case VEL: { double lo = slo, hi = shi; if (l.acc) { double p = std::isnan(j.prev) ? 0 : j.prev; lo = std::max(lo, p - l.a * T); hi = std::min(hi, p + l.a * T); } j.cmd = clampd(want, lo, hi); if (!std::isnan(j.cmd)) j.prev = j.cmd; break; }
      default: { bool low = j.st[1] < -l.v || (l.posLim && j.st[0] < l.lo), high = j.st[1] > l.v || (l.posLim && j.st[0] > l.hi); j.cmd = l.soft ? clampd(want, clampd(-l.kv * (j.st[1] - slo), -l.e, l.e), clampd(-l.kv * (j.st[1] - shi), -l.e, l.e)) : clampd(want, low ? 0 : -l.e, high ? 0 : l.e); w.soft += l.soft && !pbt::same(want, j.cmd) && std::fabs(j.cmd) < l.e; } }
    if (commanded.count((size_t)(&j - &w.J[0])) || true) w.limited += !pbt::same(want, j.cmd); }
  // what the actuators are told
  for (auto& c : w.comps) { std::vector<std::array<double, 3>> e(c.act.size(), {{12345, 12345, 12345}}); std::vector<double> scale(c.act.size(), 0);
    for (auto& tr : c.trn) { if (tr.stateOnly) continue; double out[2]; commandsOf(tr, w.J, out); double m = 0; for (size_t k = 0; k < tr.n(); ++k) { const Jnt& j = w.J[tr.j0 + k]; double x = std::fabs(j.cmd) + std::fabs(tr.off[k]); m += std::max(x, 1.0) * std::max(std::fabs(tr.nj[k]), 1 / std::fabs(tr.nj[k])); } for (size_t k = 0; k < tr.n(); ++k) { e[tr.a0 + k][tr.type] = out[k]; scale[tr.a0 + k] = m * std::max(std::fabs(tr.na[k]), 1 / std::fabs(tr.na[k])); } }
    for (size_t i = 0; i < c.act.size(); ++i) for (int q = 0; q < 3; ++q) if (!closeTo(c.act[i].cmd[q], e[i][q], std::isfinite(scale[i]) ? scale[i] : 0)) pbt::die(c.name + ": actuator " + c.act[i].name + " is told " + cmdName[q] + " " + num(c.act[i].cmd[q]) + ", expected " + num(e[i][q])); }
  // keep the model from drifting: what follows is judged from the commands the robot has (they have been found right)
}
template <class T> bool service(World& w, const std::string& n, typename T::Request& q) { (void)w; typename T::Response r; auto it = ros::shim::services().find("/controller_manager/" + n); if (it == ros::shim::services().end()) pbt::die("service " + n + " is missing"); return it->second.fn(&q, &r) && r.ok; }
// a robot, its controllers and its manager
void assemble(World& w, size_t most = 3, bool longNames = false)
{
  Src& s = w.s; W = &w; pluginlib::shim::declared().m.clear(); ros::shim::params().clear(); declarePlugins(); pbt::drawSpelling(s, false); if (longNames) pbt::spelling() = 4; size_t nc = 1 + s.index(most); bool combined = w.combined = nc > 1 || s.boolean(); int id = 0;
  for (size_t k = 0; k < nc; ++k) {
    w.comps.emplace_back(); Comp& c = w.comps.back(); c.name = pbt::spelt("rig", k); c.resets = s.boolean(); size_t nt = 1 + s.index(3);
    for (size_t i = 0; i < nt; ++i) { Trn t; t.kind = (Kind)s.index(3); t.stateOnly = s.chance(1, 8); t.type = (Cmd)s.index(3); t.name = pbt::spelt("t", (size_t)id); t.j0 = w.J.size(); t.a0 = c.act.size();
      for (size_t m = 0; m < t.n(); ++m) { t.na[m] = s.positive(0.1, 50) * (s.boolean() ? 1 : -1); if (t.n() == 2) t.nj[m] = s.positive(0.2, 5) * (s.boolean() ? 1 : -1); t.off[m] = s.chance(1, 3) ? 0 : s.signedReal(2); Act a; a.name = pbt::spelt("a", (size_t)id); c.act.push_back(a);
        Jnt j; j.name = pbt::spelt("j", (size_t)id++); j.type = t.type; j.comp = (int)k; j.commanded = !t.stateOnly; c.jnt.push_back(w.J.size()); w.J.push_back(j); }
      for (size_t m = 0; m < t.n(); ++m) { Jnt& j = w.J[t.j0 + m]; auto& l = j.lim; l.on = s.chance(2, 3); if (!l.on) continue; double r0 = 1 / std::fabs(t.na[0]), r1 = 1 / std::fabs(t.na[1]), n0 = std::fabs(t.nj[0]), nm = std::fabs(t.nj[m]), reach = (t.kind == SIMPLE ? r0 : t.kind == DIFFERENTIAL ? (r0 + r1) / (2 * nm) : m ? (r1 + r0 / n0) / nm : r0 / n0) * 1.01 + 1e-6;
        l.posLim = s.boolean(); l.lo = t.off[m] - reach - s.positive(0.01, 3); l.hi = t.off[m] + reach + s.positive(0.01, 3); if (j.type == EFF && s.boolean()) { l.lo = t.off[m] - reach * 0.3; l.hi = t.off[m] + reach * 0.3; } l.soft = s.chance(2, 5); l.velLim = j.type != POS || l.soft || s.boolean(); l.v = s.positive(0.05, 10); l.acc = !(l.soft && j.type == VEL) && s.boolean(); l.a = s.positive(0.1, 50); l.e = s.positive(0.1, 20);
        std::string p = "/joint_limits/" + j.name; auto& par = ros::shim::params(); auto set = [&](const char* k2, XmlRpc::XmlRpcValue v) { par[p + "/" + k2] = v; }; set("has_position_limits", XmlRpc::XmlRpcValue(l.posLim)); if (l.posLim) { set("min_position", XmlRpc::XmlRpcValue(l.lo)); set("max_position", XmlRpc::XmlRpcValue(l.hi)); }
        set("has_velocity_limits", XmlRpc::XmlRpcValue(l.velLim)); if (l.velLim) set("max_velocity", XmlRpc::XmlRpcValue(l.v)); set("has_acceleration_limits", XmlRpc::XmlRpcValue(l.acc)); if (l.acc) set("max_acceleration", XmlRpc::XmlRpcValue(l.a)); if (l.soft) { l.kp = s.positive(0.1, 20); l.kv = s.positive(0.1, 20); l.slo = t.off[m] - reach * s.real(0.1, 1.5); l.shi = t.off[m] + reach * s.real(0.1, 1.5); set("k_position", XmlRpc::XmlRpcValue(l.kp)); set("k_velocity", XmlRpc::XmlRpcValue(l.kv)); set("soft_lower_limit", XmlRpc::XmlRpcValue(l.slo)); set("soft_upper_limit", XmlRpc::XmlRpcValue(l.shi)); } if (l.soft || s.boolean()) set("has_soft_limits", XmlRpc::XmlRpcValue(l.soft));
        set("has_effort_limits", XmlRpc::XmlRpcValue(j.type == EFF)); if (j.type == EFF) set("max_effort", XmlRpc::XmlRpcValue(l.e)); }
      c.trn.push_back(t); } }
  ros::NodeHandle root, robot("/robot"); auto& par = ros::shim::params(); Names list;
  for (auto& c : w.comps) { list.push_back(c.name); std::string ns = combined ? "/robot/" + c.name : "/robot"; std::string text = urdf(c, s); par[ns + "/description"] = XmlRpc::XmlRpcValue(text); par[ns + "/type"] = XmlRpc::XmlRpcValue("pkg/" + c.name); Comp* p = &c; pluginlib::shim::declare<RobotHW>("hardware_interface::RobotHW", "pkg/" + c.name, [p]() -> RobotHW* { return new Rig(*p); }); if (s.verbose) s.note(c.name + ": " + text); }
  if (combined) { XmlRpc::XmlRpcValue v; v.setSize((int)list.size()); for (size_t i = 0; i < list.size(); ++i) v[(int)i] = list[i]; par["/robot/robot_hardware"] = v; w.hw.reset(new combined_robot_hw::CombinedRobotHW); } else w.hw.reset(new Rig(w.comps[0]));
  CHECK(w.hw->init(root, robot), "the robot cannot be initialised");
  std::vector<size_t> cj; for (size_t i = 0; i < w.J.size(); ++i) if (w.J[i].commanded) cj.push_back(i); size_t n = 1 + s.index(5);
  pluginlib::shim::declare<controller_interface::ControllerBase>("controller_interface::ControllerBase", "pkg/Controller", []() -> controller_interface::ControllerBase* { return new Controller; });
  for (size_t i = 0; i < n; ++i) { Ctl c; c.name = pbt::spelt("c", i); for (size_t j : cj) if (s.chance(1, 3)) { Uses u; u.j = j; u.k = s.signedReal(5); u.kp = s.chance(1, 3) ? 0 : s.signedReal(2); u.kv = s.chance(1, 2) ? 0 : s.signedReal(2); u.ke = s.chance(1, 2) ? 0 : s.signedReal(0.5); u.other = s.chance(1, 3) ? (long)s.index(w.J.size()) : -1; c.uses.push_back(u); } w.ctls.push_back(c); par["/" + c.name + "/type"] = XmlRpc::XmlRpcValue("pkg/Controller");
    if (s.verbose) { std::string l = c.name + ":"; for (auto& u : c.uses) l += " " + w.J[u.j].name; s.note(l); } }
  w.cm.reset(new controller_manager::ControllerManager(w.hw.get()));
}
void run(Src& s)
{
  World w(s); assemble(w); size_t ops = 2 + s.index(10); int switches = 0, refused = 0;
  auto clientBody = [&] {
    for (size_t k = 0; k < ops; ++k) {
      if (s.chance(1, 4)) { auto& c = w.ctls[s.index(w.ctls.size())]; if (c.loaded && !c.running && s.boolean()) { bool ok = w.cm->unloadController(c.name); NOTE("unload " << c.name << " " << ok); if (!ok || c.instances) pbt::die("a stopped controller cannot be unloaded"); c.loaded = false; } continue; }
      Names a, b; std::set<std::string> after; std::map<std::string, int> use; bool conflict = false;
      for (auto& c : w.ctls) { if (!c.loaded && s.boolean()) { bool ok = w.cm->loadController(c.name); NOTE("load " << c.name << " " << ok); if (!ok) pbt::die("a controller cannot be loaded"); c.loaded = true; } bool r = c.running; if (c.loaded && s.boolean()) { (r ? b : a).push_back(c.name); r = !r; } if (r) { after.insert(c.name); for (auto& u : c.uses) conflict |= ++use[w.J[u.j].name] > 1; } }
      s.shuffle(a); bool asap = s.boolean(), ok; if (s.boolean()) { controller_manager_msgs::SwitchController::Request q; q.start_controllers = a; q.stop_controllers = b; q.strictness = q.STRICT; q.start_asap = asap; q.timeout = 0; ok = service<controller_manager_msgs::SwitchController>(w, "switch_controller", q); } else ok = w.cm->switchController(a, b, controller_manager_msgs::SwitchController::Request::STRICT, asap);
      NOTE("switch start " << show(a) << " stop " << show(b) << ": " << ok << (conflict ? " (conflict)" : "")); if (ok == conflict) pbt::die(std::string("the switch was ") + (ok ? "accepted although two controllers claim a joint" : "refused although no joint is claimed twice")); ok ? ++switches : ++refused;
      if (ok) for (auto& c : w.ctls) if (c.running != (after.count(c.name) > 0)) pbt::die(c.name + (c.running ? " runs" : " does not run") + " after the switch");
      for (size_t z = s.index(3); z-- > 0;) sched::virtualSleep(1000000, "harness"); }
    w.done = true; };
  sched::Thread cl, rt; auto guard = [](std::function<void()> f) { return [f] { try { f(); } catch (const pbt::Failure& x) { pbt::die(x.msg); } }; }; cl.body = guard(clientBody); rt.rt = true;
  rt.body = guard([&] { uint64_t n = 0; while (!w.done) { cycle(w, n++); sched::virtualSleep(1000000, "control loop"); } for (int k = 0; k < 2; ++k) cycle(w, n++); });
  w.sc.s = &s; w.sc.rtAtomic = s.boolean(); w.sc.softDen = 8; w.sc.limit = 60000; w.sc.onHang = [] { pbt::die("a request never returns"); }; w.sc.th.push_back(&cl); w.sc.th.push_back(&rt); sched::run(w.sc);
  for (auto& c : w.ctls) if (c.instances != (int)c.loaded) pbt::die("controller objects left behind");
  s.label(w.combined ? "combined robot" : "single robot"); if (refused) s.label("switch refused"); if (w.limited) s.label("commands limited"); if (w.soft) s.label("soft limits active"); if (!w.sc.rtAtomic) s.label("the loop is preempted"); if (w.crossing) s.label("controller over two components"); if (w.updates && switches >= 2 && w.limited) s.nontrivial(); W = nullptr;
}
// C44: whatever is requested meanwhile, the control loop neither allocates nor frees memory
void quiet(Src& s)
{
  World w(s); { size_t most = s.boolean() ? 1 : 3; assemble(w, most, s.boolean()); } /* copies of short names are invisible */ size_t ops = 2 + s.index(12); int waits = 0, resets = 0, exempt = 0, performed = 0; typedef RobotHW::SwitchState SS; typedef controller_manager_msgs::SwitchController::Request Req;
  auto clientBody = [&] {
    for (size_t k = 0; k < ops; ++k) {
      auto pick = [&] { return s.chance(1, 12) ? std::string("nobody") : w.ctls[s.index(w.ctls.size())].name; };
      switch (s.weighted({4, 2, 6, 1, 1})) {
        case 0: { auto n = pick(); bool ok = w.cm->loadController(n); NOTE("load " << n << " " << ok); break; }
        case 1: { auto n = pick(); bool ok = w.cm->unloadController(n); NOTE("unload " << n << " " << ok); break; }
        case 2: { Names a, b; for (auto& c : w.ctls) { if (s.chance(2, 5)) (c.running ? b : a).push_back(c.name); if (s.chance(1, 10)) (c.running ? a : b).push_back(c.name); } int strict = s.boolean() ? Req::STRICT : Req::BEST_EFFORT; bool asap = s.boolean(); double to = s.chance(1, 3) ? s.oneof<double>({0.01, 0.05, 1}) : 0; bool ok = w.cm->switchController(a, b, strict, asap, to); NOTE("switch start " << show(a) << " stop " << show(b) << (strict == Req::STRICT ? " strict" : " best effort") << (asap ? " asap" : "") << " timeout " << to << ": " << ok); break; }
        case 3: { controller_manager_msgs::ListControllers::Request q; controller_manager_msgs::ListControllers::Response r; ros::shim::services().at("/controller_manager/list_controllers").fn(&q, &r); break; }
        default: w.cm->getControllerByName(pick());
      }
      for (size_t z = s.index(3); z-- > 0;) sched::virtualSleep(1000000, "harness"); }
    w.done = true; };
  auto turn = [&](uint64_t n) {
    ros::Time t((uint32_t)(100 + n / 100), (uint32_t)(n % 100) * 10000000); w.period = ros::Duration(0, (int32_t)s.oneof<int>({10000000, 1000000, 100000000})); ros::shim::rosNow() = (int64_t)t.toNSec(); bool reset = s.chance(1, 6); SS as[3] = {SS::DONE, SS::ONGOING, SS::ERROR}; w.answer = as[s.weighted({4, 3, 1})];
    for (auto& c : w.comps) { for (auto& a : c.act) for (auto& x : a.st) x = s.real(-1, 1); c.doSwitches = 0; } w.updatedNow.clear(); w.asked = false; static const char* part[] = {"reading", "updating", "writing"}; int cost[3][2];
    for (int k = 0; k < 3; ++k) { rtc::allocs = rtc::frees = 0; { rtc::Section x; if (k == 0) w.hw->read(t, w.period); else if (k == 1) w.cm->update(t, w.period, reset); else w.hw->write(t, w.period); } cost[k][0] = rtc::allocs; cost[k][1] = rtc::frees; }
    ++w.cycles; w.updates += (int)w.updatedNow.size(); bool sw = w.comps[0].doSwitches > 0; performed += sw; waits += w.answer != SS::DONE && (sw || w.asked); resets += reset && w.updatedNow.size(); bool ex = w.combined && (sw || w.asked); exempt += ex;
    NOTE("  cycle" << (reset ? " with reset" : "") << (sw ? ", switching" : "") << ", updated " << w.updatedNow.size());
    for (int k = 0; k < 3; ++k) if (!(ex && k == 1) && (cost[k][0] || cost[k][1])) pbt::die(std::string("while ") + part[k] + ", the control loop allocated " + std::to_string(cost[k][0]) + " times and freed " + std::to_string(cost[k][1]) + " times"); };
  sched::Thread cl, rt; auto guard = [](std::function<void()> f) { return [f] { try { f(); } catch (const pbt::Failure& x) { pbt::die(x.msg); } }; }; cl.body = guard(clientBody); rt.rt = true;
  rt.body = guard([&] { uint64_t n = 0; while (!w.done) { turn(n++); sched::virtualSleep(1000000, "control loop"); } for (int k = 0; k < 2; ++k) turn(n++); });
  w.sc.s = &s; w.sc.rtAtomic = s.boolean(); w.sc.softDen = 8; w.sc.limit = 60000; w.sc.onHang = [] { pbt::die("a request never returns"); }; w.sc.th.push_back(&cl); w.sc.th.push_back(&rt); sched::run(w.sc);
  s.label(w.combined ? "combined robot" : "single robot"); if (waits) s.label("switch awaited or failed"); if (resets) s.label("reset of running controllers"); if (performed && w.updates && !exempt) s.label("switch judged too"); if (performed && w.updates >= 2) s.nontrivial(); W = nullptr;
}
}
PROPERTY(C34, robot, "two or more switches, controllers updated and a command limited", 15000, 150000) { run(s); }
PROPERTY(C44, quiet, "a switch performed and controllers updated", 15000, 150000) { quiet(s); }

// C18, C19: robots combined from recording components, one of which may itself be combined.
#include "pbt.h"
#include <algorithm>
#include <combined_robot_hw/combined_robot_hw.h>
#include <deque>
#include <hardware_interface/imu_sensor_interface.h>
#include <hardware_interface/joint_command_interface.h>
#include <memory>
#include <pluginlib/class_loader.hpp>
#include <set>
using namespace hardware_interface; using pbt::Src; using pbt::show;
typedef std::vector<std::string> Names; typedef RobotHW::SwitchState SwitchState;
namespace {
const char* const RB = "hardware_interface::RobotHW";
const char* const IF[] = {"hardware_interface::JointStateInterface", "hardware_interface::PositionJointInterface", "hardware_interface::VelocityJointInterface", "hardware_interface::EffortJointInterface"};
enum Fault { OK, CTOR_RUNTIME, CTOR_LOGIC, CTOR_INT, CTOR_NULL, INIT_FALSE, INIT_RUNTIME, INIT_LOGIC, INIT_INT, NO_TYPE, TYPE_NOT_STRING, UNKNOWN_TYPE, NFAULT };
const char* faultName[] = {"", "constructor throws runtime_error", "constructor throws logic_error", "constructor throws int", "no instance", "init returns false", "init throws runtime_error", "init throws logic_error", "init throws int", "no type", "type is a number", "unknown type"};
struct Ev { std::string comp, what; int64_t t = 0, p = 0; std::vector<std::string> start, stop; };
struct Comp { std::string ns; int fault = OK; std::map<std::string, std::set<std::string>> res; std::vector<Comp> sub; bool combined = false; bool prepare = true; SwitchState answer = SwitchState::DONE; std::map<std::string, SwitchState> answers; int built = 0, alive = 0, inited = 0; };
struct World { std::vector<Ev> ev; std::map<std::string, Comp*> byNs, byType; std::vector<Comp*> leaves; };
World* W = nullptr;
std::string infoStr(const ControllerInfo& c) { std::string o = c.name + "|" + c.type; for (auto& r : c.claimed_resources) { o += "|" + r.hardware_interface + ":"; for (auto& n : r.resources) o += n + ","; } return o; }
Names infos(const std::list<ControllerInfo>& l) { Names o; for (auto& c : l) o.push_back(infoStr(c)); return o; }
struct Robot : RobotHW {
  Comp* c; std::string key; JointStateInterface jsi; PositionJointInterface pji; VelocityJointInterface vji; EffortJointInterface eji; std::deque<std::array<double, 4>> cells;
  explicit Robot(Comp* c_) : c(c_) { ++c->built; if (c->fault == CTOR_RUNTIME) throw std::runtime_error("x"); if (c->fault == CTOR_LOGIC) throw std::logic_error("x"); if (c->fault == CTOR_INT) throw 3; ++c->alive; }
  ~Robot() override { --c->alive; }
  bool init(ros::NodeHandle& root, ros::NodeHandle& nh) override
  {
    ++c->inited; Ev e; e.comp = c->ns; e.what = "init " + root.getNamespace() + " " + nh.getNamespace(); W->ev.push_back(e);
    for (auto& i : c->res) for (auto& n : i.second) { cells.push_back({}); auto& d = cells.back(); JointStateHandle h(n, &d[0], &d[1], &d[2]); if (i.first == IF[0]) jsi.registerHandle(h); if (i.first == IF[1]) pji.registerHandle(JointHandle(h, &d[3])); if (i.first == IF[2]) vji.registerHandle(JointHandle(h, &d[3])); if (i.first == IF[3]) eji.registerHandle(JointHandle(h, &d[3])); }
    if (c->res.count(IF[0])) registerInterface(&jsi); if (c->res.count(IF[1])) registerInterface(&pji); if (c->res.count(IF[2])) registerInterface(&vji); if (c->res.count(IF[3])) registerInterface(&eji);
    if (c->fault == INIT_RUNTIME) throw std::runtime_error("x"); if (c->fault == INIT_LOGIC) throw std::logic_error("x"); if (c->fault == INIT_INT) throw 3; return c->fault == INIT_FALSE ? false : RobotHW::init(root, nh);
  }
  void rec(const char* w, int64_t t, int64_t p) { Ev e; e.comp = c->ns; e.what = w; e.t = t; e.p = p; W->ev.push_back(e); }
  void read(const ros::Time& t, const ros::Duration& p) override { rec("read", (int64_t)t.toNSec(), p.toNSec()); }
  void write(const ros::Time& t, const ros::Duration& p) override { rec("write", (int64_t)t.toNSec(), p.toNSec()); }
  bool prepareSwitch(const std::list<ControllerInfo>& a, const std::list<ControllerInfo>& b) override { Ev e; e.comp = c->ns; e.what = "prepare"; e.start = infos(a); e.stop = infos(b); W->ev.push_back(e); return c->prepare && RobotHW::prepareSwitch(a, b); }
  void doSwitch(const std::list<ControllerInfo>& a, const std::list<ControllerInfo>& b) override { Ev e; e.comp = c->ns; e.what = "switch"; e.start = infos(a); e.stop = infos(b); W->ev.push_back(e); }
  SwitchState switchResult() const override { return c->answer == SwitchState::DONE ? RobotHW::switchResult() : c->answer; }
  SwitchState switchResult(const ControllerInfo& i) const override { Ev e; e.comp = c->ns; e.what = "result"; e.start = {infoStr(i)}; W->ev.push_back(e); auto it = c->answers.find(i.name); SwitchState r = it == c->answers.end() ? c->answer : it->second; return r == SwitchState::DONE ? RobotHW::switchResult(i) : r; } // the base class supplies the defaults
};
struct Setup {
  Src& s; World w; std::vector<Comp> comps; Names pool; std::unique_ptr<combined_robot_hw::CombinedRobotHW> robot; int nType = 0; std::string rootNs = "/"; bool expect = true, listOk = true; std::vector<Comp*> order; // components in the order of their initialisation, up to the first failure
  Setup(Src& s_) : s(s_) { W = &w; pbt::drawSpelling(s); ros::shim::params().clear(); pluginlib::shim::declared().m.clear(); for (int i = 0; i < 6; ++i) pool.push_back(pbt::spelt("r", i)); if (s.boolean()) rootNs = "/cell"; }
  ~Setup() { robot.reset(); pluginlib::shim::declared().m.clear(); ros::shim::params().clear(); W = nullptr; }
  void setList(const std::string& ns, const Names& n) { XmlRpc::XmlRpcValue v; v.setSize((int)n.size()); for (size_t i = 0; i < n.size(); ++i) v[(int)i] = n[i]; ros::shim::params()[ns + "/robot_hardware"] = v; }
  std::vector<Comp> gen(size_t n, bool faults, bool nest, bool sharedRes)
  {
    std::vector<Comp> v; for (size_t k = 0; k < n; ++k) { Comp c; if (nest && s.chance(1, 5)) { c.combined = true; c.sub = gen(s.index(3), faults, false, sharedRes); }
      for (int i = 0; i < 4; ++i) if (s.boolean()) { auto& r = c.res[IF[i]]; for (auto& x : pool) if (s.chance(1, 3)) r.insert(sharedRes ? x : x + (char)('a' + nType)); } ++nType; if (faults && s.chance(1, 6)) c.fault = 1 + (int)s.index(NFAULT - 1); v.push_back(c); }
    return v;
  }
  void publish(std::vector<Comp>& v, const std::string& ns)
  {
    Names names; for (size_t k = 0; k < v.size(); ++k) { auto& c = v[k]; std::string n = pbt::spelt("hw", k); names.push_back(n); c.ns = ns + "/" + n; std::string type = pbt::spelt("t", w.byType.size()); w.byType[type] = &c; w.byNs[c.ns] = &c; Comp* p = &c;
      if (c.combined) { type = "combined_robot_hw/CombinedRobotHW"; w.byType.erase(pbt::spelt("t", w.byType.size() - 1)); pluginlib::shim::declare<RobotHW>(RB, type, [] { return new combined_robot_hw::CombinedRobotHW; }); if (c.fault < NO_TYPE) c.fault = OK; publish(c.sub, c.ns); }
      else pluginlib::shim::declare<RobotHW>(RB, type, [p]() -> RobotHW* { if (p->fault == CTOR_NULL) return nullptr; return new Robot(p); });
      if (c.fault == TYPE_NOT_STRING) ros::shim::params()[c.ns + "/type"] = XmlRpc::XmlRpcValue(3); else if (c.fault == UNKNOWN_TYPE) ros::shim::params()[c.ns + "/type"] = XmlRpc::XmlRpcValue("no/Type"); else if (c.fault != NO_TYPE) ros::shim::params()[c.ns + "/type"] = XmlRpc::XmlRpcValue(type);
      else ros::shim::params()[c.ns + "/other"] = XmlRpc::XmlRpcValue(1); }
    s.shuffle(names); setList(ns, names); std::vector<Comp> sorted; (void)sorted;
    for (auto& n : names) { auto* c = w.byNs[ns + "/" + n]; if (!c->combined) w.leaves.push_back(c); }
  }
  // leaves in initialisation order, with the combined ones expanded; false when one fails
  bool walk(const std::string& ns, std::vector<Comp*>& out)
  {
    auto it = ros::shim::params().find(ns + "/robot_hardware"); const XmlRpc::XmlRpcValue& v = it->second;
    for (int i = 0; i < v.size(); ++i) { std::string n = (const std::string&)v[i]; Comp* c = w.byNs.at(ns + "/" + n); if (c->combined) { if (c->fault != OK) return false; if (!walk(c->ns, out)) return false; } else { if (c->fault == OK || (c->fault >= INIT_FALSE && c->fault <= INIT_INT)) out.push_back(c); if (c->fault != OK) return false; } }
    return true;
  }
  bool init()
  {
    robot.reset(new combined_robot_hw::CombinedRobotHW); ros::NodeHandle root(rootNs), nh("/robot"); 
    try { return robot->init(root, nh); } catch (const std::exception& e) { FAIL("init let an exception escape: " << e.what()); } catch (...) { FAIL("init let an exception escape"); }
  }
  void describe(const std::vector<Comp>& v) { for (auto& c : v) { std::string l = c.ns + (c.combined ? " combined" : "") + (c.fault ? std::string(" FAULT ") + faultName[c.fault] : ""); for (auto& r : c.res) l += " " + r.first + show(r.second); s.note(l); describe(c.sub); } }
};
}

PROPERTY(C18, init, "a component fails, or three or more are combined", 6000, 80000)
{
  Setup w(s); w.comps = w.gen(s.index(6), s.boolean(), true, s.boolean()); w.publish(w.comps, "/robot"); if (s.verbose) w.describe(w.comps);
  int bad = (int)s.weighted({12, 1, 1, 1, 1}); auto& p = ros::shim::params(); if (bad == 1) p.erase("/robot/robot_hardware"); if (bad == 2) p["/robot/robot_hardware"] = XmlRpc::XmlRpcValue("hw0"); if (bad == 3) { XmlRpc::XmlRpcValue v; v.setSize(1); v[0] = 3; p["/robot/robot_hardware"] = v; }
  std::vector<Comp*> order; bool expect = bad == 0 ? w.walk("/robot", order) : false; if (bad == 4) { XmlRpc::XmlRpcValue v = p["/robot/robot_hardware"]; int n = v.size(); XmlRpc::XmlRpcValue u; u.setSize(n + 1); for (int i = 0; i < n; ++i) { XmlRpc::XmlRpcValue x = v[i]; u[i] = x; } u[n] = std::string("9 bad name"); w.walk("/robot", order); p["/robot/robot_hardware"] = u; }
  bool ok = w.init(); NOTE("init " << ok << " expected " << expect); CHECK(ok == expect, "init answered " << ok << ", expected " << expect);
  Names g, e; for (auto& x : w.w.ev) g.push_back(x.comp + ": " + x.what); for (auto* c : order) e.push_back(c->ns + ": init " + w.rootNs + " " + c->ns); CHECK(g == e, "initialised " << show(g) << ", expected " << show(e));
  if (ok) {
    for (auto* c : w.w.leaves) CHECK(c->alive == 1 && c->built == 1, "component " << c->ns << " was made " << c->built << " times and exists " << c->alive << " times");
    std::map<std::string, std::set<std::string>> all; std::set<std::string> ifs; for (auto* c : order) for (auto& r : c->res) { ifs.insert(r.first); all[r.first].insert(r.second.begin(), r.second.end()); }
    Names n = w.robot->getNames(); CHECK(std::set<std::string>(n.begin(), n.end()) == ifs && n.size() == ifs.size(), "interfaces " << show(n) << ", expected " << show(ifs));
    for (int i = 0; i < 4; ++i) { Names r = w.robot->getInterfaceResources(IF[i]); CHECK(std::set<std::string>(r.begin(), r.end()) == all[IF[i]], IF[i] << " resources " << show(r) << ", expected " << show(all[IF[i]])); }
    auto have = [&](ResourceManagerBase* b, const Names& r, int i) { CHECK((b != nullptr) == (ifs.count(IF[i]) > 0), IF[i] << (b ? " is" : " is not") << " there"); CHECK(std::set<std::string>(r.begin(), r.end()) == all[IF[i]], "joints of " << IF[i] << ": " << show(r) << ", expected " << show(all[IF[i]])); };
    auto* a = w.robot->get<JointStateInterface>(); have(a, a ? a->getNames() : Names(), 0); auto* b = w.robot->get<PositionJointInterface>(); have(b, b ? b->getNames() : Names(), 1); auto* c = w.robot->get<VelocityJointInterface>(); have(c, c ? c->getNames() : Names(), 2); auto* d = w.robot->get<EffortJointInterface>(); have(d, d ? d->getNames() : Names(), 3);
    CHECK(!w.robot->get<ImuSensorInterface>(), "an interface nobody has was found");
    size_t cyc = s.index(5); int64_t t = 1000000000; for (size_t k = 0; k < cyc; ++k) {
      int64_t dt = s.range(0, 2000000000); t += s.range(0, 5000000000); bool wr = s.boolean();
      for (auto* o : order) if (s.chance(1, 3)) { SwitchState as[3] = {SwitchState::DONE, SwitchState::ONGOING, SwitchState::ERROR}; o->answer = as[s.index(3)]; o->prepare = !s.chance(1, 3); } // whatever becomes of a switch, the cycles go on
      if (s.chance(1, 3)) { auto in = [&](const std::string& n) { ControllerInfo i; i.name = n; i.type = "t"; for (int q = 0; q < 4; ++q) if (all.count(IF[q]) && !all[IF[q]].empty() && s.boolean()) { InterfaceResources x; x.hardware_interface = IF[q]; x.resources = all[IF[q]]; i.claimed_resources.push_back(x); } return i; };
        std::list<ControllerInfo> l, m; if (s.boolean()) l.push_back(in("a")); if (s.boolean()) m.push_back(in("b")); size_t what = s.index(3); if (what == 0) w.robot->prepareSwitch(l, m); else if (what == 1) w.robot->doSwitch(l, m); else w.robot->switchResult(); }
      ros::Time rt; rt.fromNSec((uint64_t)t); ros::Duration rp; rp.fromNSec(dt); w.w.ev.clear(); if (wr) w.robot->write(rt, rp); else w.robot->read(rt, rp);
      Names g2, e2; for (auto& x : w.w.ev) { g2.push_back(x.comp + " " + x.what); CHECK(x.t == t && x.p == dt, x.what << " of " << x.comp << " got time " << x.t << " period " << x.p << ", the robot's are " << t << " and " << dt); } for (auto* o : order) e2.push_back(o->ns + (wr ? " write" : " read")); CHECK(g2 == e2, "calls " << show(g2) << ", expected " << show(e2)); }
    w.robot.reset(); for (auto* x : w.w.leaves) CHECK(x->alive == 0, "component " << x->ns << " outlives the combined robot");
  }
  if (expect && order.size() >= 3) { s.label("3 or more components"); s.nontrivial(); } if (!expect) { s.label(bad ? "bad list" : "failing component"); if (order.size() || bad) s.nontrivial(); }
}

namespace {
// what component c is to see of the list
std::list<ControllerInfo> visible(const std::list<ControllerInfo>& l, const Comp& c)
{
  std::list<ControllerInfo> o; for (auto& i : l) { if (i.claimed_resources.empty()) { o.push_back(i); continue; } ControllerInfo f = i; f.claimed_resources.clear();
    for (auto& r : i.claimed_resources) { auto it = c.res.find(r.hardware_interface); if (it == c.res.end()) continue; InterfaceResources x; x.hardware_interface = r.hardware_interface; for (auto& n : r.resources) if (it->second.count(n)) x.resources.insert(n); if (!x.resources.empty()) f.claimed_resources.push_back(x); }
    if (!f.claimed_resources.empty()) o.push_back(f); }
  return o;
}
}
PROPERTY(C19, switching, "a controller claims resources of two components, and some controller is foreign to a component", 8000, 120000)
{
  Setup w(s); bool shared = s.chance(1, 3); w.comps = w.gen(1 + s.index(4), false, true, shared); w.publish(w.comps, "/robot"); if (s.verbose) w.describe(w.comps); std::vector<Comp*> order; w.walk("/robot", order); CHECK(w.init(), "init failed");
  Names all; for (auto* c : order) for (auto& r : c->res) for (auto& n : r.second) all.push_back(n); std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end()); all.push_back("unknown"); bool two = false, foreign = false;
  auto gen = [&](int id) { ControllerInfo c; c.name = pbt::spelt("c", (size_t)id); c.type = pbt::spelt("pkg/C", s.index(3)); for (int i = 0; i < 5; ++i) if (s.boolean()) { InterfaceResources r; r.hardware_interface = i < 4 ? IF[i] : "other::Interface"; for (auto& n : all) if (s.chance(1, 3)) r.resources.insert(n); c.claimed_resources.push_back(r); } return c; };
  size_t ops = 1 + s.index(6); int id = 0;
  for (size_t k = 0; k < ops; ++k) {
    std::list<ControllerInfo> a, b; while (s.more(3) && a.size() < 4) a.push_back(gen(id++)); while (s.more(3) && b.size() < 4) b.push_back(gen(id++));
    for (auto* c : order) { c->prepare = !s.chance(1, 8); auto draw = [&] { switch (s.weighted({4, 2, 1})) { case 0: return SwitchState::DONE; case 1: return SwitchState::ONGOING; default: return SwitchState::ERROR; } }; c->answer = draw(); c->answers.clear(); for (auto& i : a) c->answers[i.name] = draw(); }
    for (auto* l : {&a, &b}) for (auto& i : *l) { int n = 0; for (auto* c : order) n += !visible({i}, *c).empty() && !i.claimed_resources.empty(); two |= n >= 2; foreign |= n < (int)order.size(); }
    w.w.ev.clear(); int kind = (int)s.index(4);
    if (s.verbose) { s.note((kind == 0 ? "prepare" : kind == 1 ? "switch" : kind == 2 ? "results" : "conflict") + std::string(" start ") + show(infos(a)) + " stop " + show(infos(b))); }
    auto seen = [&](const Comp* c, const char* what, int atMost, int atLeast) { int n = 0; for (auto& e : w.w.ev) { if (e.comp != c->ns) continue; CHECK(e.what == what, c->ns << " saw " << e.what << " during " << what); ++n; Names ea = infos(visible(a, *c)), eb = infos(visible(b, *c)); CHECK(e.start == ea && e.stop == eb, what << " of " << c->ns << " got start " << show(e.start) << " stop " << show(e.stop) << ", expected start " << show(ea) << " stop " << show(eb)); } CHECK(n >= atLeast && n <= atMost, what << " of " << c->ns << " was called " << n << " times"); };
    auto sequence = [&] { Names g, e; std::set<std::string> got; for (auto& x : w.w.ev) { g.push_back(x.comp); got.insert(x.comp); } for (auto* c : order) if (got.count(c->ns)) e.push_back(c->ns); CHECK(g == e, "components called in order " << show(g) << ", expected " << show(e)); };
    switch (kind) {
      case 0: { bool expect = true; for (auto* c : order) expect &= c->prepare; bool ok = w.robot->prepareSwitch(a, b); CHECK(ok == expect, "prepareSwitch answered " << ok << ", expected " << expect); bool before = true; for (auto* c : order) { seen(c, "prepare", 1, before ? 1 : 0); if (!c->prepare) before = false; } sequence(); if (!expect) s.label("refused"); break; }
      case 1: w.robot->doSwitch(a, b); for (auto* c : order) seen(c, "switch", 1, 1); sequence(); break;
      case 2: {
        auto combine = [](const std::vector<SwitchState>& v) { if (std::count(v.begin(), v.end(), SwitchState::ERROR)) return SwitchState::ERROR; return std::count(v.begin(), v.end(), SwitchState::ONGOING) ? SwitchState::ONGOING : SwitchState::DONE; }; static const char* nm[] = {"done", "ongoing", "error"};
        std::vector<SwitchState> v; for (auto* c : order) v.push_back(c->answer); SwitchState g = w.robot->switchResult(), e = combine(v); CHECK(g == e, "switch result is " << nm[(int)g] << ", the components make it " << nm[(int)e]); if (e != SwitchState::DONE) s.label("not done");
        for (auto& i : a) { w.w.ev.clear(); std::vector<SwitchState> x; std::map<std::string, std::string> ei; for (auto* c : order) { auto f = visible({i}, *c); if (f.empty()) continue; x.push_back(c->answers[i.name]); ei[c->ns] = infoStr(f.front()); } g = w.robot->switchResult(i); e = combine(x); CHECK(g == e, "switch result of " << infoStr(i) << " is " << nm[(int)g] << ", its components make it " << nm[(int)e]); for (auto& q : w.w.ev) CHECK(ei.count(q.comp) && ei[q.comp] == q.start[0], q.comp << " was asked about " << q.start[0]); }
        break; }
      default: { std::map<std::string, int> n; std::list<ControllerInfo> l = a; l.insert(l.end(), b.begin(), b.end()); bool expect = false; for (auto& i : l) for (auto& r : i.claimed_resources) for (auto& x : r.resources) expect |= ++n[x] > 1; CHECK(w.robot->checkForConflict(l) == expect, "conflict expected " << expect); }
    }
  }
  if (two) s.label("controller over two components"); if (two && foreign) s.nontrivial();
}

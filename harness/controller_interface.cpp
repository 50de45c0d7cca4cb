// C12 controller lifecycle, C13 initialisation and claims
#include "pbt.h"
#include <controller_interface/controller.h>
#include <controller_interface/multi_interface_controller.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/posvel_command_interface.h>
#include <hardware_interface/imu_sensor_interface.h>
#include <hardware_interface/actuator_command_interface.h>
#include <deque>
#include <functional>
#include <memory>
using namespace hardware_interface; using controller_interface::ControllerBase;
using pbt::Src;
namespace {
// what the init callbacks of the controller under test do
struct Plan { std::function<bool(RobotHW*, void*, ros::NodeHandle*, ros::NodeHandle*)> init1, init2; };
struct Event { std::string what; double t, p; bool operator==(const Event& o) const { return what == o.what && t == o.t && p == o.p; } };
std::ostream& operator<<(std::ostream& o, const Event& e) { return o << e.what << "(" << e.t << (e.p ? "," : "") ; }
struct Rec { std::vector<Event> ev; Plan plan; };
template <class Base> struct Recorder : Base {
  Rec* r; template <class... A> Recorder(Rec* r_, A... a) : Base(a...), r(r_) {}
  void starting(const ros::Time& t) override { r->ev.push_back({"starting", t.toSec(), 0}); } void stopping(const ros::Time& t) override { r->ev.push_back({"stopping", t.toSec(), 0}); }
  void waiting(const ros::Time& t) override { r->ev.push_back({"waiting", t.toSec(), 0}); } void aborting(const ros::Time& t) override { r->ev.push_back({"aborting", t.toSec(), 0}); }
  void update(const ros::Time& t, const ros::Duration& p) override { r->ev.push_back({"update", t.toSec(), p.toSec()}); }
};
// Over: which of the two init callbacks the controller overrides, as a user is free to
#define INIT1(HW, A, B) bool init(HW* hw, ros::NodeHandle& nh) override { this->r->ev.push_back({"init", 1, 0}); return !this->r->plan.init1 || this->r->plan.init1(A, B, nullptr, &nh); }
#define INIT2(HW, A, B) bool init(HW* hw, ros::NodeHandle& root, ros::NodeHandle& nh) override { this->r->ev.push_back({"init", 2, 0}); return !this->r->plan.init2 || this->r->plan.init2(A, B, &root, &nh); }
template <class T> struct SingleNone : Recorder<controller_interface::Controller<T>> { using Recorder<controller_interface::Controller<T>>::Recorder; };
template <class T> struct SingleFirst : SingleNone<T> { using SingleNone<T>::SingleNone; INIT1(T, nullptr, hw) };
template <class T> struct SingleSecond : SingleNone<T> { using SingleNone<T>::SingleNone; INIT2(T, nullptr, hw) };
template <class T> struct Single : SingleNone<T> { using SingleNone<T>::SingleNone; INIT1(T, nullptr, hw) INIT2(T, nullptr, hw) };
template <class... T> struct MultiNone : Recorder<controller_interface::MultiInterfaceController<T...>> { typedef Recorder<controller_interface::MultiInterfaceController<T...>> R; explicit MultiNone(Rec* r) : R(r) {} MultiNone(Rec* r, bool opt) : R(r, opt) {} };
template <class... T> struct MultiFirst : MultiNone<T...> { using MultiNone<T...>::MultiNone; INIT1(RobotHW, hw, nullptr) };
template <class... T> struct MultiSecond : MultiNone<T...> { using MultiNone<T...>::MultiNone; INIT2(RobotHW, hw, nullptr) };
template <class... T> struct Multi : MultiNone<T...> { using MultiNone<T...>::MultiNone; INIT1(RobotHW, hw, nullptr) INIT2(RobotHW, hw, nullptr) };
template <class T> std::shared_ptr<ControllerBase> makeSingle(Rec* r, int over) { switch (over) { case 0: return std::make_shared<SingleNone<T>>(r); case 1: return std::make_shared<SingleFirst<T>>(r); case 2: return std::make_shared<SingleSecond<T>>(r); default: return std::make_shared<Single<T>>(r); } }
template <class M> std::shared_ptr<ControllerBase> makeOpt(Rec* r, int opt) { return opt == 2 ? std::make_shared<M>(r) : std::make_shared<M>(r, opt == 1); } // 2: as constructed by default
template <class... T> std::shared_ptr<ControllerBase> makeMulti(Rec* r, int over, int opt) { switch (over) { case 0: return makeOpt<MultiNone<T...>>(r, opt); case 1: return makeOpt<MultiFirst<T...>>(r, opt); case 2: return makeOpt<MultiSecond<T...>>(r, opt); default: return makeOpt<Multi<T...>>(r, opt); } }
int genOver(Src& s) { return 3 - (int)s.weighted({5, 2, 2, 1}); } // 3 both
int genOpt(Src& s) { return 2 - (int)s.index(3); }
ros::Time genTime(Src& s) { return ros::Time((uint32_t)s.range(0, 1000), (uint32_t)(s.index(3) * 250000000)); }
std::vector<std::string> states(const ControllerBase& c) { std::vector<std::string> o; if (c.isInitialized()) o.push_back("initialized"); if (c.isRunning()) o.push_back("running"); if (c.isStopped()) o.push_back("stopped"); if (c.isWaiting()) o.push_back("waiting"); if (c.isAborted()) o.push_back("aborted"); return o; }
struct InitFault { std::string what; };
}
PROPERTY(C12, lifecycle, "the controller was initialised and ran at least once", 60000, 1500000)
{
  PositionJointInterface pji; JointStateInterface jsi; RobotHW hw; bool have = s.chance(9, 10); if (have) hw.registerInterface(&pji); hw.registerInterface(&jsi);
  Rec rec; std::shared_ptr<ControllerBase> c; bool multi = s.boolean(); int optMode = multi ? genOpt(s) : 2, over = genOver(s); bool opt = optMode == 1;
  if (multi) c = makeMulti<PositionJointInterface, JointStateInterface>(&rec, over, optMode); else c = makeSingle<PositionJointInterface>(&rec, over);
  std::string st = ""; bool ran = false; ros::NodeHandle root, nh("c");
  CHECK(states(*c).empty(), "a constructed controller is " << pbt::show(states(*c)));
  for (int k = 0; k < 40 && (k == 0 || s.more(14)); ++k) {
    rec.ev.clear(); std::vector<Event> want; ros::Time t = genTime(s); ros::Duration p(s.range(0, 3), 1000); bool ok = true, wantOk = true; std::string op;
    switch (s.weighted({2, 4, 4, 3, 3, 5})) {
      case 0: { op = "init"; int f = s.weighted({4, 1, 1, 1, 1}); if (f && !(over & (f % 2 ? 1 : 2))) f = 0; rec.plan = Plan(); if (f == 1) rec.plan.init1 = [](RobotHW*, void*, ros::NodeHandle*, ros::NodeHandle*) { return false; }; if (f == 2) rec.plan.init2 = [](RobotHW*, void*, ros::NodeHandle*, ros::NodeHandle*) { return false; };
        if (f == 3) rec.plan.init1 = [](RobotHW*, void*, ros::NodeHandle*, ros::NodeHandle*) -> bool { throw std::runtime_error("init"); }; if (f == 4) rec.plan.init2 = [](RobotHW*, void*, ros::NodeHandle*, ros::NodeHandle*) -> bool { throw std::runtime_error("init"); };
        ControllerBase::ClaimedResources cl; bool reach = st.empty() && (have || opt); if (reach && (over & 1)) want.push_back({"init", 1, 0}); if (reach && (over & 2) && f != 1 && f != 3) want.push_back({"init", 2, 0}); wantOk = reach && f == 0;
        bool threw = false; try { ok = c->initRequest(&hw, root, nh, cl); } catch (const std::runtime_error&) { ok = false; threw = true; } CHECK(threw == (reach && f >= 3), "exception of init"); if (wantOk) st = "initialized"; break; }
      case 1: op = "start"; ok = c->startRequest(t); wantOk = !st.empty(); if (wantOk) { st = "running"; want.push_back({"starting", t.toSec(), 0}); } break;
      case 2: op = "stop"; ok = c->stopRequest(t); wantOk = !st.empty(); if (wantOk) { st = "stopped"; want.push_back({"stopping", t.toSec(), 0}); } break;
      case 3: op = "wait"; ok = c->waitRequest(t); wantOk = !st.empty(); if (wantOk) { st = "waiting"; want.push_back({"waiting", t.toSec(), 0}); } break;
      case 4: op = "abort"; ok = c->abortRequest(t); wantOk = !st.empty(); if (wantOk) { st = "aborted"; want.push_back({"aborting", t.toSec(), 0}); } break;
      default: op = "update"; c->updateRequest(t, p); if (st == "running") { want.push_back({"update", t.toSec(), p.toSec()}); ran = true; } break;
    }
    NOTE(op << " at " << t.toSec() << " -> " << (ok ? "ok" : "failed") << ", state " << pbt::show(states(*c)) << ", callbacks " << rec.ev.size());
    CHECK(ok == wantOk, op << (ok ? " succeeded" : " failed") << " in state '" << st << "'"); CHECK(rec.ev == want, op << ": wrong callbacks: " << rec.ev.size() << ", expected " << want.size());
    CHECK(states(*c) == (st.empty() ? std::vector<std::string>() : std::vector<std::string>{st}), "state is " << pbt::show(states(*c)) << ", expected '" << st << "'");
  }
  if (ran) s.nontrivial();
}

// ---------------------------------------------------------------- C13
namespace {
typedef PositionJointInterface IA; typedef EffortJointInterface IB; typedef VelocityJointInterface IC; typedef JointStateInterface ID; typedef PosVelJointInterface IE; typedef EffortActuatorInterface IF;
const char* ifName(int k) { static const char* n[] = {"hardware_interface::PositionJointInterface", "hardware_interface::EffortJointInterface", "hardware_interface::VelocityJointInterface", "hardware_interface::JointStateInterface", "hardware_interface::PosVelJointInterface", "hardware_interface::EffortActuatorInterface"}; return n[k]; }
bool claiming(int k) { return k != 3 && k != 5; }
struct Cell { double v[5]; };
struct Robot {
  std::deque<RobotHW> hw; std::deque<Cell> cells; std::vector<std::shared_ptr<void>> keep; std::map<int, std::map<std::string, std::set<double*>>> have; // per interface: resources
  RobotHW& root() { return hw[0]; }
};
void put(IA& i, const std::string& n, Cell& c) { i.registerHandle(JointHandle(JointStateHandle(n, &c.v[0], &c.v[1], &c.v[2]), &c.v[3])); } void put(IB& i, const std::string& n, Cell& c) { i.registerHandle(JointHandle(JointStateHandle(n, &c.v[0], &c.v[1], &c.v[2]), &c.v[3])); } void put(IC& i, const std::string& n, Cell& c) { i.registerHandle(JointHandle(JointStateHandle(n, &c.v[0], &c.v[1], &c.v[2]), &c.v[3])); }
void put(ID& i, const std::string& n, Cell& c) { i.registerHandle(JointStateHandle(n, &c.v[0], &c.v[1], &c.v[2])); } void put(IE& i, const std::string& n, Cell& c) { i.registerHandle(PosVelJointHandle(JointStateHandle(n, &c.v[0], &c.v[1], &c.v[2]), &c.v[3], &c.v[4])); } void put(IF& i, const std::string& n, Cell& c) { i.registerHandle(ActuatorHandle(ActuatorStateHandle(n, &c.v[0], &c.v[1], &c.v[2]), &c.v[3])); }
template <class T, int K> void addIface(Robot& r, Src& s, size_t at) { auto p = std::make_shared<T>(); r.keep.push_back(p); r.have[K]; for (size_t n = s.range(0, 4); n-- > 0;) { std::string nm = "h" + std::to_string(at) + "_" + std::to_string(n); r.cells.emplace_back(); put(*p, nm, r.cells.back()); r.have[K][nm].insert(&r.cells.back().v[0]); } r.hw[at].registerInterface(p.get()); }
// interface access by kind number
void* getIface(RobotHW* hw, int k) { switch (k) { case 0: return hw->get<IA>(); case 1: return hw->get<IB>(); case 2: return hw->get<IC>(); case 3: return hw->get<ID>(); case 4: return hw->get<IE>(); default: return hw->get<IF>(); } }
template <class T> double posOf(T* i, const std::string& n) { return i->getHandle(n).getPosition(); }
double readPos(void* i, int k, const std::string& n) { switch (k) { case 0: return posOf((IA*)i, n); case 1: return posOf((IB*)i, n); case 2: return posOf((IC*)i, n); case 3: return posOf((ID*)i, n); case 4: return posOf((IE*)i, n); default: return posOf((IF*)i, n); } }
std::set<std::string> claimsOf(void* i, int k) { switch (k) { case 0: return ((IA*)i)->getClaims(); case 1: return ((IB*)i)->getClaims(); case 2: return ((IC*)i)->getClaims(); case 3: return ((ID*)i)->getClaims(); case 4: return ((IE*)i)->getClaims(); default: return ((IF*)i)->getClaims(); } }
struct Kind { std::vector<int> ifs; bool multi; std::function<std::shared_ptr<ControllerBase>(Rec*, int over, int opt)> make; };
template <class... T> Kind M(std::vector<int> v) { return {v, true, [](Rec* r, int over, int o) { return makeMulti<T...>(r, over, o); }}; }
template <class T> Kind S1(int k) { return {{k}, false, [](Rec* r, int over, int) { return makeSingle<T>(r, over); }}; }
const std::vector<Kind>& kinds() { static std::vector<Kind> v = {S1<IA>(0), S1<IB>(1), S1<ID>(3), S1<IE>(4), S1<IF>(5), M<IA>({0}), M<IA, IB>({0, 1}), M<ID, IA>({3, 0}), M<IA, IB, IC>({0, 1, 2}), M<IC, IB, IA, ID>({2, 1, 0, 3}), M<IE, IF>({4, 5}), M<IB, IC, ID, IE, IF>({1, 2, 3, 4, 5}), M<IA, IB, IC, ID, IE, IF>({0, 1, 2, 3, 4, 5})}; return v; }
}
PROPERTY(C13, init, "a controller was refused or failed and a later one initialised with claims", 40000, 800000)
{
  Robot r; size_t nhw = s.range(1, 3); r.hw.resize(nhw);
  for (size_t at = 0; at < nhw; ++at) { if (s.chance(2, 3)) addIface<IA, 0>(r, s, at); if (s.boolean()) addIface<IB, 1>(r, s, at); if (s.boolean()) addIface<IC, 2>(r, s, at); if (s.boolean()) addIface<ID, 3>(r, s, at); if (s.boolean()) addIface<IE, 4>(r, s, at); if (s.boolean()) addIface<IF, 5>(r, s, at); }
  for (size_t at = 1; at < nhw; ++at) r.hw[s.index(at)].registerInterfaceManager(&r.hw[at]);
  double id = 1; for (auto& c : r.cells) c.v[0] = id++;
  for (auto& x : r.have) { std::string l; for (auto& h : x.second) l += " " + h.first; NOTE("robot: " << ifName(x.first) << l); }
  bool failedBefore = false; std::vector<std::shared_ptr<ControllerBase>> alive; std::deque<Rec> recs;
  for (int n = 0; n < 8 && (n < 2 || s.more(4)); ++n) {
    const Kind& kd = kinds()[s.index(kinds().size())]; int optMode = kd.multi ? genOpt(s) : 2, over = genOver(s); bool opt = optMode == 1; recs.emplace_back(); Rec& rec = recs.back(); auto c = kd.make(&rec, over, optMode); alive.push_back(c);
    bool missing = false; for (int k : kd.ifs) if (!r.have.count(k)) missing = true;
    std::map<int, std::set<std::string>> want; bool sawInterfaces = false;
    // the claims are made in either of the two init callbacks; the outcome is chosen up front
    enum { OK, FAIL1, FAIL2, THROW1, THROW2, THROWHW } outcome = (decltype(OK))s.weighted({6, 1, 1, 1, 1, 1}); int calls = 0; if (((outcome == FAIL1 || outcome == THROW1) && !(over & 1)) || ((outcome == FAIL2 || outcome == THROW2) && !(over & 2)) || (outcome == THROWHW && !over)) outcome = OK;
    auto body = [&](int which, RobotHW* hw, void* one) -> bool {
      ++calls; sawInterfaces = true;
      for (int k = 0; k < 6; ++k) if (hw) { bool asked = std::find(kd.ifs.begin(), kd.ifs.end(), k) != kd.ifs.end(); void* p = getIface(hw, k); CHECK((p != nullptr) == (asked && r.have.count(k)), "controller " << n << (p ? " got" : " did not get") << " interface " << ifName(k)); if (p) CHECK(p == getIface(&r.root(), k), "not the interface of the robot"); }
      if (hw) { auto names = hw->getNames(); std::set<std::string> got(names.begin(), names.end()), w; for (int k : kd.ifs) if (r.have.count(k)) w.insert(ifName(k)); CHECK(got == w, "the controller sees interfaces " << pbt::show(got)); }
      else CHECK(one == getIface(&r.root(), kd.ifs[0]), "not the interface of the robot");
      for (int k : kd.ifs) { void* p = hw ? getIface(hw, k) : one; if (!p) continue; for (auto& h : r.have[k]) if (s.chance(1, 3)) { double x = readPos(p, k, h.first); bool good = false; for (double* q : h.second) good |= *q == x; CHECK(good, "handle of another resource"); if (claiming(k)) want[k].insert(h.first); } }
      if (which == 1 && outcome == FAIL1) return false; if (which == 2 && outcome == FAIL2) return false;
      if (which == 1 && outcome == THROW1) throw InitFault{"1"}; if (which == 2 && outcome == THROW2) throw std::runtime_error("2");
      if (outcome == THROWHW) { for (int k : kd.ifs) { void* p = hw ? getIface(hw, k) : one; if (p) readPos(p, k, "no such resource"); } throw InitFault{"no interface"}; }
      return true; };
    ros::NodeHandle root(s.boolean() ? "" : "robot"), nh("ctrl" + std::to_string(n));
    rec.plan.init1 = [&](RobotHW* hw, void* one, ros::NodeHandle*, ros::NodeHandle* c2) { CHECK(c2->getNamespace() == nh.getNamespace(), "not the node handle given"); return body(1, hw, one); };
    rec.plan.init2 = [&](RobotHW* hw, void* one, ros::NodeHandle* r2, ros::NodeHandle* c2) { CHECK(c2->getNamespace() == nh.getNamespace() && r2->getNamespace() == root.getNamespace(), "not the node handles given"); return body(2, hw, one); };
    bool reach = !missing || opt, expectOk = reach && outcome == OK, ok = false, threw = false, stale = s.chance(1, 3); ControllerBase::ClaimedResources cl; if (stale) cl.resize(2); // what is there before is no claim of this controller
    try { ok = c->initRequest(&r.root(), root, nh, cl); } catch (const pbt::Failure&) { throw; } catch (const InitFault&) { threw = true; } catch (const std::runtime_error&) { threw = true; } catch (const HardwareInterfaceException&) { threw = true; }
    { std::string w; for (int k : kd.ifs) w += std::string(" ") + ifName(k); NOTE((kd.multi ? "multi interface controller" : "controller") << (opt ? " (optional interfaces)" : "") << w << ": " << (ok ? "initialised" : threw ? "threw" : "failed")); for (auto& x : want) NOTE("  used " << ifName(x.first) << " " << pbt::show(x.second)); for (auto& x : cl) NOTE("  reported " << x.hardware_interface << " " << pbt::show(x.resources)); }
    CHECK(sawInterfaces == (reach && over), (reach ? "init was not called" : "init was called although a required interface is missing")); CHECK(ok == expectOk, (ok ? "initialisation succeeded unexpectedly" : "initialisation failed unexpectedly"));
    CHECK(c->isInitialized() == ok, "wrong state after initialisation"); if (reach) CHECK(calls == (outcome == FAIL1 || outcome == THROW1 || outcome == THROWHW ? 1 : (over & 1) + (over >> 1)), "init called " << calls << " times");
    if (!ok) { CHECK(stale || cl.empty(), "claims reported by a failed initialisation"); failedBefore = true; s.label(reach ? "failed" : "refused"); continue; }
    std::map<std::string, std::set<std::string>> got, w; bool any = false; for (auto& x : cl) { CHECK(!got.count(x.hardware_interface), "two reports for " << x.hardware_interface); got[x.hardware_interface] = x.resources; }
    for (int k : kd.ifs) if (r.have.count(k)) { w[ifName(k)] = want[k]; any |= !want[k].empty(); }
    CHECK(got == w, "reported claims differ from those made");
    for (int k : kd.ifs) if (r.have.count(k)) CHECK(claimsOf(getIface(&r.root(), k), k).empty(), "claims left behind on " << ifName(k));
    if (failedBefore && any) s.nontrivial(); s.label("initialised");
  }
}

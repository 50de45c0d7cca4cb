// The world around a ControllerManager: recording hardware, controllers, loaders and a control loop.
#pragma once
#define SCHED_INTERPOSE
#include "schedule.h"
#include <controller_interface/multi_interface_controller.h>
#include <controller_manager/controller_manager.h>
#include <hardware_interface/joint_command_interface.h>
#include <pluginlib/class_loader.hpp>
#include <deque>
#include <memory>
#include <set>
namespace cmw {
using namespace hardware_interface; using pbt::Src; using pbt::show;
typedef RobotHW::SwitchState SwitchState; typedef std::map<std::string, std::set<std::string>> Claims;
const char* const PJI = "hardware_interface::PositionJointInterface"; const char* const EJI = "hardware_interface::EffortJointInterface"; const char* const BASE = "controller_interface::ControllerBase";
enum Kind { CTOR, INIT, DTOR, STARTING, STOPPING, WAITING, ABORTING, UPDATE, PREPARE, DOSWITCH, RELOAD };
inline const char* kindName(int k) { static const char* n[] = {"construct", "init", "destroy", "starting", "stopping", "waiting", "aborting", "update", "prepareSwitch", "doSwitch", "reload loader"}; return n[k]; }
struct Event { Kind k; int inst; double t, p; bool rt; std::vector<std::string> start, stop; std::string what; };
struct Type { std::string name; Claims claims; };
struct Inst { std::string type; Claims claims; bool alive = false; std::string st; };
inline std::string ctlName(size_t i) { return pbt::spelling() ? pbt::spelt("c", i) : std::string(1, (char)('a' + i)); }
inline std::string resName(size_t i) { return pbt::spelt("r", i); }
struct World; inline World*& W() { static World* w = nullptr; return w; }
enum Fault { NONE, CTOR_RUNTIME, CTOR_LOGIC, CTOR_INT, CTOR_NULL, INIT1_FALSE, INIT2_FALSE, INIT_RUNTIME, INIT_INT, INIT_UNKNOWN_RESOURCE };
inline const char* faultName(int f) { static const char* n[] = {"none", "constructor throws runtime_error", "constructor throws logic_error", "constructor throws int", "no instance", "first init returns false", "second init returns false", "init throws runtime_error", "init throws int", "init asks for an unknown resource"}; return n[f]; }

struct FakeHW : RobotHW {
  PositionJointInterface pji; EffortJointInterface eji; std::deque<std::array<double, 4>> cells;
  FakeHW(size_t n) { for (size_t i = 0; i < n; ++i) { cells.push_back({}); auto& c = cells.back(); JointStateHandle h(resName(i), &c[0], &c[1], &c[2]); pji.registerHandle(JointHandle(h, &c[3])); eji.registerHandle(JointHandle(h, &c[3])); } registerInterface(&pji); registerInterface(&eji); }
  bool checkForConflict(const std::list<ControllerInfo>& i) const override; bool prepareSwitch(const std::list<ControllerInfo>& a, const std::list<ControllerInfo>& b) override; void doSwitch(const std::list<ControllerInfo>& a, const std::list<ControllerInfo>& b) override;
  SwitchState switchResult() const override; SwitchState switchResult(const ControllerInfo& c) const override;
};
// what a started request must come to
struct Pending {
  bool refuse = false; std::string reason; std::set<int> S, T; bool asap = false; double timeout = 0; bool strict = false;
  int prepared = 0, done = 0; bool started = false, finished = false; int64_t lo = 0, hi = 0; std::set<int> settled, aborted; bool prepareOk = true; int cyclesSince = 0; bool anyWaiting = false, anyAborted = false; bool tainted = false, late = false; bool known = true; bool conflictChecked = false; std::set<std::string> outcome; int stallAfter = 0; bool stalled = false;
};
inline std::string infoStr(const ControllerInfo& c) { std::string o = c.name + "|" + c.type; std::map<std::string, std::set<std::string>> m; for (auto& r : c.claimed_resources) if (!r.resources.empty()) m[r.hardware_interface].insert(r.resources.begin(), r.resources.end()); for (auto& r : m) { o += "|" + r.first + ":"; for (auto& n : r.second) o += n + ","; } return o; }
inline std::vector<std::string> infoList(const std::list<ControllerInfo>& l) { std::vector<std::string> o; for (auto& c : l) o.push_back(infoStr(c)); std::sort(o.begin(), o.end()); return o; }

struct MC { std::string name, type; int inst; };
struct World {
  Src& s; std::set<std::string> own; bool drained = false, over = false, dirty = false, multi = false, crawling = false; uint64_t foreign = 0; unsigned slowOdds = 0;
  std::unique_ptr<FakeHW> hw; std::unique_ptr<controller_manager::ControllerManager> cm; sched::Sched sc;
  std::vector<Type> types; std::map<std::string, int> typeIdx; std::deque<Inst> insts; std::vector<Event> ev; std::vector<MC> model; std::map<std::string, std::string> typeParam; // name -> type ("" no string)
  std::string op; int fault = NONE; bool customPolicy = false, conflictAnswer = false, prepareAnswer = true, readyHw = true, inCycle = false; int clients = 0; size_t rtDelay = 0; 
  bool randomResets = false, shutdown = false, mtOut = false; std::vector<std::string> mtStart, mtStop; size_t cycleEv = 0; bool anyCycle = false; Pending* pend = nullptr; SwitchState answer = SwitchState::DONE; std::map<std::string, SwitchState> answers; std::string cycleSnap; int cycles = 0, rtBlocked = 0; bool rtRun = true; std::vector<std::pair<std::string, std::vector<std::string>>> loaders; int lastInst = -1; int64_t maxDtMs = 200; std::vector<int> mtAllowed; uint64_t switchesDone = 0, refused = 0, abortedN = 0, waitedN = 0, asapN = 0, resetsRunning = 0, updatesN = 0;
  std::string ns = "/"; int maxOngoing = 10; std::set<std::string> hangTags;
  explicit World(Src& s_, std::set<std::string> o) : s(s_), own(o) { W() = this; }
  ~World() { cm.reset(); W() = nullptr; pluginlib::shim::loaderHook() = nullptr; pluginlib::shim::declared().m.clear(); ros::shim::params().clear(); ros::shim::okFlag() = true; }
  void req(bool cond, std::set<std::string> tags, const std::string& m) {
    if (cond || drained) return; bool mine = false; for (auto& t : tags) if (own.count(t)) mine = true;
    if (mine) pbt::die(m); drained = dirty = true; ++foreign; if (pend) pend->tainted = true; if (s.verbose) s.note("(a deviation that other properties judge: " + m + ")"); }
  // --- set-up
  Claims genClaims(size_t nres) { Claims c; for (size_t i = 0; i < nres; ++i) switch (s.weighted({5, 2, 2})) { case 1: c[PJI].insert(resName(i)); break; case 2: c[EJI].insert(resName(i)); break; default: break; } if (s.chance(1, 25) && !c[PJI].empty()) c[EJI].insert(*c[PJI].begin()); return c; }
  void setup(size_t nres, size_t ntypes, std::vector<std::string> names, unsigned badParamOdds = 0);
  void setTypeParam(const std::string& name, int kind) { auto& p = ros::shim::params(); std::string k = "/" + name + "/type"; p.erase(k); p.erase("/" + name + "/other"); typeParam[name] = ""; switch (kind) { case 0: { auto& t = types[s.index(types.size())]; p[k] = XmlRpc::XmlRpcValue(t.name); typeParam[name] = t.name; break; } case 1: p[k] = XmlRpc::XmlRpcValue("no_such/Type"); typeParam[name] = "no_such/Type"; break; case 2: p["/" + name + "/other"] = XmlRpc::XmlRpcValue("x"); break; case 3: p[k] = XmlRpc::XmlRpcValue(3); break; case 4: { std::string n = types[s.index(types.size())].name; switch (s.index(6)) { case 0: n = n.substr(0, 1 + s.index(n.size() - 1)); break; case 1: n += "0"; break; case 2: n = n.substr(n.rfind('/') + 1); break; case 3: n = "/" + n; break; case 4: n[0] = (char)toupper(n[0]); break; default: n += "/"; } p[k] = XmlRpc::XmlRpcValue(n); typeParam[name] = n; break; } default: break; } }
  controller_interface::ControllerBase* construct(const std::string& type);
  MC* find(const std::string& n) { for (auto& m : model) if (m.name == n) return &m; return nullptr; }
  bool running(const MC& m) { return insts[m.inst].st == "running"; }
  ControllerInfo info(const MC& m) { ControllerInfo i; i.name = m.name; i.type = m.type; for (auto& c : insts[m.inst].claims) { InterfaceResources r; r.hardware_interface = c.first; r.resources = c.second; i.claimed_resources.push_back(r); } return i; }
  void log(Kind k, int inst, double t = 0, double p = 0) { ev.push_back({k, inst, t, p, onRt(), {}, {}, ""}); }
  bool onRt() { return sched::managed() && sc.th[sched::me]->rt; }
  std::string nameOf(int inst) { for (auto& m : model) if (m.inst == inst) return m.name; return "#" + std::to_string(inst); }
  bool conflict(const std::vector<int>& v) { std::map<std::string, int> n; for (int i : v) for (auto& c : insts[i].claims) for (auto& r : c.second) if (++n[r] > 1) return true; return false; }
  // a class installed after the start is offered once its loader is reloaded
  std::string addType() { Type t; t.name = "new/N" + std::to_string(types.size()); t.claims = genClaims(hw->cells.size()); typeIdx[t.name] = (int)types.size(); types.push_back(t); std::string n = t.name; pluginlib::shim::declare<controller_interface::ControllerBase>(BASE, n, [this, n]() { return construct(n); }); return n; }
  void refreshLoaders() { loaders[0].second.clear(); for (auto& d : pluginlib::shim::declared().m[BASE]) loaders[0].second.push_back(d.first); }
  std::map<int, int> resetPhase;   // controllers running at the beginning of a cycle with reset: nothing, stopped, started again
  bool partOfReset(int id, Kind k) { auto i = resetPhase.find(id); if (i == resetPhase.end()) return false; if (i->second == 0 && k == STOPPING) { i->second = 1; return true; } if (i->second == 1 && k == STARTING) { i->second = 2; return true; } return false; }
  // --- control loop
  void cycle(); void checkCycle(size_t from, double t, double period, bool reset, const std::vector<int>& runningAtBegin, int64_t prevNow, bool inst0); void rtBody();
  void drawAnswers(); void crawl();
  // --- requests
  void predict(Pending& p, const std::vector<std::string>& start, const std::vector<std::string>& stop, int strictness);
};

struct Fake : controller_interface::MultiInterfaceController<PositionJointInterface, EffortJointInterface> {
  typedef controller_interface::MultiInterfaceController<PositionJointInterface, EffortJointInterface> Base; int id; int fault;
  Fake(int id_, int f) : Base(true), id(id_), fault(f) {}
  ~Fake() override { auto& w = *W(); w.insts[id].alive = false; w.log(DTOR, id); }
  void claim(RobotHW* hw, const char* which, int part) { auto& c = W()->insts[id].claims[which]; size_t k = 0; for (auto& r : c) if ((int)(k++ % 2) == part) { if (which == PJI) hw->get<PositionJointInterface>()->getHandle(r); else hw->get<EffortJointInterface>()->getHandle(r); } }
  bool init(RobotHW* hw, ros::NodeHandle&) override { auto& w = *W(); w.log(INIT, id); sched::yieldSoft("init"); claim(hw, PJI, 0); claim(hw, EJI, 0); if (fault == INIT1_FALSE) return false; if (fault == INIT_RUNTIME) throw std::runtime_error("init"); return true; }
  bool init(RobotHW* hw, ros::NodeHandle&, ros::NodeHandle&) override { sched::yieldSoft("init"); claim(hw, PJI, 1); claim(hw, EJI, 1); if (fault == INIT2_FALSE) return false; if (fault == INIT_INT) throw 42; if (fault == INIT_UNKNOWN_RESOURCE) hw->get<PositionJointInterface>()->getHandle("no such resource"); return true; }
  void cb(Kind k, const char* st, double t, double p = 0) { auto& w = *W(); w.log(k, id, t, p); w.req(w.onRt(), {"C08", "C05"}, std::string(kindName(k)) + " called outside the control loop"); w.req(w.insts[id].alive, {"C07", "C08"}, "a destroyed controller was called"); if (*st && !w.partOfReset(id, k)) w.insts[id].st = st; sched::yieldSoft("controller"); w.crawl(); if (w.slowOdds && w.onRt() && w.s.chance(1, w.slowOdds)) { size_t n = 1 + w.s.index(w.s.chance(1, 4) ? 300 : 20); if (w.s.verbose) w.s.note("    (slow controller)"); for (size_t i = 0; i < n && !ros::isShuttingDown(); ++i) sched::yieldHard("slow controller"); } }
  void starting(const ros::Time& t) override { cb(STARTING, "running", t.toSec()); } void stopping(const ros::Time& t) override { cb(STOPPING, "stopped", t.toSec()); } void waiting(const ros::Time& t) override { cb(WAITING, "waiting", t.toSec()); } void aborting(const ros::Time& t) override { cb(ABORTING, "aborted", t.toSec()); }
  void update(const ros::Time& t, const ros::Duration& p) override { cb(UPDATE, "", t.toSec(), p.toSec()); }
};
struct FakeLoader : controller_manager::ControllerLoaderInterface {
  std::vector<std::string> declared; FakeLoader(const std::string& n) : ControllerLoaderInterface(n) {}
  controller_interface::ControllerBaseSharedPtr createInstance(const std::string& n) override { return controller_interface::ControllerBaseSharedPtr(W()->construct(n)); }
  std::vector<std::string> getDeclaredClasses() override { return declared; } void reload() override { W()->ev.push_back({RELOAD, -1, 0, 0, W()->onRt(), {}, {}, getName()}); }
};

inline controller_interface::ControllerBase* World::construct(const std::string& type)
{ int f = fault; sched::yieldSoft("construct"); if (f == CTOR_NULL) return nullptr; insts.push_back({}); int id = (int)insts.size() - 1; auto& i = insts.back(); i.type = type; i.claims = types[typeIdx.at(type)].claims; log(CTOR, id);
  if (f == CTOR_RUNTIME) throw std::runtime_error("constructor"); if (f == CTOR_LOGIC) throw std::logic_error("constructor"); if (f == CTOR_INT) throw 7; i.alive = true; i.st = "initialized"; lastInst = id; return new Fake(id, f); }
inline void World::setup(size_t nres, size_t ntypes, std::vector<std::string> names, unsigned badParamOdds)
{
  hw.reset(new FakeHW(nres)); ros::shim::rosNow() = 100000000000LL; sched::wall() = 1700000000000000000LL;
  for (size_t i = 0; i < ntypes; ++i) { Type t; t.name = "pkg/" + pbt::spelt("t", i); t.claims = genClaims(nres); typeIdx[t.name] = (int)types.size(); types.push_back(t); std::string n = t.name; pluginlib::shim::declare<controller_interface::ControllerBase>(BASE, n, [this, n]() { return construct(n); }); if (s.verbose) { std::string l = "type " + n + " claims"; for (auto& c : t.claims) if (!c.second.empty()) l += " " + c.first + show(c.second); s.note(l); } }
  std::vector<std::string> d; for (auto& t : types) d.push_back(t.name); loaders.push_back({BASE, d});
  for (auto& n : names) setTypeParam(n, badParamOdds && s.chance(1, badParamOdds) ? 1 + (int)s.index(5) : 0);
  pluginlib::shim::loaderHook() = [this](const std::string& b) { ev.push_back({RELOAD, -1, 0, 0, onRt(), {}, {}, b}); };
  cm.reset(new controller_manager::ControllerManager(hw.get(), ros::NodeHandle(ns))); ev.clear();
}
inline bool FakeHW::checkForConflict(const std::list<ControllerInfo>& i) const
{ auto& w = *W(); bool base = RobotHW::checkForConflict(i); sched::yieldSoft("checkForConflict"); Pending* p = w.pend;
  if (!w.multi && p && p->known) { p->conflictChecked = true; w.req(!w.onRt(), {"C08"}, "conflicts checked in the control loop"); w.req(!p->refuse || p->reason == "conflict" || p->reason == "prepare", {"C02"}, "a request that must be refused (" + p->reason + ") reached the resource check"); }
  return w.customPolicy ? w.conflictAnswer : base; }
inline bool FakeHW::prepareSwitch(const std::list<ControllerInfo>& a, const std::list<ControllerInfo>& b)
{
  auto& w = *W(); Event e{PREPARE, -1, 0, 0, w.onRt(), infoList(a), infoList(b), ""}; w.ev.push_back(e); w.req(!e.rt, {"C03", "C08"}, "prepareSwitch was called in the control loop"); Pending* p = w.pend;
  if (!w.multi) {
    w.req(p != nullptr, {"C03", "C02"}, "prepareSwitch without a switch request");
    if (p) { ++p->prepared; w.req(!p->refuse || p->reason == "prepare", {"C02", "C01"}, "the hardware was told about a request that must be refused (" + p->reason + ")"); w.req(p->prepared == 1, {"C03"}, "the hardware was told twice to prepare");
      std::list<ControllerInfo> ea, eb; for (auto& m : w.model) { if (p->S.count(m.inst)) ea.push_back(w.info(m)); if (p->T.count(m.inst)) eb.push_back(w.info(m)); }
      w.req(infoList(ea) == e.start && infoList(eb) == e.stop, {"C03"}, "prepareSwitch was given start " + show(e.start) + " stop " + show(e.stop) + ", expected start " + show(infoList(ea)) + " stop " + show(infoList(eb))); p->lo = ros::shim::rosNow(); }
  }
  else if (!w.shutdown) { w.req(!w.mtOut, {"C03", "C09"}, "the hardware was told to prepare a switch while another was not finished"); if (w.prepareAnswer) { w.mtOut = true; w.mtStart = e.start; w.mtStop = e.stop; } }
  bool answer = w.prepareAnswer; sched::yieldSoft("prepareSwitch"); return answer;
}
inline void FakeHW::doSwitch(const std::list<ControllerInfo>& a, const std::list<ControllerInfo>& b)
{ auto& w = *W(); w.ev.push_back({DOSWITCH, -1, 0, 0, w.onRt(), infoList(a), infoList(b), ""}); w.req(w.onRt(), {"C03", "C08"}, "doSwitch was called outside the control loop"); w.crawl();
  if (w.multi && !w.shutdown) { auto& e = w.ev.back(); w.req(w.mtOut && w.mtStart == e.start && w.mtStop == e.stop, {"C03", "C09"}, "the hardware was told to switch start " + show(e.start) + " stop " + show(e.stop) + (w.mtOut ? ", prepared: start " + show(w.mtStart) + " stop " + show(w.mtStop) : ", but no switch was prepared")); w.mtOut = false; }
  sched::yieldSoft("doSwitch"); }
// a callback that takes longer than the request is willing to wait
inline void World::crawl() { if (!crawling || !pend || !onRt() || !s.chance(1, 4)) return; int64_t ms = 500 * s.range(1, 8); if (s.verbose) s.note("    (this takes " + std::to_string(ms) + " ms)"); sched::wall() += ms * 1000000; pend->late = true; for (size_t n = s.index(20); n-- > 0 && !ros::isShuttingDown();) sched::yieldHard("slow callback"); }
inline SwitchState FakeHW::switchResult() const { sched::yieldSoft("switchResult"); return W()->answer; }
inline SwitchState FakeHW::switchResult(const ControllerInfo& c) const { auto& w = *W(); sched::yieldSoft("switchResult"); if (!w.multi) { MC* m = w.find(c.name); w.req(m && infoStr(w.info(*m)) == infoStr(c), {"C04"}, "the hardware was asked about an unknown controller " + c.name); } auto it = w.answers.find(c.name); return it == w.answers.end() ? w.answer : it->second; }

inline void World::drawAnswers()
{
  answer = SwitchState::DONE; answers.clear(); if (readyHw || !pend || pend->finished) return;
  bool force = pend->cyclesSince > maxOngoing; auto draw = [&] { if (force) return SwitchState::DONE; switch (s.weighted({3, 4, 1})) { case 0: return SwitchState::DONE; case 1: return SwitchState::ONGOING; default: return SwitchState::ERROR; } };
  answer = draw(); for (auto& m : model) if (pend->S.count(m.inst)) answers[m.name] = draw();
}
inline void World::cycle()
{
  bool skipped = drained; drained = false; static const char* an[] = {"done", "ongoing", "error"}; int64_t prev = ros::shim::rosNow(); int64_t dt = (s.chance(1, 3) ? s.range(1, maxDtMs) : 10) * 1000000LL; if (!multi && pend && pend->timeout == 0 && s.chance(1, 8)) dt = s.range(1, 5000) * 1000000LL; /* however long it takes */ bool reset = randomResets && s.chance(1, 5);
  ros::shim::rosNow() += dt; if (!multi) sched::wall() += dt; ros::Time t; t.setNS(ros::shim::rosNow()); ros::Duration p; p.fromNSec(dt); drawAnswers();
  std::vector<int> run; for (size_t i = 0; i < insts.size(); ++i) if (insts[i].alive && insts[i].st == "running") run.push_back((int)i);
  resetPhase.clear(); if (reset) for (int r : run) resetPhase[r] = 0; size_t from = ev.size(); cycleEv = from; anyCycle = true; inCycle = true; ++cycles; if (pend && pend->started) ++pend->cyclesSince; bool st0 = pend && pend->started && !pend->finished;
  if (s.verbose) { std::string l = "  cycle at " + std::to_string(t.toSec()) + (reset ? " with reset" : ""); if (!readyHw && pend) { l += std::string(" (hardware: ") + an[(int)answer]; for (auto& a : answers) l += " " + a.first + "=" + an[(int)a.second]; l += ")"; } s.note(l); }
  if (reset) cm->update(t, p, reset); else cm->update(t, p); inCycle = false; resetPhase.clear();
  if (s.verbose) for (size_t i = from; i < ev.size(); ++i) if (ev[i].rt) s.note(std::string("    ") + kindName(ev[i].k) + (ev[i].inst >= 0 ? " " + nameOf(ev[i].inst) : "") + (ev[i].k == DOSWITCH ? " start " + show(ev[i].start) + " stop " + show(ev[i].stop) : ""));
  if (!drained) checkCycle(from, t.toSec(), p.toSec(), reset, run, prev, st0);
  if (own.count("C01") && !customPolicy) { std::vector<int> now; for (size_t i = 0; i < insts.size(); ++i) if (insts[i].alive && insts[i].st == "running") now.push_back((int)i); if (conflict(now)) pbt::die("two running controllers claim one resource"); }
  drained = drained || skipped;
}
inline void World::checkCycle(size_t from, double t, double period, bool reset, const std::vector<int>& run, int64_t prevNow, bool already)
{
  Pending* p = pend; bool first = false; size_t doPos = SIZE_MAX; std::map<int, std::vector<size_t>> seq; if (reset && !run.empty()) ++resetsRunning;
  for (size_t i = from; i < ev.size(); ++i) { auto& e = ev[i]; if (!e.rt) continue;
    switch (e.k) {
      case DTOR: case CTOR: case INIT: req(false, {"C08", "C07"}, std::string("a controller saw ") + kindName(e.k) + " in the control loop"); break;
      case RELOAD: case PREPARE: req(false, {"C08", "C11", "C03"}, std::string(kindName(e.k)) + " in the control loop"); break;
      case DOSWITCH: req(doPos == SIZE_MAX, {"C03"}, "doSwitch twice in one cycle"); doPos = i; break;
      default: seq[e.inst].push_back(i); } }
  if (drained) return;
  if (multi || (p && p->tainted)) { // who may start or stop is not known here: the base part of each controller, and order
    for (int c : run) { if (!insts[c].alive) continue; auto& q = seq[c]; size_t k = 0; if (reset && q.size() > 1 && ev[q[0]].k == STOPPING && ev[q[1]].k == STARTING) k = 2; req(k == (reset ? 2u : 0u) && k < q.size() && ev[q[k]].k == UPDATE && ev[q[k]].t == t && ev[q[k]].p == period, {"C05", "C08"}, "running controller #" + std::to_string(c) + " was not updated" + (reset ? " and restarted" : "") + " in this cycle"); }
    for (auto& x : seq) { bool r = std::find(run.begin(), run.end(), x.first) != run.end(); int n = 0; for (size_t i : x.second) n += ev[i].k == UPDATE; req(n == (r ? 1 : 0), {"C05", "C08"}, "controller #" + std::to_string(x.first) + " updated " + std::to_string(n) + " times in a cycle it " + (r ? "runs" : "does not run")); }
    size_t firstStart = SIZE_MAX, firstStop = SIZE_MAX, lastStop = 0; for (auto& x : seq) { bool upd = reset == false; for (size_t i : x.second) { if (ev[i].k == UPDATE) { upd = true; continue; } if (!upd) continue; if (ev[i].k == STARTING) firstStart = std::min(firstStart, i); if (ev[i].k == STOPPING) { firstStop = std::min(firstStop, i); lastStop = std::max(lastStop, i); } } }
    if (!reset) { req(firstStart == SIZE_MAX && firstStop == SIZE_MAX || doPos != SIZE_MAX || shutdown, {"C03"}, "controllers were stopped or started without the hardware being told to switch"); req(doPos == SIZE_MAX || (doPos < firstStart && doPos < firstStop), {"C03"}, "a controller was stopped or started before the hardware was switched"); req(firstStart == SIZE_MAX || lastStop < firstStart, {"C03"}, "a controller was started before another was stopped"); }
    std::vector<int> now; for (size_t i = 0; i < insts.size(); ++i) if (insts[i].alive && insts[i].st == "running") now.push_back((int)i); if (!customPolicy) req(!conflict(now), {"C01"}, "two running controllers claim one resource");
    return; }
  if (doPos != SIZE_MAX) {
    req(p && p->known && !p->refuse && p->prepared == 1, {"C03", "C02"}, "the hardware was told to switch without an accepted request"); if (drained) return;
    req(!p->started, {"C03"}, "the hardware was told twice to perform one switch"); p->started = true; ++p->done; p->hi = sc.rtAtomic ? prevNow : ros::shim::rosNow(); first = true;
    std::list<ControllerInfo> a, b; for (auto& m : model) { if (p->S.count(m.inst)) a.push_back(info(m)); if (p->T.count(m.inst)) b.push_back(info(m)); }
    req(ev[doPos].start == infoList(a) && ev[doPos].stop == infoList(b), {"C03"}, "doSwitch was given start " + show(ev[doPos].start) + " stop " + show(ev[doPos].stop) + ", expected start " + show(infoList(a)) + " stop " + show(infoList(b)));
  }
  bool processed = p && (first || already); size_t lastStop = 0, firstStart = SIZE_MAX, firstStop = SIZE_MAX;
  std::set<int> all; for (auto& x : seq) all.insert(x.first); for (int r : run) all.insert(r); if (p) { all.insert(p->S.begin(), p->S.end()); all.insert(p->T.begin(), p->T.end()); }
  for (int c : all) {
    auto& q = seq[c]; size_t k = 0; std::string who = "controller " + nameOf(c); bool r = std::find(run.begin(), run.end(), c) != run.end(); std::vector<Kind> base; if (r) { if (reset) { base.push_back(STOPPING); base.push_back(STARTING); } base.push_back(UPDATE); }
    auto got = [&] { std::vector<std::string> o; for (size_t i : q) o.push_back(kindName(ev[i].k)); return show(o); };
    for (Kind b : base) { req(k < q.size() && ev[q[k]].k == b, {"C05"}, who + " runs" + (reset ? ", the cycle has a reset" : "") + ", calls in this cycle: " + got()); if (drained) return; req(ev[q[k]].t == t && (b != UPDATE || ev[q[k]].p == period), {"C05"}, who + ": wrong time or period in " + kindName(b)); ++k; }
    updatesN += r; size_t rest = q.size() - k;
    for (size_t j = k; j < q.size(); ++j) { auto& e = ev[q[j]]; req(e.k != UPDATE, {"C05"}, who + (r ? " was updated twice" : " was updated though it does not run")); req(e.t == t, {"C03"}, who + ": " + kindName(e.k) + " with time " + std::to_string(e.t) + " in the cycle of " + std::to_string(t)); }
    if (drained) return;
    if (processed && first && p->T.count(c)) { req(rest >= 1, {"C02"}, who + " was not stopped by the switch"); req(rest == 1 && ev[q[k]].k == STOPPING, {"C02", "C03"}, who + " is to be stopped, calls in this cycle: " + got()); if (drained) return; firstStop = std::min(firstStop, q[k]); lastStop = std::max(lastStop, q[k]); continue; }
    if (processed && p->S.count(c)) {
      SwitchState a = p->asap && answers.count(nameOf(c)) ? answers[nameOf(c)] : answer; std::set<Kind> allowed; double hi = t - 1e-9 * p->lo, lo = t - 1e-9 * p->hi;
      if (a == SwitchState::DONE) allowed.insert(STARTING); else if (a == SwitchState::ERROR) allowed.insert(ABORTING); else { if (p->timeout > 0 && hi > p->timeout - 1e-6) allowed.insert(ABORTING); if (!(p->timeout > 0 && lo > p->timeout + 1e-6)) allowed.insert(WAITING); }
      // a controller aborted while others are pending may stay so, or follow the next answer
      if (p->asap && p->aborted.count(c)) { if (rest == 0) continue; }
      else if (p->asap && p->settled.count(c)) { req(rest == 0, {"C04", "C02", "C05"}, who + " was already started by this switch, calls in this cycle: " + got()); if (drained) return; continue; }
      std::vector<std::string> al; for (Kind x : allowed) al.push_back(kindName(x));
      req(rest == 1, rest == 0 && a == SwitchState::DONE && !p->late ? std::set<std::string>{"C04", "C02"} : std::set<std::string>{"C04", "C03", "C02"}, who + " is to be started, calls in this cycle: " + got() + ", expected one of " + show(al)); if (drained) return;
      auto& e = ev[q[k]]; bool okk = allowed.count(e.k) > 0; req(okk, readyHw ? std::set<std::string>{"C02", "C04"} : std::set<std::string>{"C04"}, who + " is to be started, calls in this cycle: " + got() + ", expected one of " + show(al)); if (drained) return;
      firstStart = std::min(firstStart, q[k]); if (e.k == STARTING || e.k == ABORTING) p->settled.insert(c); else p->settled.erase(c); if (e.k == ABORTING) p->aborted.insert(c); else p->aborted.erase(c); if (e.k == WAITING) { p->anyWaiting = true; ++waitedN; } if (e.k == ABORTING) { p->anyAborted = true; ++abortedN; } p->outcome.insert(kindName(e.k)); continue; }
    req(rest == 0, {"C02", "C05"}, who + " has no part in a switch now, calls in this cycle: " + got()); if (drained) return;
  }
  if (processed) {
    if (first) { req(firstStop == SIZE_MAX || doPos < firstStop, {"C03"}, "a controller was stopped before the hardware was switched"); req(firstStart == SIZE_MAX || doPos < firstStart, {"C03"}, "a controller was started before the hardware was switched"); req(firstStart == SIZE_MAX || firstStop == SIZE_MAX || lastStop < firstStart, {"C03"}, "a controller was started before another was stopped"); }
    if (p->S.empty() || p->settled.size() == p->S.size()) p->finished = true;
  }
  if (!customPolicy) { std::vector<int> now; for (size_t i = 0; i < insts.size(); ++i) if (insts[i].alive && insts[i].st == "running") now.push_back((int)i); req(!conflict(now), {"C01"}, "two running controllers claim one resource"); }
}
inline void World::rtBody() { for (; rtDelay > 0 && clients > 0; --rtDelay) sched::yieldHard("before the first cycle"); while (clients > 0) { if (pend && pend->stallAfter > 0 && pend->started && !pend->finished && pend->cyclesSince + 1 >= pend->stallAfter && rtRun) { rtRun = false; pend->stalled = true; if (s.verbose) s.note("    (the control loop stalls)"); } if (rtRun) cycle(); else sched::wall() += 20000000; sched::yieldHard("end of cycle"); } }
inline void World::predict(Pending& p, const std::vector<std::string>& start, const std::vector<std::string>& stop, int strictness)
{
  bool strict = p.strict = strictness == 2; auto refuse = [&](const char* r) { if (!p.refuse) { p.refuse = true; p.reason = r; } };
  std::set<int> S, T; for (auto& n : stop) { MC* m = find(n); if (!m) { if (strict) refuse("unknown controller"); } else T.insert(m->inst); } for (auto& n : start) { MC* m = find(n); if (!m) { if (strict) refuse("unknown controller"); } else S.insert(m->inst); }
  for (auto& m : model) { bool t = T.count(m.inst), st = S.count(m.inst), r = running(m); if (t && !r) { if (strict) refuse("not running"); t = false; } if (r && !t && st) { if (strict) refuse("already running"); st = false; } if (t && st) refuse("start and stop"); if (t) p.T.insert(m.inst); if (st) p.S.insert(m.inst); }
  if (p.refuse) return; std::vector<int> after; for (auto& m : model) if ((running(m) && !p.T.count(m.inst)) || p.S.count(m.inst)) after.push_back(m.inst);
  if (customPolicy ? conflictAnswer : conflict(after)) refuse("conflict"); else if (!prepareAnswer) refuse("prepare");
}
}

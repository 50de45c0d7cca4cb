// C01..C11: histories of requests to a ControllerManager whose control loop runs in another thread.
#include "cm_world.h"
#include <algorithm>
#include <controller_manager_msgs/ListControllerTypes.h>
#include <controller_manager_msgs/ListControllers.h>
#include <controller_manager_msgs/LoadController.h>
#include <controller_manager_msgs/ReloadControllerLibraries.h>
#include <controller_manager_msgs/SwitchController.h>
#include <controller_manager_msgs/UnloadController.h>
using namespace cmw; using namespace controller_manager_msgs;
typedef std::vector<std::string> Names; typedef std::set<std::string> Tags;

namespace {
// ---- talking to the manager -------------------------------------------------------------------
struct Escaped { std::string what; };
template <class F> auto guarded(F f) -> decltype(f())
{ try { return f(); } catch (const pbt::Failure&) { throw; } catch (const std::exception& e) { throw Escaped{std::string("exception: ") + e.what()}; } catch (...) { throw Escaped{"exception of an unknown type"}; } }
template <class M> typename M::Response service(World& w, const char* name, typename M::Request q)
{ typename M::Response r; bool ok = ros::shim::call<typename M::Request, typename M::Response>("/controller_manager/" + std::string(name), q, r); if (!ok) pbt::die(std::string("service ") + name + " is not offered or did not answer"); return r; }
bool doLoad(World& w, const std::string& n, bool srv) { return guarded([&] { if (!srv) return (bool)w.cm->loadController(n); LoadController::Request q; q.name = n; return (bool)service<LoadController>(w, "load_controller", q).ok; }); }
bool doUnload(World& w, const std::string& n, bool srv) { return guarded([&] { if (!srv) return (bool)w.cm->unloadController(n); UnloadController::Request q; q.name = n; return (bool)service<UnloadController>(w, "unload_controller", q).ok; }); }
bool doSwitchReq(World& w, const Names& a, const Names& b, int strictness, bool asap, double timeout, bool srv)
{ return guarded([&] { if (!srv && !asap && timeout == 0) return (bool)w.cm->switchController(a, b, strictness); /* by default for all, however long it takes */ if (!srv) return (bool)w.cm->switchController(a, b, strictness, asap, timeout); SwitchController::Request q; q.start_controllers = a; q.stop_controllers = b; q.strictness = strictness; q.start_asap = asap; q.timeout = timeout; return (bool)service<SwitchController>(w, "switch_controller", q).ok; }); }
bool doReload(World& w, bool force) { return guarded([&] { ReloadControllerLibraries::Request q; q.force_kill = force; return (bool)service<ReloadControllerLibraries>(w, "reload_controller_libraries", q).ok; }); }
std::string claimStr(const Claims& c) { std::string o; for (auto& i : c) { if (i.second.empty()) continue; o += " " + i.first + "{"; for (auto& r : i.second) o += r + " "; o += "}"; } return o; }
Names doList(World& w)
{
  return guarded([&] { auto r = service<ListControllers>(w, "list_controllers", ListControllers::Request()); Names o;
    for (auto& c : r.controller) { std::map<std::string, std::vector<std::string>> m; for (auto& x : c.claimed_resources) { auto& v = m[x.hardware_interface]; v.insert(v.end(), x.resources.begin(), x.resources.end()); }
      std::string cl; for (auto& i : m) { if (i.second.empty()) continue; std::sort(i.second.begin(), i.second.end()); cl += " " + i.first + "{"; for (auto& x : i.second) cl += x + " "; cl += "}"; }
      o.push_back(c.name + " " + c.type + " " + c.state + cl); }
    return o; });
}
Names expectList(World& w) { Names o; for (auto& m : w.model) o.push_back(m.name + " " + m.type + " " + w.insts[m.inst].st + claimStr(w.insts[m.inst].claims)); return o; }

// ---- one client making requests one at a time, everything checked against the model -------------
struct Config {
  Tags own; size_t maxRes = 4, maxTypes = 5, maxNames = 6; unsigned minOps = 4, avgOps = 10; bool readyHw = true, messy = true, faults = false, badParams = false, loaders = false, resets = false, customPolicy = false, refuse = true, atomic = true, asap = true, slow = false, crawls = false, shutdown = false, direct = true;
  unsigned wLoad = 8, wUnload = 4, wSwitch = 12, wList = 2, wTypes = 0, wReload = 1, wCycles = 3, wParam = 1, wLoader = 0, wFind = 1; unsigned soft = 6;
};
struct Client {
  World& w; Src& s; const Config& c; Names pool; bool stop = false; int extraTypes = 0, extraLoaders = 0; bool looping = false; uint64_t loads = 0, loadFails = 0, unloads = 0, unloadsRefused = 0, reloads = 0, lists = 0, conflictsRefused = 0, timeouts = 0, partial = 0, lates = 0;
  std::vector<std::shared_ptr<FakeLoader>> keep;
  Client(World& w_, const Config& c_) : w(w_), s(w_.s), c(c_) {}

  bool srv() { return !c.direct || s.boolean(); }
  std::string name() { size_t k = s.index(pool.size() + (c.badParams ? 1 : 0)); if (k < pool.size()) return pool[k]; static const char* odd[] = {"bad name", "9lives", "a-b", "x//y"}; return odd[s.index(4)]; }
  std::string loadedName() { return w.model.empty() || s.chance(1, 5) ? name() : w.model[s.index(w.model.size())].name; }
  void finishCycle() { while (w.inCycle) sched::yieldHard("harness"); }
  void compare(Tags tags, const char* when)
  {
    if (w.drained || w.shutdown) return; Names e = expectList(w); tags.insert("C10"); Names g; try { g = doList(w); } catch (Escaped& x) { w.req(false, tags, std::string("list_controllers ") + when + ": " + x.what); return; }
    if (w.shutdown) return; e = expectList(w); w.req(g == e, tags, std::string("controllers ") + when + ": " + show(g) + ", expected " + show(e));
  }
  void preCheck() { if (w.own.count("C10")) compare({}, "before the request"); }

  void load()
  {
    std::string n = s.chance(1, 4) ? loadedName() : name(), err; bool viaSrv = srv(); int f = c.faults && s.chance(1, 3) ? 1 + (int)s.index(INIT_UNKNOWN_RESOURCE) : NONE; bool valid = true; try { ros::NodeHandle(ros::NodeHandle(w.ns), n); } catch (...) { valid = false; }
    std::string t = valid ? w.typeParam[n] : ""; bool known = false; for (auto& l : w.loaders) for (auto& d : l.second) known |= d == t;
    bool dup = w.find(n) != nullptr, expect = !dup && valid && !t.empty() && known && f == NONE; size_t insts0 = w.insts.size(), from = w.ev.size(); bool reply = false, escaped = false;
    NOTE("load " << n << " (type " << (t.empty() ? "none" : t) << ", " << faultName(f) << (dup ? ", loaded already" : "") << ") expected " << expect); w.fault = f; w.op = "load"; w.hangTags = {"C06", "C08", "C09"};
    try { reply = doLoad(w, n, viaSrv); } catch (Escaped& x) { escaped = true; err = x.what; }
    w.fault = NONE; if (w.shutdown) return; if (escaped) { w.req(false, {"C06"}, "load of " + n + " (" + faultName(f) + ") let an exception escape: " + err); return; }
    w.req(reply == expect, {"C06", "C10"}, "load of " + n + " answered " + std::to_string(reply) + ", expected " + std::to_string(expect) + " (type " + t + ", " + faultName(f) + (dup ? ", loaded already" : "") + ")"); if (w.drained) return;
    if (reply) { ++loads; int id = -1; for (size_t i = insts0; i < w.insts.size(); ++i) if (w.insts[i].alive) { w.req(id < 0, {"C06"}, "a load made two controllers"); id = (int)i; }
      w.req(id >= 0 && w.insts[id].type == t, {"C06", "C10"}, "a load succeeded without a controller of type " + t); if (w.drained) return; w.model.push_back({n, t, id}); newSet(from, CTOR, id, "load"); }
    else { ++loadFails; for (size_t i = insts0; i < w.insts.size(); ++i) w.req(!w.insts[i].alive, {"C06"}, "a failed load left a controller behind"); }
    compare({"C06"}, "after a load"); checkFind();
  }
  // the loop has moved to the set made by this request: a cycle began after it made its controller
  void newSet(size_t from, Kind k, int id, const char* what)
  {
    if (!looping || !w.anyCycle) return; size_t at = from; for (size_t i = from; i < w.ev.size(); ++i) if (w.ev[i].k == k && w.ev[i].inst == id) { at = i; break; }
    w.req(k == DTOR || !w.inCycle || w.cycleEv > at || w.sc.fine, {"C08"}, std::string(what) + " returned while the control loop is in a cycle that began with the old set of controllers");
  }
  void unload()
  {
    finishCycle(); if (w.shutdown) return;
    std::string n = loadedName(), err; bool viaSrv = srv(); MC* m = w.find(n); int id = m ? m->inst : -1; bool expect = m && !w.running(*m), reply = false, escaped = false; size_t from = w.ev.size(); NOTE("unload " << n << " expected " << expect); w.op = "unload"; w.hangTags = {"C07", "C08", "C09"};
    try { reply = doUnload(w, n, viaSrv); } catch (Escaped& x) { escaped = true; err = x.what; }
    if (w.shutdown) return; if (escaped) { w.req(false, {"C07"}, "unload of " + n + " let an exception escape: " + err); return; }
    w.req(reply == expect, {"C07", "C10"}, "unload of " + n + " answered " + std::to_string(reply) + ", expected " + std::to_string(expect)); if (w.drained) return;
    if (reply) { ++unloads; w.req(!w.insts[id].alive, {"C07", "C08"}, "controller " + n + " still exists after its unload"); for (size_t i = 0; i < w.model.size(); ++i) if (w.model[i].name == n) { w.model.erase(w.model.begin() + i); break; } newSet(from, DTOR, id, "unload"); } else ++unloadsRefused;
    for (auto& x : w.model) w.req(w.insts[x.inst].alive, {"C07", "C08"}, "controller " + x.name + " was destroyed by the unload of " + n);
    compare({"C07"}, "after an unload"); checkFind();
  }
  void drawLists(Names& a, Names& b)
  {
    Names run, rest; for (auto& m : w.model) (w.running(m) ? run : rest).push_back(m.name);
    if (c.messy && s.chance(1, 2)) { while (a.size() < 5 && s.more(3)) a.push_back(loadedName()); while (b.size() < 5 && s.more(3)) b.push_back(loadedName()); }
    else { b = s.subset(run); a = s.subset(rest); s.shuffle(a); s.shuffle(b); }
  }
  void doSwitch()
  {
    finishCycle(); if (w.shutdown) return; Pending p; Names a, b; drawLists(a, b); int strictness = (int)s.weighted({1, 4, 4}); bool asap = c.asap && s.boolean(); double timeout = 0; if (!c.readyHw && s.boolean()) timeout = 0.001 * (double)s.range(1, 800); bool viaSrv = srv();
    w.prepareAnswer = !(c.refuse && s.chance(1, 8)); w.conflictAnswer = c.customPolicy && s.chance(1, 4); w.predict(p, a, b, strictness);
    if (p.S.empty() && p.T.empty() && (p.reason == "prepare" || (p.reason == "conflict" && w.customPolicy))) { w.prepareAnswer = true; w.conflictAnswer = false; p = Pending(); w.predict(p, a, b, strictness); }
    p.asap = asap; p.timeout = timeout; bool stall = c.slow && !p.refuse && s.chance(1, 3); if (stall) { p.timeout = timeout = 0.5 * (double)s.range(1, 4); if (!c.readyHw) p.stallAfter = (int)s.index(4); }
    if (c.crawls && !p.refuse && s.boolean()) { w.crawling = true; p.timeout = timeout = 0.5 * (double)s.range(1, 4); }
    NOTE("switch start " << show(a) << " stop " << show(b) << " strictness " << strictness << (asap ? " asap" : "") << " timeout " << timeout << (p.refuse ? " to be refused: " + p.reason : std::string(" to be accepted")) << (!stall ? "" : p.stallAfter ? " (control loop stalls when waiting)" : " (control loop stalls)"));
    bool reply = false, escaped = false; std::string err; w.op = "switch"; w.hangTags = {"C02", "C03", "C04", "C09"}; bool loop = w.rtRun; std::map<int, std::string> before; for (auto& m : w.model) before[m.inst] = w.insts[m.inst].st; w.pend = &p; if (stall && !p.stallAfter) w.rtRun = false;
    try { reply = doSwitchReq(w, a, b, strictness, asap, timeout, viaSrv); } catch (Escaped& x) { escaped = true; err = x.what; }
    finishCycle(); w.pend = nullptr; w.crawling = false; w.rtRun = loop; w.prepareAnswer = true; w.conflictAnswer = false; if (w.shutdown || w.over || p.tainted) return; if (escaped) { w.req(false, {"C02"}, "a switch let an exception escape: " + err); return; }
    ++w.switchesDone; if (p.refuse) ++w.refused; if (p.reason == "conflict") ++conflictsRefused; if (asap && !p.S.empty() && !p.refuse) ++w.asapN; bool nothing = p.S.empty() && p.T.empty(); if (p.S.size() < a.size() && !p.refuse) ++partial;
    Tags decision = {"C02"}; if (p.reason == "conflict" || (!p.refuse && !reply)) decision.insert("C01"); if (p.reason == "prepare") decision.insert("C03");
    auto said = [&] { return std::string("the switch answered ") + (reply ? "true" : "false") + ", prepared " + std::to_string(p.prepared) + " performed " + std::to_string(p.done); };
    if (p.refuse) { w.req(!reply, decision, said() + ", but it must be refused: " + p.reason); w.req(p.prepared == (p.reason == "prepare" ? 1 : 0) && p.done == 0, {"C02", "C03"}, said() + ", but it must be refused: " + p.reason); }
    else if (p.stalled) { ++timeouts; w.req(!reply, {"C03", "C04"}, said() + " while controllers were still waiting to be started"); w.req(p.prepared == 1 && p.done == 1, {"C03"}, said());
      for (auto& m : w.model) { std::string st = w.insts[m.inst].st, who = "controller " + m.name + " is " + st + " after the switch that timed out"; if (p.S.count(m.inst)) w.req(st == "running" || st == "aborted" || st == "waiting", {"C04"}, who); else if (p.T.count(m.inst)) w.req(st == "stopped", {"C02"}, who + ", it was to be stopped"); else w.req(st == before[m.inst], {"C02", "C05"}, who + " but it was " + before[m.inst] + " and not in the switch"); } }
    else if (stall && !p.stallAfter) { ++timeouts; w.req(!reply, {"C03"}, said() + ", but the control loop never performed it"); w.req(nothing || p.prepared == 1, {"C03"}, said()); w.req(p.done == 0, {"C03"}, said()); }
    else if (p.late && ++lates && !reply) { s.label(p.done ? "late done" : "late not done"); ++timeouts; w.req(nothing || p.prepared == 1, {"C03"}, said()); w.req(p.done == 0, {"C03"}, said() + ": a switch that was given up was performed"); }
    else {
      w.req(reply || (p.strict && p.anyAborted), {"C02", "C01", "C03", "C04"}, said() + ", but it must be accepted"); if (w.drained) return;
      if (!nothing) { w.req(p.prepared == 1, {"C03"}, said() + ", the hardware must be told once to prepare"); w.req(p.started && p.done == 1, {"C03", "C02"}, said() + " before it was performed"); w.req(p.finished, {"C03", "C04"}, said() + " before it was finished"); }
      if (w.drained) return;
      for (auto& m : w.model) { std::string st = w.insts[m.inst].st, who = "controller " + m.name + " is " + st + " after the switch"; if (p.S.count(m.inst)) { if (p.anyAborted) w.req(st == "running" || st == "aborted", {"C04"}, who); else w.req(st == "running", {"C02", "C04"}, who + ", it was to be started"); } else if (p.T.count(m.inst)) w.req(st == "stopped", {"C02"}, who + ", it was to be stopped"); else w.req(st == before[m.inst], {"C02", "C05"}, who + " but it was " + before[m.inst] + " and not in the switch"); }
    }
    if (p.refuse || (stall && !p.stallAfter) || (p.late && !reply)) for (auto& m : w.model) w.req(w.insts[m.inst].st == before[m.inst], {"C02"}, "a switch that failed changed controller " + m.name + " from " + before[m.inst] + " to " + w.insts[m.inst].st);
    compare({"C02"}, "after a switch");
  }
  void list() { ++lists; NOTE("list"); w.op = "list"; w.hangTags = {"C10", "C09"}; compare({}, "listed"); }
  void checkFind() { if (w.own.count("C10") && !w.drained && !w.shutdown) find(name()); }
  void find(const std::string& n) { w.op = "find"; auto* p = w.cm->getControllerByName(n); if (w.shutdown) return; MC* m = w.find(n); w.req((p != nullptr) == (m != nullptr), {"C10", "C06", "C07"}, "looking up " + n + (p ? " found a controller" : " found nothing")); if (p && m && !w.drained) { auto* f = dynamic_cast<Fake*>(p); w.req(f && f->id == m->inst, {"C10"}, "looking up " + n + " found another controller"); } }
  void typesOp()
  {
    NOTE("list types"); w.op = "list types"; std::vector<std::string> g, e; ListControllerTypes::Response r; try { guarded([&] { r = service<ListControllerTypes>(w, "list_controller_types", ListControllerTypes::Request()); return 0; }); } catch (Escaped& x) { w.req(false, {"C10"}, x.what); return; }
    w.req(r.types.size() == r.base_classes.size(), {"C10"}, "types and base classes differ in number"); if (w.drained) return; for (size_t i = 0; i < r.types.size(); ++i) g.push_back(r.types[i] + " of " + r.base_classes[i]); for (auto& l : w.loaders) for (auto& d : l.second) e.push_back(d + " of " + l.first); std::sort(g.begin(), g.end()); std::sort(e.begin(), e.end()); w.req(g == e, {"C10", "C11"}, "types " + show(g) + ", expected " + show(e));
  }
  void reload()
  {
    finishCycle(); if (w.shutdown) return; bool force = s.chance(2, 3); if (w.model.empty() == false && !looping && force) return; Names all; for (auto& m : w.model) all.push_back(m.name); Pending p; w.prepareAnswer = !(c.refuse && s.chance(1, 6)); w.conflictAnswer = false; p.known = true;
    if (force && !all.empty()) w.predict(p, {}, all, 1); if (p.T.empty()) { w.prepareAnswer = true; p = Pending(); }
    bool expect = all.empty() || (force && !p.refuse), reply = false, escaped = false; std::string err; bool killing = force && !all.empty(); size_t from = w.ev.size(); NOTE("reload" << (force ? " with force" : "") << " expected " << expect); w.op = "reload"; w.hangTags = {"C11", "C09"}; w.pend = killing ? &p : nullptr; std::map<int, std::string> before; for (auto& m : w.model) before[m.inst] = w.insts[m.inst].st;
    try { reply = doReload(w, force); } catch (Escaped& x) { escaped = true; err = x.what; }
    finishCycle(); w.pend = nullptr; w.prepareAnswer = true; if (w.shutdown || w.drained) return; if (escaped) { w.req(false, {"C11"}, "reload let an exception escape: " + err); return; }
    w.req(reply == expect, {"C11"}, "reload" + std::string(force ? " with force" : "") + " answered " + std::to_string(reply) + " with " + std::to_string(all.size()) + " controllers loaded"); if (w.drained) return; ++reloads;
    size_t lastDtor = 0; size_t firstReload = SIZE_MAX; std::map<std::string, int> count; for (size_t i = from; i < w.ev.size(); ++i) { if (w.ev[i].k == DTOR) lastDtor = i; if (w.ev[i].k == RELOAD) { firstReload = std::min(firstReload, i); ++count[w.ev[i].what]; } }
    if (!reply) { w.req(firstReload == SIZE_MAX, {"C11"}, "a refused reload reloaded a loader"); for (auto& m : w.model) { w.req(w.insts[m.inst].alive, {"C11"}, "a refused reload destroyed controller " + m.name); w.req(w.insts[m.inst].st == before[m.inst], {"C11"}, "a refused reload changed controller " + m.name); } }
    else { for (auto& m : w.model) { w.req(!w.insts[m.inst].alive, {"C11"}, "controller " + m.name + " survived the reload"); } if (killing && !p.T.empty()) w.req(p.done == 1 && p.prepared == 1, {"C11", "C03"}, "running controllers were not stopped by one switch before the reload");
      w.req(firstReload == SIZE_MAX || lastDtor < firstReload || lastDtor == 0, {"C11"}, "a loader was reloaded before all controllers were destroyed"); for (auto& l : w.loaders) w.req(count[l.first] == 1, {"C11"}, "loader " + l.first + " was reloaded " + std::to_string(count[l.first]) + " times"); w.model.clear(); w.refreshLoaders(); }
    compare({"C11"}, "after a reload"); if (w.own.count("C11")) typesOp();
  }
  void addLoader()
  {
    if (extraLoaders >= 3) return; auto l = std::make_shared<FakeLoader>("loader" + std::to_string(extraLoaders++)); std::vector<std::string> d; for (auto& t : w.types) if (s.chance(1, 4)) d.push_back(t.name);
    if (s.boolean()) { Type t; t.name = "ext/E" + std::to_string(extraTypes++); t.claims = w.genClaims(w.hw->cells.size()); w.typeIdx[t.name] = (int)w.types.size(); w.types.push_back(t); d.push_back(t.name); }
    s.shuffle(d); l->declared = d; keep.push_back(l); w.cm->registerControllerLoader(l); w.loaders.push_back({l->getName(), d}); NOTE("register " << l->getName() << " declaring " << show(d));
  }
  void cycles() { size_t n = 1 + s.index(3); for (size_t i = 0; i < n; ++i) sched::yieldHard("cycles"); }
  void newType() { std::string n = w.addType(); NOTE("a library with " << n << " is installed"); }
  // after a deviation that other properties judge: go on from what is there
  void resync()
  {
    w.dirty = false; finishCycle(); if (w.shutdown) return; NOTE("(going on from the controllers that are there)"); w.model.clear(); w.op = "list";
    try { auto r = guarded([&] { return service<ListControllers>(w, "list_controllers", ListControllers::Request()); }); for (auto& x : r.controller) { auto* f = dynamic_cast<Fake*>(guarded([&] { return w.cm->getControllerByName(x.name); })); if (!f || !w.insts[f->id].alive) { w.over = true; return; } w.model.push_back({x.name, x.type, f->id}); } } catch (Escaped&) { w.over = true; }
  }
  void step()
  {
    w.drained = false; if (w.dirty) resync(); if (w.over || w.shutdown) return; if (c.wList) preCheck();
    switch (s.weighted({c.wCycles + 1, c.wLoad, c.wSwitch, c.wUnload, c.wList, c.wFind, c.wParam, c.wTypes, c.wReload, c.wLoader, c.wReload})) {
      case 0: cycles(); break; case 1: load(); break; case 2: if (looping) doSwitch(); else load(); break; case 3: unload(); break; case 4: list(); break; case 5: find(name()); break;
      case 6: { std::string n = pool[s.index(pool.size())]; w.setTypeParam(n, c.badParams && s.chance(1, 3) ? 1 + (int)s.index(5) : 0); NOTE("parameter " << n << "/type = " << w.typeParam[n]); break; }
      case 7: typesOp(); break; case 8: reload(); break; case 9: addLoader(); break; default: newType(); break; }
  }
  void run()
  {
    try {
      if (s.chance(1, 6)) { w.rtRun = false; size_t n = 1 + s.index(3); for (size_t i = 0; i < n && !w.over; ++i) s.boolean() ? load() : unload(); w.rtRun = true; }
      sched::yieldHard("start of the loop"); looping = true; size_t first = 1 + s.index(4); for (size_t i = 0; i < first && !w.over && !w.shutdown; ++i) { w.drained = false; if (w.dirty) resync(); load(); }
      for (unsigned i = 0; (i < c.minOps || s.more(c.avgOps)) && i < 60 && !w.over && !w.shutdown; ++i) step();
      if (!w.over && !w.shutdown) { w.drained = false; if (w.dirty) resync(); w.pend = nullptr; cycles(); if (!w.shutdown) { finishCycle(); compare({}, "at the end"); } }
    } catch (const pbt::Failure& f) { pbt::die(f.msg); }
    --w.clients;
  }
};
void hang(World& w)
{ static int n; std::string m = w.op + " has not returned after " + std::to_string(w.sc.steps) + " steps of the schedule"; if (w.sc.steps >= 3 * w.sc.limit) pbt::die(m + ", nor after a shutdown"); w.req(w.shutdown, w.hangTags, m); w.drained = w.over = true; ros::shim::okFlag() = false; (void)n; }

void finish(World& w, Client& cl)
{
  Src& s = w.s; if (w.foreign || w.over) s.discard();
  if (w.switchesDone) s.label("switches"); if (w.refused) s.label("refused switches"); if (w.abortedN) s.label("aborted controllers"); if (w.waitedN) s.label("waiting controllers"); if (w.asapN) s.label("start asap"); if (w.resetsRunning) s.label("resets of running controllers"); if (cl.loadFails) s.label("refused loads"); if (cl.unloads) s.label("unloads"); if (cl.unloadsRefused) s.label("refused unloads"); if (cl.reloads) s.label("reloads"); if (cl.conflictsRefused) s.label("resource conflicts"); if (cl.timeouts) s.label("stalled control loop"); if (cl.partial) s.label("partly applied switches"); if (w.shutdown) s.label("shutdown"); if (cl.loads > 2) s.label("3 or more loads");
}
// runs one history; the caller states what makes it non-trivial
template <class F> void history(Src& s, const Config& c, F nontrivial)
{
  pbt::drawSpelling(s); bool many = s.chance(1, 30);
  World w(s, c.own); w.readyHw = c.readyHw; w.randomResets = c.resets; w.customPolicy = c.customPolicy; w.sc.s = &s; w.sc.limit = 20000; w.sc.softDen = c.atomic ? 4 * c.soft : c.soft; w.sc.rtAtomic = c.atomic; if (!c.atomic && s.boolean()) { w.sc.fine = s.oneof<int>({6, 20, 60, 200, 1000}); w.sc.limit *= 10; if (s.boolean()) w.rtDelay = s.index(100); } if (!c.atomic && s.boolean()) w.slowOdds = 6 + 4 * (unsigned)s.index(8);
  Config big = c; if (many) { big.minOps += 30; big.maxNames = 24; big.maxRes += 8; w.sc.limit *= 2; } Client cl(w, big); size_t n = 2 + s.index(big.maxNames - 1); for (size_t i = 0; i < n; ++i) cl.pool.push_back(ctlName(i)); if (c.badParams) cl.pool.push_back("ns/x");
  w.setup(1 + s.index(big.maxRes), 1 + s.index(c.maxTypes), cl.pool, c.badParams ? 4 : 0);
  if (c.wList && s.boolean() && c.wTypes) cl.typesOp();
  sched::Thread client, rt, killer; client.body = [&] { cl.run(); }; rt.rt = true; rt.body = [&] { try { w.rtBody(); } catch (const pbt::Failure& f) { pbt::die(f.msg); } };
  w.clients = 1; w.sc.th = {&client, &rt}; w.sc.onBlock = [&](const char* where) { if (sched::me >= 0 && w.sc.th[sched::me]->rt && w.inCycle) w.req(false, {"C08"}, std::string("the control loop had to wait (") + where + ")"); }; w.sc.onHang = [&] { hang(w); };
  size_t after = 0; if (c.shutdown) { after = 1 + s.index(400); killer.body = [&] { while (w.clients > 0 && after > 0) { --after; sched::yieldHard("harness"); } if (w.clients > 0) { NOTE("shutdown"); w.shutdown = true; w.multi = true; ros::shim::okFlag() = false; } }; w.sc.th.push_back(&killer); }
  sched::run(w.sc);
  finish(w, cl); if (w.sc.preempted > 1) s.label("preempted between memory accesses"); if (nontrivial(w, cl)) s.nontrivial();

}

// ---- several clients at once: some order of the requests explains all replies --------------------
struct MOp { int kind = 0; std::string name; Names a, b; int strictness = 1; bool asap = false, srv = true, force = false, reply = false; Names list; uint64_t begin = 0, end = 0;
  std::string str() const { static const char* k[] = {"load", "unload", "switch", "list", "find", "reload"}; std::ostringstream o; o << k[kind]; if (kind == 0 || kind == 1 || kind == 4) o << " " << name; if (kind == 2) o << " start " << show(a) << " stop " << show(b) << " strictness " << strictness << (asap ? " asap" : ""); if (kind == 5 && force) o << " with force"; if (srv) o << " (service)"; o << " -> "; if (kind == 3) o << show(list); else o << reply; return o.str(); } };
struct SC { std::string name, type, st; };
struct Explain {
  World& w; std::vector<std::vector<MOp>>& ops; uint64_t tried = 0;
  bool clash(const std::vector<SC>& m, const std::set<std::string>& running) { std::map<std::string, int> n; for (auto& c : m) if (running.count(c.name)) for (auto& i : w.types[w.typeIdx[c.type]].claims) for (auto& r : i.second) if (++n[r] > 1) return true; return false; }
  static SC* find(std::vector<SC>& m, const std::string& n) { for (auto& c : m) if (c.name == n) return &c; return nullptr; }
  // executes op alone on m; false when its recorded reply is another one
  bool apply(std::vector<SC>& m, const MOp& o)
  {
    switch (o.kind) {
      case 0: { std::string t = w.typeParam[o.name]; bool ok = !find(m, o.name) && w.typeIdx.count(t); if (ok) m.push_back({o.name, t, "initialized"}); return ok == o.reply; }
      case 1: { SC* c = find(m, o.name); bool ok = c && c->st != "running"; if (ok) m.erase(m.begin() + (c - m.data())); return ok == o.reply; }
      case 2: { bool ok = true, strict = o.strictness == 2; for (auto& n : o.a) if (!find(m, n) && strict) ok = false; for (auto& n : o.b) if (!find(m, n) && strict) ok = false; std::set<std::string> S, T, run;
        for (auto& c : m) { bool st = std::count(o.a.begin(), o.a.end(), c.name), sp = std::count(o.b.begin(), o.b.end(), c.name), r = c.st == "running"; if (sp && !r) { if (strict) ok = false; sp = false; } if (r && !sp && st) { if (strict) ok = false; st = false; } if (st && sp) ok = false; if (st) S.insert(c.name); if (sp) T.insert(c.name); if ((r && !sp) || st) run.insert(c.name); }
        if (ok && clash(m, run)) ok = false; if (ok) for (auto& c : m) { if (S.count(c.name)) c.st = "running"; if (T.count(c.name)) c.st = "stopped"; } return ok == o.reply; }
      case 3: { Names e; for (auto& c : m) e.push_back(c.name + " " + c.type + " " + c.st + claimStr(w.types[w.typeIdx[c.type]].claims)); return e == o.list; }
      case 4: return (find(m, o.name) != nullptr) == o.reply;
      default: { bool ok = m.empty() || o.force; if (ok) m.clear(); return ok == o.reply; } }
  }
  bool search(std::vector<size_t>& at, const std::vector<SC>& m)
  {
    if (++tried > 200000) return true; bool left = false;
    for (size_t c = 0; c < ops.size(); ++c) { if (at[c] == ops[c].size()) continue; left = true; auto& o = ops[c][at[c]]; bool ok = true; for (size_t d = 0; d < ops.size() && ok; ++d) if (d != c && at[d] < ops[d].size() && ops[d][at[d]].end < o.begin) ok = false; if (!ok) continue;
      std::vector<SC> n = m; if (!apply(n, o)) continue; ++at[c]; if (search(at, n)) return true; --at[c]; }
    return !left;
  }
};
void concurrent(Src& s, Tags own, size_t maxClients, size_t maxOps, bool reloads)
{
  pbt::drawSpelling(s); World w(s, own); w.multi = true; w.maxDtMs = 20; w.sc.s = &s; w.sc.limit = 60000; w.sc.rtAtomic = false; w.sc.softDen = 2 + (unsigned)s.index(8); if (s.boolean()) { w.sc.fine = s.oneof<int>({6, 20, 60, 200, 1000}); w.sc.limit *= 10; if (s.boolean()) w.rtDelay = s.index(100); } w.hangTags = {"C09", "C08", "C03"}; w.op = "some request"; w.randomResets = s.chance(1, 4); if (s.boolean()) w.slowOdds = 6 + 4 * (unsigned)s.index(8);
  size_t n = 1 + s.index(4); Names pool; for (size_t i = 0; i < n; ++i) pool.push_back(ctlName(i)); w.setup(1 + s.index(3), 1 + s.index(3), pool, 8);
  std::vector<std::vector<MOp>> ops(2 + s.index(maxClients - 1)); uint64_t clock = 0; bool overlap = false; int open = 0; bool allSrv = s.boolean(); std::vector<MOp> first;
  auto draw = [&](bool setup) { MOp o; o.srv = allSrv || s.boolean(); o.name = pool[s.index(n)]; o.strictness = (int)s.weighted({4, 4, 1}) + 1; if (o.strictness == 3) o.strictness = 0; o.asap = s.boolean(); o.force = s.chance(3, 4); o.kind = setup ? (int)s.weighted({3, 0, 2}) : (int)s.weighted({4, 3, 6, 2, 1, reloads ? 1u : 0u}); if (o.kind == 2) { o.a = s.subset(pool); o.b = setup ? Names() : s.subset(pool); if (setup) o.strictness = 1; } return o; };
  auto exec = [&](MOp& o) { o.begin = ++clock; if (open++) overlap = true; try { switch (o.kind) { case 0: o.reply = doLoad(w, o.name, o.srv); break; case 1: o.reply = doUnload(w, o.name, o.srv); break; case 2: o.reply = doSwitchReq(w, o.a, o.b, o.strictness, o.asap, 0, o.srv); break; case 3: o.list = doList(w); break; case 4: o.reply = w.cm->getControllerByName(o.name) != nullptr; break; default: o.reply = doReload(w, o.force); } } catch (Escaped& x) { w.req(false, {"C09", "C08"}, o.str() + ": " + x.what); } --open; o.end = ++clock; NOTE("  " << o.str()); };
  size_t nf = s.index(5); for (size_t i = 0; i < nf; ++i) first.push_back(draw(true));
  for (auto& v : ops) { size_t k = 1 + s.index(maxOps); for (size_t i = 0; i < k; ++i) v.push_back(draw(false)); }
  std::vector<sched::Thread> cl(ops.size()); sched::Thread rt; bool ready = false; w.clients = (int)ops.size();
  for (size_t c = 0; c < ops.size(); ++c) { cl[c].body = [&, c] { try { if (c == 0) { for (auto& o : first) exec(o); ready = true; } else while (!ready) sched::yieldHard("harness"); for (auto& o : ops[c]) { if (w.over) break; w.drained = false; NOTE("client " << c << " sends " << o.str()); exec(o); } } catch (const pbt::Failure& f) { pbt::die(f.msg); } --w.clients; }; w.sc.th.push_back(&cl[c]); }
  rt.rt = true; rt.body = [&] { try { w.rtBody(); } catch (const pbt::Failure& f) { pbt::die(f.msg); } }; w.sc.th.push_back(&rt);
  w.sc.onBlock = [&](const char* where) { if (sched::me >= 0 && w.sc.th[sched::me]->rt && w.inCycle) w.req(false, {"C08"}, std::string("the control loop had to wait (") + where + ")"); }; w.sc.onHang = [&] { hang(w); };
  sched::run(w.sc); if (w.over) s.discard(); w.drained = false;
  // the final state, as listed afterwards
  MOp last; last.kind = 3; last.srv = true; last.begin = ++clock; last.list = doList(w); last.end = ++clock; std::vector<std::vector<MOp>> all = ops; all.push_back({last}); if (!first.empty()) all.push_back(first); std::vector<size_t> at(all.size(), 0); Explain e{w, all};
  if (!e.search(at, {})) { std::string m = "no order of the requests explains their replies:"; for (auto& o : first) m += "\n  first: " + o.str(); for (size_t c = 0; c < ops.size(); ++c) for (auto& o : ops[c]) m += "\n  client " + std::to_string(c) + ": " + o.str(); m += "\n  at the end: " + last.str(); w.req(false, {"C09"}, m); }
  if (w.foreign) s.discard(); if (overlap) s.label("requests overlap"); if (w.sc.preempted > 1) s.label("preempted between memory accesses"); int kinds[6] = {}, good = 0; for (auto& v : ops) for (auto& o : v) { ++kinds[o.kind]; good += o.reply; } if (kinds[5]) s.label("reloads"); if (kinds[2]) s.label("switches"); if (overlap && good) s.nontrivial();
}

Config base(const char* id) { Config c; c.own = {id}; return c; }
}

PROPERTY(C01, histories, "a switch is refused for a resource conflict, and controllers run", 2500, 40000)
{ Config c = base("C01"); c.wUnload = 2; c.maxRes = 3; history(s, c, [](World& w, Client& cl) { return cl.conflictsRefused && w.updatesN; }); }
PROPERTY(C01, resets_and_waiting, "controllers run and one waits or is aborted", 1500, 25000)
{ Config c = base("C01"); c.wUnload = 2; c.maxRes = 3; c.resets = true; c.readyHw = false; c.slow = true; history(s, c, [](World& w, Client&) { return w.updatesN && (w.waitedN || w.abortedN); }); }
PROPERTY(C01, schedules, "a switch is refused for a resource conflict, and controllers run", 2000, 40000)
{ Config c = base("C01"); c.wUnload = 2; c.maxRes = 3; c.atomic = false; c.resets = s.boolean(); history(s, c, [](World& w, Client& cl) { return cl.conflictsRefused && w.updatesN; }); }
PROPERTY(C02, histories, "a switch starts or stops something, another is refused or applied in part", 4000, 60000)
{ Config c = base("C02"); history(s, c, [](World& w, Client& cl) { return w.updatesN && (w.refused || cl.partial); }); }
PROPERTY(C02, custom_policy, "a switch starts or stops something, another is refused", 1500, 25000)
{ Config c = base("C02"); c.customPolicy = true; history(s, c, [](World& w, Client&) { return w.updatesN && w.refused; }); }
PROPERTY(C02, after_failures, "a controller was aborted", 1500, 25000)
{ Config c = base("C02"); c.readyHw = false; c.resets = true; c.slow = s.boolean(); history(s, c, [](World& w, Client&) { return w.abortedN > 0; }); }
PROPERTY(C03, histories, "three or more switches", 3000, 50000)
{ Config c = base("C03"); c.readyHw = s.boolean(); history(s, c, [](World& w, Client&) { return w.switchesDone >= 3 && w.updatesN; }); }
PROPERTY(C03, schedules, "two or more switches", 2000, 40000)
{ Config c = base("C03"); c.atomic = false; history(s, c, [](World& w, Client&) { return w.switchesDone >= 2 && w.updatesN; }); }
PROPERTY(C03, stalled_loop, "the control loop stalls in a switch", 1500, 20000)
{ Config c = base("C03"); c.slow = true; c.readyHw = s.boolean(); history(s, c, [](World&, Client& cl) { return cl.timeouts > 0; }); }
PROPERTY(C03, slow_cycles, "a cycle takes longer than a request waits", 1500, 20000)
{ Config c = base("C03"); c.atomic = false; c.crawls = true; history(s, c, [](World&, Client& cl) { return cl.lates > 0; }); }
PROPERTY(C04, histories, "a controller waits or is aborted", 5000, 80000)
{ Config c = base("C04"); c.readyHw = false; c.messy = s.chance(1, 3); c.wUnload = 2; c.slow = s.chance(1, 4); history(s, c, [](World& w, Client&) { return w.waitedN || w.abortedN; }); }
PROPERTY(C04, schedules, "a controller waits or is aborted", 1500, 30000)
{ Config c = base("C04"); c.readyHw = false; c.atomic = false; c.wUnload = 2; history(s, c, [](World& w, Client&) { return w.waitedN || w.abortedN; }); }
PROPERTY(C05, histories, "running controllers are updated, some with a reset", 3000, 50000)
{ Config c = base("C05"); c.resets = true; c.readyHw = s.boolean(); c.wCycles = 10; c.slow = s.chance(1, 4); history(s, c, [](World& w, Client&) { return w.updatesN && w.resetsRunning; }); }
PROPERTY(C05, schedules, "running controllers are updated", 1500, 25000)
{ Config c = base("C05"); c.resets = s.boolean(); c.atomic = false; history(s, c, [](World& w, Client&) { return w.updatesN > 3; }); }
PROPERTY(C06, histories, "a load succeeds and another is refused", 4000, 60000)
{ Config c = base("C06"); c.faults = c.badParams = c.loaders = true; c.wLoad = 20; c.wLoader = 2; c.wParam = 4; c.wFind = 2; c.wSwitch = 6; history(s, c, [](World&, Client& cl) { return cl.loads && cl.loadFails; }); }
PROPERTY(C07, histories, "an unload succeeds and another is refused", 3000, 50000)
{ Config c = base("C07"); c.wUnload = 12; c.readyHw = s.boolean(); c.slow = s.chance(1, 4); history(s, c, [](World&, Client& cl) { return cl.unloads && cl.unloadsRefused; }); }
PROPERTY(C07, schedules, "an unload succeeds", 1500, 30000)
{ Config c = base("C07"); c.wUnload = 12; c.atomic = false; history(s, c, [](World&, Client& cl) { return cl.unloads > 0; }); }
PROPERTY(C08, schedules, "controllers are loaded and unloaded while others run", 4000, 80000)
{ Config c = base("C08"); c.atomic = false; c.soft = 2 + s.index(6); c.wLoad = 12; c.wUnload = 12; c.wSwitch = 8; c.resets = s.chance(1, 4); history(s, c, [](World& w, Client& cl) { return cl.unloads && w.updatesN; }); }
PROPERTY(C08, shutdown, "the node shuts down with controllers loaded", 3000, 60000)
{ Config c = base("C08"); c.atomic = false; c.soft = 2 + s.index(4); c.wLoad = 12; c.wUnload = 12; c.shutdown = true; c.minOps = 12; history(s, c, [](World& w, Client& cl) { return w.shutdown && cl.loads; }); }
PROPERTY(C10, histories, "controllers in different states are listed", 3000, 50000)
{ Config c = base("C10"); c.faults = c.badParams = true; c.readyHw = false; c.wList = 8; c.wTypes = 3; c.wLoader = 2; c.wFind = 4; c.resets = true; history(s, c, [](World& w, Client& cl) { return cl.lists && cl.loads > 1 && w.switchesDone; }); }
PROPERTY(C11, histories, "a reload with controllers loaded", 3000, 50000)
{ Config c = base("C11"); c.wReload = 8; c.wLoader = 3; c.wTypes = 2; c.minOps = 8; history(s, c, [](World& w, Client& cl) { return cl.reloads > 1 && w.updatesN; }); }

PROPERTY(C09, concurrent, "requests overlap in time and one of them succeeds", 6000, 120000)
{ concurrent(s, {"C09"}, 3, 3, true); }
PROPERTY(C08, concurrent, "requests overlap in time and one of them succeeds", 3000, 60000)
{ concurrent(s, {"C08"}, 3, 4, true); }
PROPERTY(C01, concurrent, "requests overlap in time and one of them succeeds", 2000, 40000)
{ concurrent(s, {"C01"}, 3, 4, false); }
PROPERTY(C03, concurrent, "requests overlap in time and one of them succeeds", 2000, 40000)
{ concurrent(s, {"C03"}, 3, 3, false); }

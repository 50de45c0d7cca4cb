// C14 conflict check, C15 handle registries, C16 interface lookup, C17 handles
#include "pbt.h"
#include <hardware_interface/robot_hw.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/joint_state_interface.h>
#include <hardware_interface/actuator_command_interface.h>
#include <hardware_interface/actuator_state_interface.h>
#include <hardware_interface/posvel_command_interface.h>
#include <hardware_interface/posvelacc_command_interface.h>
#include <hardware_interface/position_velocity_torque_gains_command_interface.h>
#include <hardware_interface/imu_sensor_interface.h>
#include <hardware_interface/force_torque_sensor_interface.h>
#include <hardware_interface/joint_mode_interface.h>
#include <algorithm>
#include <deque>
#include <list>
#include <memory>
using namespace hardware_interface;
using pbt::Src;

// ---------------------------------------------------------------- C14
namespace {
std::string str(const ControllerInfo& c) { std::string o = c.name + "{"; for (auto& r : c.claimed_resources) { o += r.hardware_interface + ":"; for (auto& n : r.resources) o += n + ","; o += " "; } return o + "}"; }
std::list<ControllerInfo> genInfos(Src& s, size_t universe) {
  std::list<ControllerInfo> l; pbt::drawSpelling(s); static const char* ifs[] = {"P", "V", "E", "hardware_interface::PositionJointInterface"};
  size_t n = s.range(0, 8);
  for (size_t i = 0; i < n; ++i) {
    ControllerInfo c; c.name = s.chance(1, 10) ? "same" : pbt::spelt("c", i); c.type = "t";
    for (size_t k = s.range(0, 3); k-- > 0;) { InterfaceResources r; r.hardware_interface = ifs[s.index(4)]; for (size_t m = s.range(0, 3); m-- > 0;) r.resources.insert(s.chance(1, 30) ? std::string() : pbt::spelt("r", s.index(universe))); c.claimed_resources.push_back(r); }
    l.push_back(c);
  }
  return l;
}
bool directConflict(const std::list<ControllerInfo>& l) { // quadratic on purpose: compare every pair of claims
  std::vector<std::string> all; for (auto& c : l) for (auto& r : c.claimed_resources) for (auto& n : r.resources) all.push_back(n);
  for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < i; ++j) if (all[i] == all[j]) return true;
  return false;
}
}
PROPERTY(C14, count, "at least two controllers with claims", 60000, 1500000)
{
  auto l = genInfos(s, s.oneof<size_t>({2, 4, 10, 40, 200})); RobotHW hw; for (auto& c : l) NOTE(str(c));
  bool want = directConflict(l), got = hw.checkForConflict(l); CHECK(got == want, "conflict reported: " << got << ", some resource is claimed more than once: " << want);
  s.label(want ? "conflict" : "no conflict"); size_t cl = 0; for (auto& c : l) for (auto& r : c.claimed_resources) if (!r.resources.empty()) { ++cl; break; } if (cl >= 2) s.nontrivial();
}
PROPERTY(C14, reorder, "at least two controllers with claims", 30000, 600000)
{
  auto l = genInfos(s, s.oneof<size_t>({4, 10, 40, 200})); RobotHW hw; bool a = hw.checkForConflict(l);
  std::vector<ControllerInfo> v(l.begin(), l.end()); s.shuffle(v); for (auto& c : v) s.shuffle(c.claimed_resources);
  std::list<ControllerInfo> l2(v.begin(), v.end()); for (auto& c : l) NOTE(str(c));
  CHECK(hw.checkForConflict(l2) == a, "the answer depends on the order");
  if (!a && l2.size() > 1) { auto l3 = l2; l3.pop_back(); CHECK(!hw.checkForConflict(l3), "fewer controllers conflict where more do not"); }
  { auto l4 = l2; bool any = false; if (!l4.empty()) for (auto& r : l4.front().claimed_resources) any |= !r.resources.empty(); if (any) { l4.push_back(l4.front()); CHECK(hw.checkForConflict(l4), "two controllers with identical claims do not conflict"); } }
  std::list<ControllerInfo> none; CHECK(!hw.checkForConflict(none), "conflict without controllers");
  size_t cl = 0; for (auto& c : l) for (auto& r : c.claimed_resources) if (!r.resources.empty()) { ++cl; break; } if (cl >= 2) s.nontrivial();
}

// ---------------------------------------------------------------- C15
namespace {
struct Cell { double v[12]; JointCommandModes mode; };
// a handle of each kind that can be recognised by the storage it was made with
template <class I> struct Kit;
template <class H> struct StateKit { static H make(const std::string& n, Cell& c) { return H(n, &c.v[0], &c.v[1], &c.v[2]); } static const void* id(H& h) { return h.getPositionPtr(); } static const void* cell(Cell& c) { return &c.v[0]; } };
template <> struct Kit<JointStateInterface> : StateKit<JointStateHandle> { static const bool claims = false; };
template <> struct Kit<ActuatorStateInterface> : StateKit<ActuatorStateHandle> { static const bool claims = false; };
template <class H, class S> struct CmdKit { static H make(const std::string& n, Cell& c) { return H(S(n, &c.v[0], &c.v[1], &c.v[2]), &c.v[3]); } static const void* id(H& h) { return h.getCommandPtr(); } static const void* cell(Cell& c) { return &c.v[3]; } };
template <> struct Kit<EffortJointInterface> : CmdKit<JointHandle, JointStateHandle> { static const bool claims = true; };
template <> struct Kit<VelocityJointInterface> : CmdKit<JointHandle, JointStateHandle> { static const bool claims = true; };
template <> struct Kit<PositionJointInterface> : CmdKit<JointHandle, JointStateHandle> { static const bool claims = true; };
template <> struct Kit<JointCommandInterface> : CmdKit<JointHandle, JointStateHandle> { static const bool claims = true; };
template <> struct Kit<EffortActuatorInterface> : CmdKit<ActuatorHandle, ActuatorStateHandle> { static const bool claims = false; };
template <> struct Kit<VelocityActuatorInterface> : CmdKit<ActuatorHandle, ActuatorStateHandle> { static const bool claims = false; };
template <> struct Kit<PositionActuatorInterface> : CmdKit<ActuatorHandle, ActuatorStateHandle> { static const bool claims = false; };
template <class H> struct PvKit { static const void* id(H& h) { return h.getPositionPtr(); } static const void* cell(Cell& c) { return &c.v[0]; } static JointStateHandle js(const std::string& n, Cell& c) { return JointStateHandle(n, &c.v[0], &c.v[1], &c.v[2]); } };
template <> struct Kit<PosVelJointInterface> : PvKit<PosVelJointHandle> { static const bool claims = true; static PosVelJointHandle make(const std::string& n, Cell& c) { return PosVelJointHandle(js(n, c), &c.v[3], &c.v[4]); } };
template <> struct Kit<PosVelAccJointInterface> : PvKit<PosVelAccJointHandle> { static const bool claims = true; static PosVelAccJointHandle make(const std::string& n, Cell& c) { return PosVelAccJointHandle(js(n, c), &c.v[3], &c.v[4], &c.v[5]); } };
template <> struct Kit<PositionVelocityTorqueGainsJointInterface> : PvKit<PositionVelocityTorqueGainsJointHandle> { static const bool claims = true; static PositionVelocityTorqueGainsJointHandle make(const std::string& n, Cell& c) { return PositionVelocityTorqueGainsJointHandle(js(n, c), &c.v[3], &c.v[4], &c.v[5], &c.v[6], &c.v[7]); } };
template <> struct Kit<ImuSensorInterface> { static const bool claims = false; static ImuSensorHandle make(const std::string& n, Cell& c) { return ImuSensorHandle(n, "f", &c.v[0], nullptr, &c.v[1], nullptr, &c.v[2], nullptr); } static const void* id(ImuSensorHandle& h) { return h.getOrientation(); } static const void* cell(Cell& c) { return &c.v[0]; } };
template <> struct Kit<ForceTorqueSensorInterface> { static const bool claims = false; static ForceTorqueSensorHandle make(const std::string& n, Cell& c) { return ForceTorqueSensorHandle(n, "f", &c.v[0], &c.v[1]); } static const void* id(ForceTorqueSensorHandle& h) { return h.getForce(); } static const void* cell(Cell& c) { return &c.v[0]; } };
template <> struct Kit<JointModeInterface> { static const bool claims = false; static JointModeHandle make(const std::string& n, Cell& c) { return JointModeHandle(n, &c.mode); } static const void* id(JointModeHandle& h) { return h.getModePtr(); } static const void* cell(Cell& c) { return &c.mode; } };

template <class I> void registry(Src& s)
{
  typedef typename I::ResourceHandleType H; typedef Kit<I> K;
  struct Model { std::map<std::string, Cell*> m; std::set<std::string> claims; };
  pbt::drawSpelling(s); const size_t N = 3; I ifs[N]; Model mod[N]; std::deque<Cell> cells; unsigned lookups = 0, replaced = 0;
  auto name = [&] { return s.chance(1, 40) ? std::string() : pbt::spelt("n", s.index(5)); };
  for (int k = 0; k < 40 && (k == 0 || s.more(14)); ++k) {
    size_t i = s.index(N);
    switch (s.weighted({5, 6, 2, 1, 1, 1})) {
      case 0: { std::string n = name(); cells.emplace_back(); H h = K::make(n, cells.back()); ifs[i].registerHandle(h); replaced += mod[i].m.count(n); mod[i].m[n] = &cells.back(); NOTE("register '" << n << "' in " << i); break; }
      case 1: { std::string n = name(); NOTE("look up '" << n << "' in " << i); bool ok = false; try { H h = ifs[i].getHandle(n); ok = true; CHECK(h.getName() == n, "handle is called " << h.getName()); CHECK(mod[i].m.count(n), "a handle was returned for an unknown name"); CHECK(K::id(h) == K::cell(*mod[i].m[n]), "not the last handle registered"); if (K::claims) mod[i].claims.insert(n); }
        catch (const HardwareInterfaceException& e) { CHECK(std::string(e.what()).find(n) != std::string::npos, "the exception does not name the resource"); }
        CHECK(ok == (mod[i].m.count(n) > 0), "lookup of '" << n << "' " << (ok ? "succeeded" : "failed")); lookups += ok; break; }
      case 2: { NOTE("clear claims of " << i); ifs[i].clearClaims(); mod[i].claims.clear(); break; }
      case 3: { std::string n = name(); NOTE("claim '" << n << "' in " << i); ifs[i].claim(n); mod[i].claims.insert(n); break; }
      case 4: { // combine some into one (never into itself)
        typedef typename I::ResourceManagerType RM; std::vector<RM*> v; std::vector<size_t> from; for (size_t j = 0; j < N; ++j) if (j != i && s.boolean()) { v.push_back(&ifs[j]); from.push_back(j); }
        NOTE("combine " << pbt::show(from) << " into " << i); I::concatManagers(v, &ifs[i]); for (size_t j : from) for (auto& x : mod[j].m) mod[i].m[x.first] = x.second; break; }
      default: { typedef typename I::ResourceManagerType RM; RM& rm = ifs[i]; std::string n = name(); bool ok = true; try { H h = rm.getHandle(n); CHECK(mod[i].m.count(n) && K::id(h) == K::cell(*mod[i].m[n]), "wrong handle from the plain registry"); } catch (const std::logic_error&) { ok = false; } CHECK(ok == (mod[i].m.count(n) > 0), "plain lookup of '" << n << "'"); break; }
    }
    for (size_t j = 0; j < N; ++j) {
      auto names = ifs[j].getNames(); std::vector<std::string> want; for (auto& x : mod[j].m) want.push_back(x.first); std::sort(names.begin(), names.end());
      CHECK(names == want, "interface " << j << " lists " << pbt::show(names) << ", registered are " << pbt::show(want));
      auto c = ifs[j].getClaims(); CHECK(c == mod[j].claims, "interface " << j << " claims " << pbt::show(c) << ", expected " << pbt::show(mod[j].claims));
    }
  }
  if (lookups && replaced) s.nontrivial();
}
}
PROPERTY(C15, registry, "a handle was replaced and one was looked up", 80000, 1500000)
{
  static void (*const fns[])(Src&) = {registry<PositionJointInterface>, registry<JointStateInterface>, registry<VelocityJointInterface>, registry<EffortJointInterface>, registry<JointCommandInterface>, registry<ActuatorStateInterface>, registry<EffortActuatorInterface>, registry<VelocityActuatorInterface>, registry<PositionActuatorInterface>,
    registry<PosVelJointInterface>, registry<PosVelAccJointInterface>, registry<PositionVelocityTorqueGainsJointInterface>, registry<ImuSensorInterface>, registry<ForceTorqueSensorInterface>, registry<JointModeInterface>};
  size_t k = s.index(15); s.label("interface kind " + std::to_string(k)); fns[k](s);
}

// ---------------------------------------------------------------- C16
namespace {
struct PlainInterface : HardwareInterface { int x = 0; };
struct NotAnInterface { int x = 0; };
const size_t NT = 7; // the last two are never registered
template <size_t K> struct Ty; template <> struct Ty<0> { typedef PositionJointInterface T; }; template <> struct Ty<1> { typedef JointStateInterface T; }; template <> struct Ty<2> { typedef EffortJointInterface T; };
template <> struct Ty<3> { typedef PlainInterface T; }; template <> struct Ty<4> { typedef NotAnInterface T; }; template <> struct Ty<5> { typedef JointCommandInterface T; }; template <> struct Ty<6> { typedef VelocityJointInterface T; };
struct Iface { size_t type; void* p; std::map<std::string, const void*> handles; };
struct World {
  std::deque<RobotHW> hw; std::deque<Cell> cells; std::deque<Iface> ifaces; std::vector<std::shared_ptr<void>> keep;
  struct Node { std::map<size_t, Iface*> own; std::vector<size_t> subs; }; std::vector<Node> node;
  static bool combinable(size_t t) { return t <= 2 || t >= 5; }
  // number of results found at i (a combination counts as one), what it must contain, its identity if unique
  struct Found { bool any = false; void* same = nullptr; std::map<std::string, std::set<const void*>> handles; };
  Found expect(size_t i, size_t t) const {
    Found f; std::vector<Found> l; auto it = node[i].own.find(t);
    if (it != node[i].own.end()) { Found o; o.any = true; o.same = it->second->p; for (auto& h : it->second->handles) o.handles[h.first].insert(h.second); l.push_back(o); }
    for (size_t j : node[i].subs) { Found o = expect(j, t); if (o.any) l.push_back(o); }
    if (l.empty()) return f; if (l.size() == 1) return l[0]; if (!combinable(t)) return f;
    f.any = true; for (auto& o : l) for (auto& h : o.handles) f.handles[h.first].insert(h.second.begin(), h.second.end()); return f;
  }
  std::set<std::string> names(size_t i) const;
  std::set<std::string> resources(size_t i, size_t t) const { std::set<std::string> o; auto it = node[i].own.find(t); if (it != node[i].own.end()) for (auto& h : it->second->handles) o.insert(h.first); for (size_t j : node[i].subs) { auto r = resources(j, t); o.insert(r.begin(), r.end()); } return o; }
  bool reach(size_t from, size_t to) const { if (from == to) return true; for (size_t j : node[from].subs) if (reach(j, to)) return true; return false; }
};
const char* tyName(size_t t) { static const char* n[] = {"hardware_interface::PositionJointInterface", "hardware_interface::JointStateInterface", "hardware_interface::EffortJointInterface", "(anonymous namespace)::PlainInterface", "(anonymous namespace)::NotAnInterface", "hardware_interface::JointCommandInterface", "hardware_interface::VelocityJointInterface"}; return n[t]; }
std::set<std::string> World::names(size_t i) const { std::set<std::string> o; for (auto& x : node[i].own) o.insert(tyName(x.first)); for (size_t j : node[i].subs) { auto r = names(j); o.insert(r.begin(), r.end()); } return o; }
template <class T> void addHandle(T* p, Iface& f, const std::string& n, Cell& c) { p->registerHandle(Kit<T>::make(n, c)); f.handles[n] = Kit<T>::cell(c); }
void addHandle(PlainInterface*, Iface&, const std::string&, Cell&) {}
void addHandle(NotAnInterface*, Iface&, const std::string&, Cell&) {}
template <size_t K> Iface& make(World& w, Src& s, size_t at) { typedef typename Ty<K>::T T; auto p = std::make_shared<T>(); w.keep.push_back(p); w.ifaces.push_back({K, p.get(), {}}); Iface& f = w.ifaces.back(); for (size_t n = s.range(0, 4); n-- > 0;) { w.cells.emplace_back(); std::string nm = s.chance(1, 6) ? "shared" : "m" + std::to_string(at) + "_" + std::to_string(s.index(4)); addHandle(p.get(), f, nm, w.cells.back()); } w.hw[at].registerInterface(p.get()); return f; }
template <class T> void probe(T* p, const World::Found& f, Src& s, std::true_type) {
  auto names = p->getNames(); std::set<std::string> got(names.begin(), names.end()), want; for (auto& h : f.handles) want.insert(h.first);
  CHECK(got == want && names.size() == got.size(), "the interface offers " << pbt::show(names) << ", registered are " << pbt::show(want));
  for (auto& h : f.handles) { auto x = p->getHandle(h.first); CHECK(h.second.count(Kit<T>::id(x)), "handle '" << h.first << "' is none of those registered"); CHECK(p->getClaims().count(h.first) == (Kit<T>::claims ? 1u : 0u), "claim of '" << h.first << "' not as for a directly registered interface"); }
  p->clearClaims(); CHECK(p->getClaims().empty(), "claims left");
}
template <class T> void probe(T*, const World::Found&, Src&, std::false_type) {}
template <size_t K> void query(World& w, Src& s, size_t at, bool& combined) {
  typedef typename Ty<K>::T T; auto f = w.expect(at, K); T* p = w.hw[at].template get<T>();
  NOTE("get " << tyName(K) << " from " << at << " -> " << (p ? "an interface" : "nothing"));
  CHECK((p != nullptr) == f.any, "manager " << at << (p ? " returned an interface where none can be" : " returned no interface although there is one"));
  if (!p) return; if (f.same) CHECK(static_cast<void*>(p) == f.same, "not the interface that was registered"); else combined = true;
  probe(p, f, s, std::integral_constant<bool, (K <= 2 || K >= 5)>());
  CHECK(w.hw[at].template get<T>() == p, "a second lookup returned another object");
}
}
PROPERTY(C16, tree, "a combined interface was looked up", 40000, 800000)
{
  World w; size_t n = s.range(1, 5); w.hw.resize(n); w.node.resize(n); bool combined = false; unsigned replaced = 0;
  for (int k = 0; k < 40 && (k < 4 || s.more(14)); ++k) {
    size_t at = s.index(n);
    switch (s.weighted({5, 3, 5, 1, 1})) {
      case 0: { size_t t = s.weighted({4, 3, 2, 2, 1}); replaced += w.node[at].own.count(t); NOTE("register " << tyName(t) << " with " << at); Iface* f = t == 0 ? &make<0>(w, s, at) : t == 1 ? &make<1>(w, s, at) : t == 2 ? &make<2>(w, s, at) : t == 3 ? &make<3>(w, s, at) : &make<4>(w, s, at); w.node[at].own[t] = f; for (auto& h : f->handles) NOTE("  with handle " << h.first); break; }
      case 1: { size_t sub = s.index(n); if (w.reach(sub, at) || w.reach(at, sub)) break; NOTE("register manager " << sub << " with " << at); w.hw[at].registerInterfaceManager(&w.hw[sub]); w.node[at].subs.push_back(sub); break; }
      case 2: { switch (s.weighted({4, 3, 2, 2, 1, 1, 1})) { case 0: query<0>(w, s, at, combined); break; case 1: query<1>(w, s, at, combined); break; case 2: query<2>(w, s, at, combined); break; case 3: query<3>(w, s, at, combined); break; case 4: query<4>(w, s, at, combined); break; case 5: query<5>(w, s, at, combined); break; default: query<6>(w, s, at, combined); } break; }
      case 3: { auto v = w.hw[at].getNames(); std::set<std::string> g(v.begin(), v.end()); CHECK(g == w.names(at) && g.size() == v.size(), "manager " << at << " lists " << pbt::show(v) << ", registered are " << pbt::show(w.names(at))); break; }
      default: { size_t t = s.index(NT); auto v = w.hw[at].getInterfaceResources(tyName(t)); std::set<std::string> g(v.begin(), v.end()); CHECK(g == w.resources(at, t), "resources of " << tyName(t) << " at " << at << " are " << pbt::show(v) << ", registered are " << pbt::show(w.resources(at, t))); break; }
    }
  }
  for (size_t i = 0; i < n; ++i) { query<0>(w, s, i, combined); query<1>(w, s, i, combined); query<2>(w, s, i, combined); query<3>(w, s, i, combined); query<5>(w, s, i, combined); auto v = w.hw[i].getNames(); std::set<std::string> g(v.begin(), v.end()); CHECK(g == w.names(i), "names"); for (size_t t = 0; t < NT; ++t) { auto r = w.hw[i].getInterfaceResources(tyName(t)); CHECK(std::set<std::string>(r.begin(), r.end()) == w.resources(i, t), "resources"); } }
  if (combined) s.nontrivial(); if (replaced) s.label("an interface was replaced"); if (combined) s.label("combined");
}

// ---------------------------------------------------------------- C17
namespace {
// accessors of one handle kind: role = index of the constructor pointer it goes to
template <class H> struct Op { std::string name; int role; std::function<double(H&)> get; std::function<void(H&, double)> set; bool optional; };
bool sameBits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
struct Mem { double v[8]; bool operator==(const Mem& o) const { for (int i = 0; i < 8; ++i) if (!sameBits(v[i], o.v[i])) return false; return true; } };
// mostly fresh numbers, so that every value tells where it came from; now and then something special or a value already stored
double value(Src& s, double& next, const Mem& m) { switch (s.weighted({12, 1, 1, 1})) { case 0: return next++; case 1: return s.oneof<double>({0.0, -0.0, NAN, INFINITY, -INFINITY, 1e-310, -1.0}); case 2: return m.v[s.index(8)]; default: return -m.v[s.index(8)]; } }
// all the commands of a handle at once: each value goes to its own place (ptr[5..]) and nowhere else
template <class F> void allAtOnce(Src& s, Mem& mem, const std::vector<int>& ptr, size_t n, F set) {
  if (std::set<int>(ptr.begin() + 5, ptr.end()).size() != n) return; double next = 1000;
  for (int k = s.range(1, 4); k-- > 0;) { Mem want = mem; double v[5]; for (size_t i = 0; i < n; ++i) { v[i] = value(s, next, mem); want.v[ptr[5 + i]] = v[i]; } NOTE("setCommand of " << pbt::show(std::vector<double>(v, v + n))); set(v); CHECK(mem == want, "setCommand of all values wrote something else"); }
}
// ptr: storage index per role or -1 (null)
template <class H> void handleHistory(Src& s, H h0, const std::string& name, Mem& mem, const std::vector<int>& ptr, const std::vector<Op<H>>& ops)
{
  Mem model = mem; std::vector<H> hs{h0}; H blank; (void)blank; double next = 100; bool wrote = false;
  for (int k = 0; k < 40 && (k == 0 || s.more(16)); ++k) {
    size_t i = s.index(hs.size()); H& h = hs[i];
    switch (s.weighted({6, 3, 1, 1})) {
      case 0: { auto& op = ops[s.index(ops.size())]; double v = op.set ? value(s, next, model) : 0; bool threw = false; double r = 0;
        try { if (op.get) r = op.get(h); else { op.set(h, v); wrote = true; } } catch (const std::runtime_error&) { threw = true; }
        if (ptr[op.role] < 0) { CHECK(threw, op.name << " on an absent quantity did not throw"); NOTE(op.name << " throws"); break; }
        CHECK(!threw, op.name << " threw although the quantity is present");
        if (op.get) { NOTE(op.name << " = " << r); CHECK(sameBits(r, model.v[ptr[op.role]]), op.name << " returned " << r << ", stored is " << model.v[ptr[op.role]]); } else { NOTE(op.name << "(" << v << ")"); model.v[ptr[op.role]] = v; } break; }
      case 1: { int m = s.index(8); double v = value(s, next, model); mem.v[m] = v; model.v[m] = v; NOTE("storage " << m << " := " << v); break; }
      case 2: { if (hs.size() < 4) { hs.push_back(H(hs[i])); NOTE("copy"); } break; }
      default: { H x; x = hs[i]; hs[s.index(hs.size())] = x; NOTE("assign"); break; }
    }
    CHECK(mem == model, "storage differs from what was written through the handles");
    for (auto& x : hs) CHECK(x.getName() == name, "name changed to " << x.getName());
  }
  if (wrote || hs.size() > 1) s.nontrivial();
}
template <class H> std::vector<Op<H>> stateOps() { return {
  {"getPosition", 0, [](H& h) { return h.getPosition(); }, nullptr, false}, {"getVelocity", 1, [](H& h) { return h.getVelocity(); }, nullptr, false}, {"getEffort", 2, [](H& h) { return h.getEffort(); }, nullptr, false},
  {"getAbsolutePosition", 3, [](H& h) { return h.getAbsolutePosition(); }, nullptr, true}, {"getTorqueSensor", 4, [](H& h) { return h.getTorqueSensor(); }, nullptr, true},
  {"getPositionPtr", 0, [](H& h) { return *h.getPositionPtr(); }, nullptr, false}, {"getVelocityPtr", 1, [](H& h) { return *h.getVelocityPtr(); }, nullptr, false}, {"getEffortPtr", 2, [](H& h) { return *h.getEffortPtr(); }, nullptr, false},
  {"getAbsolutePositionPtr", 3, [](H& h) { return *h.getAbsolutePositionPtr(); }, nullptr, true}, {"getTorqueSensorPtr", 4, [](H& h) { return *h.getTorqueSensorPtr(); }, nullptr, true}}; }
template <class H> void add(std::vector<Op<H>>& v, const char* n, int role, std::function<double(H&)> g, std::function<void(H&, double)> st) { v.push_back({n, role, g, st, false}); }
// makes a state handle; false when the constructor must throw and did
template <class S> bool makeState(Src& s, Mem& mem, std::vector<int>& ptr, const std::string& n, S& out, unsigned nullOdds)
{
  int form = s.index(4); bool bad = false; auto P = [&](bool used) -> const double* { if (!used) { ptr.push_back(-1); return nullptr; } if (s.chance(1, nullOdds)) { bad = true; ptr.push_back(-1); return nullptr; } int i = s.index(8); ptr.push_back(i); return &mem.v[i]; };
  const double* p = P(true); const double* v = P(true); const double* e = P(true); const double* a = P(form == 1 || form == 2); const double* t = P(form == 1 || form == 3);
  bool threw = false;
  try { if (form == 0) out = S(n, p, v, e); else if (form == 1) out = S(n, p, v, e, a, t); else if (form == 2) out = S(n, p, v, e, a); else out = S(n, p, v, e, t, true); }
  catch (const HardwareInterfaceException& x) { threw = true; CHECK(std::string(x.what()).find(n) != std::string::npos, "the exception does not name the handle"); }
  NOTE("state handle, constructor " << form << ", pointers " << pbt::show(ptr) << (threw ? " throws" : ""));
  CHECK(threw == bad, (bad ? "a missing pointer was accepted" : "complete pointers were refused")); s.label(bad ? "refused" : "created");
  if (bad) { s.nontrivial(); return false; }
  CHECK(out.hasAbsolutePosition() == (ptr[3] >= 0) && out.hasTorqueSensor() == (ptr[4] >= 0), "wrong optional data reported"); return true;
}
Mem freshMem() { Mem m; for (int i = 0; i < 8; ++i) m.v[i] = i + 1; return m; }
double* cmdPtr(Src& s, Mem& mem, std::vector<int>& ptr, bool& bad, unsigned odds) { if (s.chance(1, odds)) { bad = true; ptr.push_back(-1); return nullptr; } int i = s.index(8); ptr.push_back(i); return &mem.v[i]; }
#define TRY_MAKE(expr) bool threw = false; try { expr; } catch (const HardwareInterfaceException& x) { threw = true; CHECK(std::string(x.what()).find(n) != std::string::npos, "the exception does not name the handle"); } NOTE("command handle, pointers " << pbt::show(ptr) << (threw ? " throws" : "")); CHECK(threw == bad, (bad ? "a missing pointer was accepted" : "complete pointers were refused")); if (bad) { s.nontrivial(); return; } CHECK(h.hasAbsolutePosition() == (ptr[3] >= 0) && h.hasTorqueSensor() == (ptr[4] >= 0), "optional data lost");
template <class H, class S> void cmdHandle(Src& s) {
  Mem mem = freshMem(); std::vector<int> ptr; std::string n = s.ident(); S st; if (!makeState(s, mem, ptr, n, st, 30)) return; bool bad = false; double* c = cmdPtr(s, mem, ptr, bad, 6); H h; TRY_MAKE(h = H(st, c))
  auto ops = stateOps<H>(); add<H>(ops, "getCommand", 5, [](H& x) { return x.getCommand(); }, nullptr); add<H>(ops, "setCommand", 5, nullptr, [](H& x, double v) { x.setCommand(v); }); add<H>(ops, "getCommandPtr", 5, [](H& x) { return *x.getCommandPtr(); }, nullptr); handleHistory(s, h, n, mem, ptr, ops); }
template <class H> void pvOps(std::vector<Op<H>>& ops) { add<H>(ops, "getCommandPosition", 5, [](H& x) { return x.getCommandPosition(); }, nullptr); add<H>(ops, "getCommandVelocity", 6, [](H& x) { return x.getCommandVelocity(); }, nullptr); add<H>(ops, "setCommandPosition", 5, nullptr, [](H& x, double v) { x.setCommandPosition(v); }); add<H>(ops, "setCommandVelocity", 6, nullptr, [](H& x, double v) { x.setCommandVelocity(v); }); }
}
PROPERTY(C17, state, "construction was refused, or the handle was copied", 30000, 600000)
{ Mem mem = freshMem(); std::vector<int> ptr; std::string n = s.ident(); if (s.boolean()) { JointStateHandle h; if (makeState(s, mem, ptr, n, h, 12)) handleHistory(s, h, n, mem, ptr, stateOps<JointStateHandle>()); } else { ActuatorStateHandle h; if (makeState(s, mem, ptr, n, h, 12)) handleHistory(s, h, n, mem, ptr, stateOps<ActuatorStateHandle>()); } }
PROPERTY(C17, command, "construction was refused, or something was written through the handle or it was copied", 30000, 600000)
{ if (s.boolean()) cmdHandle<JointHandle, JointStateHandle>(s); else cmdHandle<ActuatorHandle, ActuatorStateHandle>(s); }
PROPERTY(C17, multi, "construction was refused, or something was written through the handle or it was copied", 30000, 600000)
{
  Mem mem = freshMem(); std::vector<int> ptr; std::string n = s.ident(); JointStateHandle st; size_t kind = s.index(3); if (!makeState(s, mem, ptr, n, st, 30)) return; bool bad = false; double* c[5]; size_t nc = kind == 0 ? 2 : kind == 1 ? 3 : 5; for (size_t i = 0; i < nc; ++i) c[i] = cmdPtr(s, mem, ptr, bad, 12);
  // setCommand with all values at once needs distinct storage for a defined outcome
  if (kind == 0) { typedef PosVelJointHandle H; H h; TRY_MAKE(h = H(st, c[0], c[1])) auto ops = stateOps<H>(); pvOps(ops); handleHistory(s, h, n, mem, ptr, ops);
    allAtOnce(s, mem, ptr, 2, [&](double* v) { h.setCommand(v[0], v[1]); }); }
  else if (kind == 1) { typedef PosVelAccJointHandle H; H h; TRY_MAKE(h = H(st, c[0], c[1], c[2])) auto ops = stateOps<H>(); pvOps(ops); add<H>(ops, "getCommandAcceleration", 7, [](H& x) { return x.getCommandAcceleration(); }, nullptr); add<H>(ops, "setCommandAcceleration", 7, nullptr, [](H& x, double v) { x.setCommandAcceleration(v); }); handleHistory(s, h, n, mem, ptr, ops);
    allAtOnce(s, mem, ptr, 3, [&](double* v) { h.setCommand(v[0], v[1], v[2]); }); }
  else { typedef PositionVelocityTorqueGainsJointHandle H; H h; TRY_MAKE(h = H(st, c[0], c[1], c[2], c[3], c[4])) auto ops = stateOps<H>(); pvOps(ops);
    add<H>(ops, "getCommandEffort", 7, [](H& x) { return x.getCommandEffort(); }, nullptr); add<H>(ops, "setCommandEffort", 7, nullptr, [](H& x, double v) { x.setCommandEffort(v); }); add<H>(ops, "getCommandKp", 8, [](H& x) { return x.getCommandKp(); }, nullptr); add<H>(ops, "setCommandKp", 8, nullptr, [](H& x, double v) { x.setCommandKp(v); }); add<H>(ops, "getCommandKd", 9, [](H& x) { return x.getCommandKd(); }, nullptr); add<H>(ops, "setCommandKd", 9, nullptr, [](H& x, double v) { x.setCommandKd(v); });
    handleHistory(s, h, n, mem, ptr, ops); allAtOnce(s, mem, ptr, 5, [&](double* v) { h.setCommand(v[0], v[1], v[2], v[3], v[4]); }); }
}
PROPERTY(C17, sensor, "some pointers are given and some are missing, or a mode was written", 30000, 600000)
{
  std::string n = s.ident(), f = s.ident(); double d[8]; auto P = [&]() -> double* { return s.chance(1, 3) ? nullptr : &d[s.index(8)]; };
  switch (s.index(3)) {
    case 0: { double* p[6]; int given = 0; for (auto& x : p) { x = P(); given += x != nullptr; } ImuSensorHandle::Data data; data.name = n; data.frame_id = f; data.orientation = p[0]; data.orientation_covariance = p[1]; data.angular_velocity = p[2]; data.angular_velocity_covariance = p[3]; data.linear_acceleration = p[4]; data.linear_acceleration_covariance = p[5];
      ImuSensorHandle a(data), b(n, f, p[0], p[1], p[2], p[3], p[4], p[5]), c(a), e; e = b; for (ImuSensorHandle* h : {&a, &b, &c, &e}) { CHECK(h->getName() == n && h->getFrameId() == f, "names"); CHECK(h->getOrientation() == p[0], "orientation"); CHECK(h->getOrientationCovariance() == p[1], "orientation covariance"); CHECK(h->getAngularVelocity() == p[2], "angular velocity"); CHECK(h->getAngularVelocityCovariance() == p[3], "angular velocity covariance"); CHECK(h->getLinearAcceleration() == p[4], "linear acceleration"); CHECK(h->getLinearAccelerationCovariance() == p[5], "linear acceleration covariance"); }
      if (given > 0 && given < 6) s.nontrivial(); break; }
    case 1: { double* p = P(); double* q = P(); ForceTorqueSensorHandle a(n, f, p, q), b(a), c; c = b; for (auto* h : {&a, &b, &c}) CHECK(h->getName() == n && h->getFrameId() == f && h->getForce() == p && h->getTorque() == q, "force torque handle"); if (!p != !q) s.nontrivial(); break; }
    default: { JointCommandModes m[2] = {JointCommandModes::NOMODE, JointCommandModes::SWITCHING}; bool null = s.chance(1, 4), threw = false; size_t k = s.index(2); JointModeHandle h; try { h = JointModeHandle(n, null ? nullptr : &m[k]); } catch (const HardwareInterfaceException&) { threw = true; } CHECK(threw == null, "mode handle with " << (null ? "no" : "a") << " pointer"); if (null) { s.nontrivial(); break; }
      for (int i = 0; i < 6; ++i) { JointModeHandle c(h); auto v = (JointCommandModes)(int)s.range(-1, 6); auto other = m[1 - k]; if (s.boolean()) { c.setMode(v); s.nontrivial(); } else m[k] = v; CHECK(h.getMode() == v && c.getMode() == v && *c.getModePtr() == v && m[k] == v && m[1 - k] == other, "mode"); CHECK(h.getName() == n && c.getName() == n, "name"); }
      std::set<std::string> names; for (int i = -1; i <= 6; ++i) names.insert(h.getModeName((JointCommandModes)i)); CHECK(names.size() == 8, "mode names are not distinct"); }
  }
}

// C28 position, C29 velocity, C30 effort limits, C31 interfaces, C32 parameters, C33 robot description
#include "pbt.h"
#include <joint_limits_interface/joint_limits_interface.h>
#include <joint_limits_interface/joint_limits_rosparam.h>
#include <joint_limits_interface/joint_limits_urdf.h>
#include <memory>
using namespace joint_limits_interface;
using hardware_interface::JointHandle; using hardware_interface::JointStateHandle;
using pbt::Src;
namespace {
double clampd(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; } // hi wins never: callers pass lo <= hi
struct Joint {
  double pos = 0, vel = 0, eff = 0, cmd = 0; std::string name;
  JointHandle handle() { return JointHandle(JointStateHandle(name, &pos, &vel, &eff), &cmd); }
};
ros::Duration genPeriod(Src& s) { switch (s.index(4)) { case 0: return ros::Duration(0, 100000000); case 1: return ros::Duration(0, 1000000); case 2: return ros::Duration(0, (int32_t)s.range(1, 999999999)); default: return ros::Duration((int32_t)s.range(1, 5), (int32_t)s.range(0, 999999999)); } }
JointLimits genLimits(Src& s, bool needVel, bool needEff) {
  JointLimits l; l.has_position_limits = s.chance(3, 4);
  double a = s.signedReal(10), w = s.positive(0.01, 20); if (s.chance(1, 20)) w = 0; l.min_position = a; l.max_position = a + w;
  l.has_velocity_limits = needVel || s.boolean(); l.max_velocity = s.chance(1, 20) ? 0 : s.positive(0.01, 50);
  l.has_acceleration_limits = s.boolean(); l.max_acceleration = s.positive(0.01, 100);
  l.has_effort_limits = needEff || s.boolean(); l.max_effort = s.chance(1, 20) ? 0 : s.positive(0.1, 1000);
  l.has_jerk_limits = s.boolean(); l.max_jerk = s.positive(0.1, 100); l.angle_wraparound = !l.has_position_limits && s.boolean();
  return l;
}
SoftJointLimits genSoft(Src& s, const JointLimits& l) {
  SoftJointLimits f; double w = l.max_position - l.min_position;
  switch (s.weighted({5, 2, 1, 1})) {
    case 0: f.min_position = l.min_position + w * s.real(0, 0.4); f.max_position = l.max_position - w * s.real(0, 0.4); break;
    case 1: { double a = l.min_position + w * s.real(-2, 2), b = l.min_position + w * s.real(-2, 2); f.min_position = std::min(a, b); f.max_position = std::max(a, b); break; }
    case 2: f.min_position = l.max_position + s.positive(0.1, 10); f.max_position = f.min_position + s.positive(0.1, 10); break; // beyond the hard limits
    default: f.max_position = l.min_position - s.positive(0.1, 10); f.min_position = f.max_position - s.positive(0.1, 10); break;
  }
  f.k_position = s.chance(1, 10) ? 0 : s.positive(0.1, 100); f.k_velocity = s.chance(1, 10) ? 0 : s.positive(0.1, 100);
  return f;
}
std::string str(const JointLimits& l) { std::ostringstream o; o.precision(17); if (l.has_position_limits) o << " position [" << l.min_position << "," << l.max_position << "]"; if (l.has_velocity_limits) o << " velocity " << l.max_velocity; if (l.has_acceleration_limits) o << " acceleration " << l.max_acceleration; if (l.has_effort_limits) o << " effort " << l.max_effort; return o.str(); }
std::string str(const SoftJointLimits& f) { std::ostringstream o; o.precision(17); o << " soft [" << f.min_position << "," << f.max_position << "] k_position " << f.k_position << " k_velocity " << f.k_velocity; return o.str(); }
// a command around the interesting range
double genCmd(Src& s, double center, double width) {
  switch (s.weighted({4, 4, 2, 1, 1, 1})) {
    case 5: return s.oneof<double>({center - width, center + width, 0.0, std::nextafter(center + width, 1e300), std::nextafter(center - width, -1e300)});
    case 0: return center + width * s.real(-1, 1); case 1: return center + width * 4 * s.real(-1, 1); case 2: return s.signedReal(1000);
    case 3: return center; default: return s.oneof<double>({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::max(), -std::numeric_limits<double>::max()});
  }
}
double measured(Src& s, const JointLimits& l) { double w = l.max_position - l.min_position; switch (s.weighted({6, 1, 1, 1})) { case 3: return s.boolean() ? l.min_position : l.max_position; case 0: return clampd(l.min_position + w * s.real(0, 1), l.min_position, l.max_position); case 1: return l.min_position - s.positive(1e-3, 10); default: return l.max_position + s.positive(1e-3, 10); } }
double tolOf(std::initializer_list<double> xs) { double t = 0; for (double x : xs) if (std::isfinite(x)) t += std::fabs(x); return 1e-12 * t + 1e-300; }
bool closeTo(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol; }

// reference velocity bounds near soft position limits (pr2_controllers safety limits, as documented)
void softVel(const JointLimits& l, const SoftJointLimits& f, double vmax, double pos, double& lo, double& hi) {
  if (!l.has_position_limits) { lo = -vmax; hi = vmax; return; }
  lo = clampd(-f.k_position * (pos - f.min_position), -vmax, vmax); hi = clampd(-f.k_position * (pos - f.max_position), -vmax, vmax);
}
struct Frozen { double pos, vel, eff; Frozen(const Joint& j) : pos(j.pos), vel(j.vel), eff(j.eff) {} void check(const Joint& j) { CHECK(j.pos == pos && j.vel == vel && j.eff == eff, "enforcing limits changed the measured state"); } };
}

PROPERTY(C28, saturation, "some command is changed by the limits and some later one passes unchanged", 300000, 3000000)
{
  JointLimits l = genLimits(s, false, false); Joint j; j.name = "j"; j.pos = measured(s, l); PositionJointSaturationHandle h(j.handle(), l); CHECK(h.getName() == "j", "name");
  NOTE("limits" << str(l)); double prev = NAN; bool cut = false, passed = false; ros::Duration dt = genPeriod(s);
  const double inf = std::numeric_limits<double>::infinity(); double lo = l.has_position_limits ? l.min_position : -inf, hi = l.has_position_limits ? l.max_position : inf;
  for (int k = 0; k < 14 && (k == 0 || s.more(6)); ++k) {
    if (s.chance(1, 8)) { h.reset(); prev = NAN; NOTE("reset"); }
    if (s.chance(1, 3)) j.pos = measured(s, l);
    if (s.chance(1, 4)) dt = genPeriod(s);
    if (s.chance(1, 12)) { NOTE("no command (NaN)"); j.cmd = NAN; Frozen f0(j); h.enforceLimits(dt); f0.check(j); CHECK(std::isnan(j.cmd) || (j.cmd >= std::min(lo, j.pos) && j.cmd <= std::max(hi, j.pos)), "no command became " << j.cmd << ", outside the limits"); prev = j.cmd; continue; }
    if (std::isnan(prev)) prev = j.pos;
    double d = l.max_velocity * dt.toSec(), want = j.cmd = genCmd(s, prev, l.has_velocity_limits ? d : 1); j.vel = s.signedReal(10); Frozen fr(j);
    h.enforceLimits(dt); fr.check(j);
    NOTE("position " << j.pos << " period " << dt.toSec() << " command " << want << " -> " << j.cmd);
    double t = tolOf({prev, d});
    if (prev < lo || prev > hi) { // starts outside: never further outside
      CHECK(j.cmd >= std::min(prev, lo) - t && j.cmd <= std::max(prev, hi) + t, "command moved further outside the position limits");
    } else {
      CHECK(j.cmd >= lo && j.cmd <= hi, "command " << j.cmd << " is outside the position limits");
      if (l.has_velocity_limits) CHECK(std::fabs(j.cmd - prev) <= d + t, "command moved by " << j.cmd - prev << ", allowed " << d);
      double e = l.has_velocity_limits ? clampd(clampd(want, prev - d, prev + d), lo, hi) : clampd(want, std::max(lo, -std::numeric_limits<double>::max()), std::min(hi, std::numeric_limits<double>::max()));
      CHECK(closeTo(j.cmd, e, t), "command " << want << " became " << j.cmd << ", nearest allowed is " << e);
      if (want == j.cmd) { if (cut) passed = true; } else cut = true;
    }
    prev = j.cmd;
  }
  if (cut && passed) s.nontrivial();
  s.label(l.has_position_limits ? (l.has_velocity_limits ? "position and velocity limits" : "position limits") : l.has_velocity_limits ? "velocity limits" : "no limits");
}

PROPERTY(C28, soft, "some command is changed by the limits and some later one passes unchanged", 300000, 3000000)
{
  JointLimits l = genLimits(s, true, false); SoftJointLimits f = genSoft(s, l); Joint j; j.name = "j"; j.pos = measured(s, l); PositionJointSoftLimitsHandle h(j.handle(), l, f); CHECK(h.getName() == "j", "name");
  NOTE("limits" << str(l) << str(f)); double prev = NAN; bool cut = false, passed = false; ros::Duration dt = genPeriod(s); const double inf = std::numeric_limits<double>::infinity();
  double lo = l.has_position_limits ? l.min_position : -inf, hi = l.has_position_limits ? l.max_position : inf;
  for (int k = 0; k < 14 && (k == 0 || s.more(6)); ++k) {
    if (s.chance(1, 8)) { h.reset(); prev = NAN; NOTE("reset"); }
    if (s.chance(1, 3)) j.pos = measured(s, l);
    if (s.chance(1, 4)) dt = genPeriod(s);
    if (s.chance(1, 12)) { NOTE("no command (NaN)"); j.cmd = NAN; Frozen f0(j); h.enforceLimits(dt); f0.check(j); CHECK(std::isnan(j.cmd) || (j.cmd >= std::min(lo, j.pos) && j.cmd <= std::max(hi, j.pos)), "no command became " << j.cmd << ", outside the limits"); prev = j.cmd; continue; }
    if (std::isnan(prev)) prev = j.pos;
    double T = dt.toSec(), d = l.max_velocity * T, want = j.cmd = genCmd(s, prev, d); j.vel = s.signedReal(10); Frozen fr(j);
    h.enforceLimits(dt); fr.check(j);
    NOTE("position " << j.pos << " period " << T << " command " << want << " -> " << j.cmd);
    double vlo, vhi; softVel(l, f, l.max_velocity, prev, vlo, vhi); double t = tolOf({prev, d, f.k_position * prev * T, f.k_position * f.min_position * T, f.k_position * f.max_position * T});
    if (prev < lo || prev > hi) CHECK(j.cmd >= std::min(prev, lo) - t && j.cmd <= std::max(prev, hi) + t, "command moved further outside the position limits");
    else {
      CHECK(j.cmd >= lo && j.cmd <= hi, "command " << j.cmd << " is outside the position limits");
      CHECK(std::fabs(j.cmd - prev) <= d + t, "command moved by " << j.cmd - prev << ", allowed " << d);
      double e = clampd(clampd(want, prev + vlo * T, prev + vhi * T), lo, hi);
      CHECK(closeTo(j.cmd, e, t), "command " << want << " became " << j.cmd << ", nearest allowed is " << e);
      if (want == j.cmd) { if (cut) passed = true; } else cut = true;
    }
    prev = j.cmd;
  }
  if (cut && passed) s.nontrivial(); s.label(l.has_position_limits ? "position limits" : "continuous");
}

PROPERTY(C29, saturation, "some command is changed by the limits and some later one passes unchanged", 300000, 3000000)
{
  JointLimits l = genLimits(s, true, false); Joint j; j.name = "j"; VelocityJointSaturationHandle h(j.handle(), l); CHECK(h.getName() == "j", "name");
  NOTE("limits" << str(l)); double prev = 0; bool after = false, cut = false, passed = false; ros::Duration dt = genPeriod(s);
  for (int k = 0; k < 14 && (k == 0 || s.more(6)); ++k) {
    if (s.chance(1, 4)) dt = genPeriod(s);
    // nothing commanded, as transmissions leave it; what it changes from afterwards is not specified: the last command, none or the measured velocity
    if (s.chance(1, 12)) { NOTE("no command (NaN)"); j.cmd = NAN; Frozen f0(j); h.enforceLimits(dt); f0.check(j); CHECK(std::isnan(j.cmd) || std::fabs(j.cmd) <= l.max_velocity, "no command became " << j.cmd << ", beyond the limit"); if (!std::isnan(j.cmd)) prev = j.cmd; after = true; continue; }
    j.pos = s.signedReal(10); j.vel = s.signedReal(10); double a = l.max_acceleration * dt.toSec(), v = l.max_velocity, want = j.cmd = genCmd(s, l.has_acceleration_limits ? prev : 0, l.has_acceleration_limits ? a : v); Frozen fr(j);
    h.enforceLimits(dt); fr.check(j);
    NOTE("period " << dt.toSec() << " command " << want << " -> " << j.cmd); double t = tolOf({prev, a, v});
    CHECK(std::fabs(j.cmd) <= v, "velocity command " << j.cmd << " exceeds the limit " << v);
    if (after) { after = false; if (l.has_acceleration_limits) CHECK(j.cmd >= std::min({prev, 0.0, j.vel}) - a - t && j.cmd <= std::max({prev, 0.0, j.vel}) + a + t, "first velocity command after none changed too much: " << j.cmd); prev = j.cmd; continue; }
    if (l.has_acceleration_limits) CHECK(std::fabs(j.cmd - prev) <= a + t, "velocity command changed by " << j.cmd - prev << ", allowed " << a);
    double e = l.has_acceleration_limits ? clampd(clampd(want, prev - a, prev + a), -v, v) : clampd(want, -v, v);
    CHECK(closeTo(j.cmd, e, t), "command " << want << " became " << j.cmd << ", nearest allowed is " << e);
    if (want == j.cmd) { if (cut) passed = true; } else cut = true;
    prev = j.cmd;
  }
  if (cut && passed) s.nontrivial(); s.label(l.has_acceleration_limits ? "with acceleration limits" : "velocity limits only");
}

PROPERTY(C29, soft, "some command is changed by the limits and some later one passes unchanged", 300000, 3000000)
{
  JointLimits l = genLimits(s, false, false); SoftJointLimits f = genSoft(s, l); Joint j; j.name = "j"; VelocityJointSoftLimitsHandle h(j.handle(), l, f); CHECK(h.getName() == "j", "name");
  NOTE("limits" << str(l) << str(f)); bool cut = false, passed = false; ros::Duration dt = genPeriod(s);
  double v = l.has_velocity_limits ? l.max_velocity : std::numeric_limits<double>::max();
  for (int k = 0; k < 10 && (k == 0 || s.more(5)); ++k) {
    if (s.chance(1, 4)) dt = genPeriod(s);
    if (s.chance(1, 12)) { NOTE("no command (NaN)"); j.cmd = NAN; h.enforceLimits(dt); CHECK(std::isnan(j.cmd) || std::fabs(j.cmd) <= v, "no command became " << j.cmd); continue; }
    j.pos = measured(s, l); j.vel = s.chance(1, 3) ? s.signedReal(100) : (l.has_velocity_limits ? l.max_velocity : 10) * s.real(-1, 1); double a = l.max_acceleration * dt.toSec();
    double lo, hi; softVel(l, f, v, j.pos, lo, hi); double want = j.cmd = genCmd(s, l.has_acceleration_limits ? j.vel : 0, l.has_acceleration_limits ? a : l.max_velocity); Frozen fr(j);
    h.enforceLimits(dt); fr.check(j);
    NOTE("position " << j.pos << " velocity " << j.vel << " period " << dt.toSec() << " command " << want << " -> " << j.cmd);
    double t = tolOf({j.vel, a, f.k_position * j.pos, f.k_position * f.min_position, f.k_position * f.max_position});
    CHECK(std::fabs(j.cmd) <= v, "velocity command " << j.cmd << " exceeds the limit " << v);
    double wlo = l.has_acceleration_limits ? j.vel - a : lo, whi = l.has_acceleration_limits ? j.vel + a : hi;
    if (whi < lo - t || wlo > hi + t) { // acceleration and position-dependent bounds exclude each other: somewhere between the two
      double x = whi < lo ? whi : hi, y = whi < lo ? lo : wlo;
      CHECK(j.cmd >= clampd(x, -v, v) - t && j.cmd <= clampd(y, -v, v) + t, "velocity command " << j.cmd << " is neither within reach nor nearer to the bounds [" << lo << "," << hi << "]"); s.label("contradictory bounds"); continue;
    }
    CHECK(j.cmd >= lo - t && j.cmd <= hi + t, "velocity command " << j.cmd << " is outside the bounds [" << lo << "," << hi << "] at position " << j.pos);
    if (l.has_acceleration_limits) CHECK(j.cmd >= wlo - t && j.cmd <= whi + t, "velocity command " << j.cmd << " needs more acceleration than allowed");
    double e = clampd(l.has_acceleration_limits ? clampd(want, wlo, whi) : want, lo, hi);
    CHECK(closeTo(j.cmd, e, t), "command " << want << " became " << j.cmd << ", nearest allowed is " << e);
    if (want == j.cmd) { if (cut) passed = true; } else cut = true;
  }
  if (cut && passed) s.nontrivial(); s.label(std::string(l.has_position_limits ? "position" : "continuous") + (l.has_velocity_limits ? ", velocity" : "") + (l.has_acceleration_limits ? ", acceleration" : ""));
}

PROPERTY(C30, saturation, "the joint is outside a limit or the command exceeds the effort limit", 600000, 6000000)
{
  JointLimits l = genLimits(s, true, true); Joint j; j.name = "j"; EffortJointSaturationHandle h(j.handle(), l); CHECK(h.getName() == "j", "name"); NOTE("limits" << str(l));
  for (int k = 0; k < 5 && (k == 0 || s.more(3)); ++k) {
    j.pos = s.chance(1, 6) ? s.oneof({l.min_position, l.max_position}) : measured(s, l); j.vel = s.chance(1, 6) ? s.oneof({l.max_velocity, -l.max_velocity}) : l.max_velocity * s.real(-1.5, 1.5); j.eff = s.signedReal(10);
    double want = j.cmd = genCmd(s, 0, l.max_effort); Frozen fr(j); ros::Duration dt = genPeriod(s); h.enforceLimits(dt); fr.check(j);
    NOTE("position " << j.pos << " velocity " << j.vel << " command " << want << " -> " << j.cmd);
    CHECK(std::fabs(j.cmd) <= l.max_effort, "effort command " << j.cmd << " exceeds the limit " << l.max_effort);
    bool low = (l.has_position_limits && j.pos < l.min_position) || j.vel < -l.max_velocity, high = (l.has_position_limits && j.pos > l.max_position) || j.vel > l.max_velocity;
    if (low) CHECK(j.cmd >= 0, "effort pushes further below the limits: " << j.cmd);
    if (high) CHECK(j.cmd <= 0, "effort pushes further above the limits: " << j.cmd);
    double e = clampd(want, low ? 0 : -l.max_effort, high ? 0 : l.max_effort);
    CHECK(j.cmd == e, "command " << want << " became " << j.cmd << ", nearest allowed is " << e);
    if (low || high || want != j.cmd) s.nontrivial(); s.label(low && high ? "both" : low ? "below" : high ? "above" : "inside");
  }
}

PROPERTY(C30, soft, "the command is changed by a bound tighter than the effort limit", 600000, 6000000)
{
  JointLimits l = genLimits(s, true, true); SoftJointLimits f = genSoft(s, l); Joint j; j.name = "j"; EffortJointSoftLimitsHandle h(j.handle(), l, f); CHECK(h.getName() == "j", "name"); NOTE("limits" << str(l) << str(f));
  for (int k = 0; k < 5 && (k == 0 || s.more(3)); ++k) {
    j.pos = measured(s, l); j.vel = l.max_velocity * s.real(-1.5, 1.5); j.eff = s.signedReal(10);
    double want = j.cmd = genCmd(s, 0, l.max_effort); Frozen fr(j); ros::Duration dt = genPeriod(s); h.enforceLimits(dt); fr.check(j);
    double vlo, vhi; softVel(l, f, l.max_velocity, j.pos, vlo, vhi);
    double lo = clampd(-f.k_velocity * (j.vel - vlo), -l.max_effort, l.max_effort), hi = clampd(-f.k_velocity * (j.vel - vhi), -l.max_effort, l.max_effort), e = clampd(want, lo, hi);
    double t = tolOf({f.k_velocity * j.vel, f.k_velocity * f.k_position * j.pos, f.k_velocity * f.k_position * f.min_position, f.k_velocity * f.k_position * f.max_position});
    NOTE("position " << j.pos << " velocity " << j.vel << " command " << want << " -> " << j.cmd);
    CHECK(std::fabs(j.cmd) <= l.max_effort, "effort command " << j.cmd << " exceeds the limit " << l.max_effort);
    CHECK(closeTo(j.cmd, e, t), "command " << want << " became " << j.cmd << ", nearest allowed is " << e << " in [" << lo << "," << hi << "]");
    if (j.cmd != want && std::fabs(j.cmd) < l.max_effort) s.nontrivial(); s.label(want == j.cmd ? "unchanged" : std::fabs(j.cmd) < l.max_effort ? "soft bound" : "effort limit");
  }
}

namespace {
enum K { PSAT, PSOFT, ESAT, ESOFT, VSAT, VSOFT };
const char* knames[] = {"position saturation", "position soft limits", "effort saturation", "effort soft limits", "velocity saturation", "velocity soft limits"};
template <class I, class H, bool SOFT, bool RESET> struct Tr { typedef I Iface; typedef H Handle; static const bool soft = SOFT, reset = RESET; };
template <class H> H mkHandle(const JointHandle& jh, const JointLimits& l, const SoftJointLimits& f, std::true_type) { return H(jh, l, f); }
template <class H> H mkHandle(const JointHandle& jh, const JointLimits& l, const SoftJointLimits&, std::false_type) { return H(jh, l); }
template <class T> void doReset(T& x, std::true_type) { x.reset(); } template <class T> void doReset(T&, std::false_type) {}
template <class F> void each(int k, F f) {
  switch (k) {
    case PSAT: f(Tr<PositionJointSaturationInterface, PositionJointSaturationHandle, false, true>()); break; case PSOFT: f(Tr<PositionJointSoftLimitsInterface, PositionJointSoftLimitsHandle, true, true>()); break;
    case ESAT: f(Tr<EffortJointSaturationInterface, EffortJointSaturationHandle, false, false>()); break; case ESOFT: f(Tr<EffortJointSoftLimitsInterface, EffortJointSoftLimitsHandle, true, false>()); break;
    case VSAT: f(Tr<VelocityJointSaturationInterface, VelocityJointSaturationHandle, false, false>()); break; default: f(Tr<VelocityJointSoftLimitsInterface, VelocityJointSoftLimitsHandle, true, false>());
  }
}
}

PROPERTY(C31, construct, "a needed limit is missing", 40000, 1000000)
{
  int k = (int)s.index(6); JointLimits l = genLimits(s, false, false); SoftJointLimits f = genSoft(s, l); Joint j; j.name = "foo"; NOTE(knames[k] << str(l)); bool threw = false;
  each(k, [&](auto t) { typedef decltype(t) T; try { auto h = mkHandle<typename T::Handle>(j.handle(), l, f, std::integral_constant<bool, T::soft>()); CHECK(h.getName() == "foo", "name"); } catch (const JointLimitsInterfaceException&) { threw = true; } });
  bool needV = k == PSOFT || k == ESAT || k == ESOFT || k == VSAT, needE = k == ESAT || k == ESOFT; bool bad = (needV && !l.has_velocity_limits) || (needE && !l.has_effort_limits);
  if (bad) s.nontrivial(); s.label(std::string(knames[k]) + (bad ? " refused" : " accepted")); CHECK(threw == bad, knames[k] << (threw ? " refused a complete specification" : " accepted an incomplete specification"));
}

PROPERTY(C31, interface, "two or more joints, a reset or a replaced handle, and three or more enforcements", 30000, 1000000)
{
  int k = (int)s.index(6); int enforced = 0; bool special = false;
  each(k, [&](auto tr) {
    typedef decltype(tr) T; typedef typename T::Handle H; typename T::Iface iface;
    struct Twin { Joint a, b; std::unique_ptr<H> h; bool active = true; }; std::vector<std::unique_ptr<Twin>> js; pbt::drawSpelling(s); std::map<std::string, Twin*> reg;
    auto add = [&](const std::string& name) {
      std::unique_ptr<Twin> t(new Twin); JointLimits l = genLimits(s, true, true); SoftJointLimits f = genSoft(s, l); t->a.name = t->b.name = name; t->a.pos = t->b.pos = measured(s, l);
      NOTE("register " << name << str(l) << (T::soft ? str(f) : "")); iface.registerHandle(mkHandle<H>(t->a.handle(), l, f, std::integral_constant<bool, T::soft>())); t->h.reset(new H(mkHandle<H>(t->b.handle(), l, f, std::integral_constant<bool, T::soft>())));
      if (reg.count(name)) { reg[name]->active = false; special = true; } reg[name] = t.get(); js.push_back(std::move(t)); };
    size_t n = (size_t)s.range(1, 4); for (size_t i = 0; i < n; ++i) add(pbt::spelt("j", i));
    if (n > 1) {}
    for (int step = 0; step < 20 && (step == 0 || s.more(8)); ++step) switch (s.weighted({8, 1, 1, 1})) {
      case 0: { ros::Duration dt = genPeriod(s); for (auto& t : js) { t->a.cmd = t->b.cmd = genCmd(s, t->a.cmd, 5); if (s.chance(1, 3)) t->a.pos = t->b.pos = s.signedReal(10); t->a.vel = t->b.vel = s.signedReal(10); }
        iface.enforceLimits(dt); ++enforced; for (auto& t : js) if (t->active) t->h->enforceLimits(dt);
        for (size_t i = 0; i < js.size(); ++i) CHECK(js[i]->a.cmd == js[i]->b.cmd && js[i]->a.pos == js[i]->b.pos && js[i]->a.vel == js[i]->b.vel, knames[k] << ": joint " << js[i]->a.name << " has command " << js[i]->a.cmd << " through the interface, " << js[i]->b.cmd << " alone");
        break; }
      case 1: NOTE("reset"); doReset(iface, std::integral_constant<bool, T::reset>());
        if (T::reset) { special = true; for (auto& t : js) if (t->active) doReset(*t->h, std::integral_constant<bool, T::reset>()); } break;
      case 2: if (js.size() < 8) add(pbt::spelt("j", s.index(5))); break;
      default: { std::string q = pbt::spelt("j", s.index(7)); bool threw = false; try { CHECK(iface.getHandle(q).getName() == q, "lookup returned another joint"); } catch (const JointLimitsInterfaceException&) { threw = true; }
        CHECK(threw == !reg.count(q), "lookup of " << q << (threw ? " failed" : " succeeded")); }
    }
    if (reg.size() > 1 && special && enforced >= 3) s.nontrivial();
  });
  s.label(knames[k]);
}

PROPERTY(C31, reset, "two or more commands before the reset", 30000, 1000000)
{ // after a reset a handle behaves as a new one
  bool soft = s.boolean(); JointLimits l = genLimits(s, true, true); SoftJointLimits f = genSoft(s, l); Joint a, b; a.name = b.name = "j"; a.pos = measured(s, l); NOTE("limits" << str(l) << (soft ? str(f) : ""));
  PositionJointSaturationHandle h1(a.handle(), l), h2(b.handle(), l); PositionJointSoftLimitsHandle g1(a.handle(), l, f), g2(b.handle(), l, f); size_t n = (size_t)s.range(0, 6); ros::Duration dt = genPeriod(s);
  for (size_t i = 0; i < n; ++i) { a.cmd = genCmd(s, a.cmd, 2); if (s.boolean()) a.pos = measured(s, l); soft ? g1.enforceLimits(dt) : h1.enforceLimits(dt); NOTE("before: " << a.cmd); }
  soft ? g1.reset() : h1.reset(); a.pos = b.pos = measured(s, l);
  for (int i = 0; i < 3; ++i) { a.cmd = b.cmd = genCmd(s, a.pos, 2); soft ? g1.enforceLimits(dt) : h1.enforceLimits(dt); soft ? g2.enforceLimits(dt) : h2.enforceLimits(dt); CHECK(a.cmd == b.cmd, "after a reset the command is " << a.cmd << ", for a new handle " << b.cmd); }
  if (n >= 2) s.nontrivial(); s.label(soft ? "soft limits" : "saturation");
}

namespace {
bool eq(const JointLimits& a, const JointLimits& b) { return a.min_position == b.min_position && a.max_position == b.max_position && a.max_velocity == b.max_velocity && a.max_acceleration == b.max_acceleration && a.max_jerk == b.max_jerk && a.max_effort == b.max_effort && a.has_position_limits == b.has_position_limits && a.has_velocity_limits == b.has_velocity_limits && a.has_acceleration_limits == b.has_acceleration_limits && a.has_jerk_limits == b.has_jerk_limits && a.has_effort_limits == b.has_effort_limits && a.angle_wraparound == b.angle_wraparound; }
std::string full(const JointLimits& l) { std::ostringstream o; o << "{" << l.has_position_limits << " " << l.min_position << " " << l.max_position << ", " << l.has_velocity_limits << " " << l.max_velocity << ", " << l.has_acceleration_limits << " " << l.max_acceleration << ", " << l.has_jerk_limits << " " << l.max_jerk << ", " << l.has_effort_limits << " " << l.max_effort << ", " << l.angle_wraparound << "}"; return o.str(); }
JointLimits anyLimits(Src& s) { JointLimits l = genLimits(s, false, false); l.angle_wraparound = s.boolean(); return l; }
bool eq(const SoftJointLimits& a, const SoftJointLimits& b) { return a.min_position == b.min_position && a.max_position == b.max_position && a.k_position == b.k_position && a.k_velocity == b.k_velocity; }
}

PROPERTY(C32, limits, "at least one limit is configured and at least one is incomplete or ill-typed", 60000, 1500000)
{
  ros::shim::params().clear(); std::string ns = s.boolean() ? "/" : "/robot", joint = s.chance(1, 12) ? s.oneof<std::string>({"bad name", "a-b", "other"}) : "foo_joint", base = (ns == "/" ? "" : ns) + "/joint_limits/"; bool configured = s.chance(7, 8); auto& P = ros::shim::params();
  std::map<std::string, XmlRpc::XmlRpcValue> mine; bool anyGood = false, anyBad = false;
  auto put = [&](const std::string& key, const XmlRpc::XmlRpcValue& v) { if (configured) P[base + "foo_joint/" + key] = v; mine[key] = v; if (s.verbose) { std::ostringstream o; o << key << ": "; switch (v.getType()) { case XmlRpc::XmlRpcValue::TypeBoolean: o << ((const bool&)v ? "true" : "false"); break; case XmlRpc::XmlRpcValue::TypeInt: o << (const int&)v; break; case XmlRpc::XmlRpcValue::TypeDouble: o << (const double&)v; break; default: o << "\"" << (const std::string&)v << "\""; } s.note(o.str()); } };
  // a flag: absent, true, false or ill-typed; returns 0 absent/ill-typed, 1 true, 2 false
  auto flag = [&](const std::string& key) { switch (s.weighted({2, 6, 3, 1})) { case 0: return 0; case 1: put(key, true); return 1; case 2: put(key, false); return 2; default: if (s.boolean()) put(key, std::string("true")); else put(key, 1); anyBad = true; return 0; } };
  auto value = [&](const std::string& key, double& v) { switch (s.weighted({8, 2, 2, 1})) { case 0: v = s.signedReal(100); put(key, v); return true; case 1: v = (double)s.range(-20, 20); put(key, (int)v); return true; case 2: return false; default: put(key, std::string("1.0")); anyBad = true; return false; } };
  JointLimits before = anyLimits(s), want = before, got = before; double a, b;
  int fl = flag("has_position_limits"); bool ha = value("min_position", a), hb = value("max_position", b);
  if (fl == 1) { if (ha && hb) { want.has_position_limits = true; want.min_position = a; want.max_position = b; anyGood = true; } else anyBad = true; }
  int aw = flag("angle_wraparound"); if (fl == 2) { want.has_position_limits = false; anyGood = true; if (aw) want.angle_wraparound = aw == 1; }
  struct { const char* f; const char* v; bool JointLimits::*hf; double JointLimits::*hv; } rows[] = {{"has_velocity_limits", "max_velocity", &JointLimits::has_velocity_limits, &JointLimits::max_velocity}, {"has_acceleration_limits", "max_acceleration", &JointLimits::has_acceleration_limits, &JointLimits::max_acceleration}, {"has_jerk_limits", "max_jerk", &JointLimits::has_jerk_limits, &JointLimits::max_jerk}, {"has_effort_limits", "max_effort", &JointLimits::has_effort_limits, &JointLimits::max_effort}};
  for (auto& r : rows) { fl = flag(r.f); bool hv = value(r.v, a); if (fl == 1) { if (hv) { want.*(r.hf) = true; want.*(r.hv) = a; anyGood = true; } else anyBad = true; } else if (fl == 2) { want.*(r.hf) = false; anyGood = true; } }
  P[base + "another/max_velocity"] = XmlRpc::XmlRpcValue(7.5); P[base + "another/has_velocity_limits"] = XmlRpc::XmlRpcValue(true);
  bool found = configured && !mine.empty() && joint == "foo_joint"; if (!found) want = before;
  bool r = getJointLimits(joint, ros::NodeHandle(ns), got); NOTE("joint " << joint << " in " << ns << (configured ? "" : " (not configured)"));
  CHECK(r == found, "returned " << r << " although the specification " << (found ? "exists" : "does not exist"));
  CHECK(eq(got, want), "limits are " << full(got) << ", expected " << full(want) << ", before " << full(before));
  if (found && anyGood && anyBad) s.nontrivial(); s.label(found ? "found" : "not found");
}

PROPERTY(C32, soft, "the specification exists and is incomplete, ill-typed or switched off", 40000, 1000000)
{
  ros::shim::params().clear(); auto& P = ros::shim::params(); std::string b = "/joint_limits/foo/"; SoftJointLimits before{s.signedReal(10), s.signedReal(10), s.signedReal(10), s.signedReal(10)}, want, got = before; bool ok = true;
  switch (s.weighted({8, 1, 1, 1})) { case 0: P[b + "has_soft_limits"] = XmlRpc::XmlRpcValue(true); break; case 1: P[b + "has_soft_limits"] = XmlRpc::XmlRpcValue(false); ok = false; break; case 2: ok = false; break; default: P[b + "has_soft_limits"] = XmlRpc::XmlRpcValue(1); ok = false; }
  struct { const char* k; double SoftJointLimits::*v; } rows[] = {{"k_position", &SoftJointLimits::k_position}, {"k_velocity", &SoftJointLimits::k_velocity}, {"soft_lower_limit", &SoftJointLimits::min_position}, {"soft_upper_limit", &SoftJointLimits::max_position}};
  for (auto& r : rows) switch (s.weighted({10, 4, 1, 1})) { case 0: want.*(r.v) = s.signedReal(100); P[b + r.k] = XmlRpc::XmlRpcValue(want.*(r.v)); break; case 1: { int i = (int)s.range(-9, 9); want.*(r.v) = i; P[b + r.k] = XmlRpc::XmlRpcValue(i); break; } case 2: ok = false; NOTE(r.k << " missing"); break; default: P[b + r.k] = XmlRpc::XmlRpcValue(std::string("x")); ok = false; NOTE(r.k << " is a string"); }
  std::string joint = s.chance(1, 10) ? s.oneof<std::string>({"bar", "bad name"}) : "foo"; if (joint != "foo") ok = false;
  bool r = getSoftJointLimits(joint, ros::NodeHandle("/"), got); if (!ok) want = before; NOTE(joint << " -> " << r);
  CHECK(r == ok, (ok ? "a complete specification was not used" : "an incomplete specification was reported as complete")); CHECK(eq(got, want), "soft limits were " << (ok ? "not read faithfully" : "changed"));
  if (!ok) s.nontrivial(); s.label(ok ? "complete" : "incomplete");
}

PROPERTY(C33, urdf, "the joint has limits or safety data", 60000, 1500000)
{
  urdf::JointSharedPtr j; if (!s.chance(1, 15)) { j = std::make_shared<urdf::Joint>(); j->name = "j"; j->type = s.oneof({urdf::Joint::UNKNOWN, urdf::Joint::REVOLUTE, urdf::Joint::CONTINUOUS, urdf::Joint::PRISMATIC, urdf::Joint::FLOATING, urdf::Joint::PLANAR, urdf::Joint::FIXED});
    if (s.chance(5, 6)) { j->limits = std::make_shared<urdf::JointLimits>(); j->limits->lower = s.signedReal(10); j->limits->upper = s.signedReal(10); j->limits->effort = s.signedReal(100); j->limits->velocity = s.signedReal(100); }
    if (s.chance(5, 6)) { j->safety = std::make_shared<urdf::JointSafety>(); j->safety->soft_lower_limit = s.signedReal(10); j->safety->soft_upper_limit = s.signedReal(10); j->safety->k_position = s.signedReal(100); j->safety->k_velocity = s.signedReal(100); } }
  JointLimits before = anyLimits(s), want = before, got = before; SoftJointLimits sb{s.signedReal(10), s.signedReal(10), s.signedReal(10), s.signedReal(10)}, sw = sb, sg = sb; bool ok = j && j->limits, sok = j && j->safety;
  if (ok) { bool pl = j->type == urdf::Joint::REVOLUTE || j->type == urdf::Joint::PRISMATIC; want.has_position_limits = pl; if (pl) { want.min_position = j->limits->lower; want.max_position = j->limits->upper; } if (j->type == urdf::Joint::CONTINUOUS) want.angle_wraparound = true;
    want.has_velocity_limits = want.has_effort_limits = true; want.max_velocity = j->limits->velocity; want.max_effort = j->limits->effort; want.has_acceleration_limits = false; }
  if (sok) { sw.min_position = j->safety->soft_lower_limit; sw.max_position = j->safety->soft_upper_limit; sw.k_position = j->safety->k_position; sw.k_velocity = j->safety->k_velocity; }
  bool r = getJointLimits(urdf::JointConstSharedPtr(j), got), r2 = getSoftJointLimits(urdf::JointConstSharedPtr(j), sg); NOTE("type " << (j ? (int)j->type : -1) << " limits " << ok << " safety " << sok);
  CHECK(r == ok, "limits reported " << r); CHECK(eq(got, want), "limits are " << full(got) << ", expected " << full(want)); CHECK(r2 == sok, "soft limits reported " << r2); CHECK(eq(sg, sw), "soft limits differ from the description");
  if (ok || sok) s.nontrivial(); s.label(j ? "type " + std::to_string((int)j->type) : "no joint");
}

// C20 round trip, C21 documented maps, C22 power, C23 construction, C24 handles and interfaces
#include "pbt.h"
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission.h>
#include <transmission_interface/transmission_interface.h>
#include <memory>
#include <array>
using namespace transmission_interface;
using pbt::Src; using pbt::near;
typedef long double L;
namespace {
enum Q { POS, VEL, EFF, ABS, TOR, NQ };
const char* qn[] = {"position", "velocity", "effort", "absolute position", "torque sensor"};
enum Kind { SIMPLE, DIFF, FOURBAR };
const char* kn[] = {"simple", "differential", "four-bar"};

struct Spec {
  Kind kind; size_t n; std::vector<double> ar, jr, off; bool ignoreAbs = false;
  std::string str() const { std::ostringstream o; o.precision(17); o << kn[kind] << " actuator_reduction=" << pbt::show(ar) << " joint_reduction=" << pbt::show(jr) << " offset=" << pbt::show(off) << (ignoreAbs ? " ignore_for_absolute" : ""); return o.str(); }
};
double ratio(Src& s) { double r = s.positive(1e-2, 1e3); return s.boolean() ? -r : r; }
Spec genSpec(Src& s) {
  Spec t; t.kind = (Kind)s.index(3); t.n = t.kind == SIMPLE ? 1 : 2;
  for (size_t i = 0; i < t.n; ++i) t.ar.push_back(ratio(s));
  if (t.n == 2) for (size_t i = 0; i < 2; ++i) t.jr.push_back(ratio(s));
  for (size_t i = 0; i < t.n; ++i) t.off.push_back(s.signedReal(100));
  // symmetric mechanisms: ratios (and offsets) that coincide
  if (s.chance(1, 6)) { double p[2] = {ratio(s), ratio(s)}; size_t m = s.oneof<size_t>({1, 1, 2}); for (auto* v : {&t.ar, &t.jr}) for (double& x : *v) { x = p[s.index(m)]; if (s.chance(1, 6)) x = -x; } if (s.boolean()) for (double& x : t.off) x = t.off[0]; }
  if (t.kind == DIFF) t.ignoreAbs = s.boolean();
  return t;
}
std::unique_ptr<Transmission> make(const Spec& t, Src& s) {
  if (t.kind == SIMPLE) return t.off[0] == 0 && s.boolean() ? std::unique_ptr<Transmission>(new SimpleTransmission(t.ar[0])) : std::unique_ptr<Transmission>(new SimpleTransmission(t.ar[0], t.off[0]));
  bool noOff = t.off[0] == 0 && t.off[1] == 0;
  if (t.kind == DIFF) {
    if (noOff && !t.ignoreAbs && s.boolean()) return std::unique_ptr<Transmission>(new DifferentialTransmission(t.ar, t.jr));
    if (!t.ignoreAbs && s.boolean()) return std::unique_ptr<Transmission>(new DifferentialTransmission(t.ar, t.jr, t.off));
    return std::unique_ptr<Transmission>(new DifferentialTransmission(t.ar, t.jr, t.ignoreAbs, t.off));
  }
  if (noOff && s.boolean()) return std::unique_ptr<Transmission>(new FourBarLinkageTransmission(t.ar, t.jr));
  return std::unique_ptr<Transmission>(new FourBarLinkageTransmission(t.ar, t.jr, t.off));
}

// reference maps, after the documentation of each class
void refA2J(const Spec& t, Q q, const L* a, L* j, L* scale) {
  auto off = [&](size_t i) { return q == POS || q == ABS ? (L)t.off[i] : (L)0; };
  if (t.kind == SIMPLE) {
    if (q == EFF || q == TOR) j[0] = t.ar[0] * a[0]; else j[0] = a[0] / t.ar[0] + off(0);
    scale[0] = fabsl(j[0] - off(0)) + fabsl(off(0)); return;
  }
  if (q == ABS && t.kind == DIFF && t.ignoreAbs) { j[0] = a[1]; j[1] = a[0]; scale[0] = scale[1] = 0; return; } // encoders sit on the joints, in swapped order
  if (t.kind == DIFF) {
    if (q == EFF || q == TOR) { L x = t.ar[0] * a[0], y = t.ar[1] * a[1]; j[0] = t.jr[0] * (x + y); j[1] = t.jr[1] * (x - y); for (int i = 0; i < 2; ++i) scale[i] = fabsl(t.jr[i]) * (fabsl(x) + fabsl(y)); }
    else { L x = a[0] / t.ar[0], y = a[1] / t.ar[1]; j[0] = (x + y) / (2 * (L)t.jr[0]) + off(0); j[1] = (x - y) / (2 * (L)t.jr[1]) + off(1); for (int i = 0; i < 2; ++i) scale[i] = (fabsl(x) + fabsl(y)) / fabsl(t.jr[i]) + fabsl(off(i)); }
  } else {
    if (q == EFF || q == TOR) { L x = (L)t.jr[0] * t.ar[0] * a[0], y = t.ar[1] * a[1]; j[0] = x; j[1] = t.jr[1] * (y - x); scale[0] = fabsl(x); scale[1] = fabsl(t.jr[1]) * (fabsl(x) + fabsl(y)); }
    else { L x = a[0] / ((L)t.jr[0] * t.ar[0]), y = a[1] / t.ar[1]; j[0] = x + off(0); j[1] = (y - x) / t.jr[1] + off(1); scale[0] = fabsl(x) + fabsl(off(0)); scale[1] = (fabsl(x) + fabsl(y)) / fabsl(t.jr[1]) + fabsl(off(1)); }
  }
}
void refJ2A(const Spec& t, Q q, const L* jj, L* a, L* scale) {
  L j[2], m[2]; for (size_t i = 0; i < t.n; ++i) { L o = q == POS ? (L)t.off[i] : 0; j[i] = jj[i] - o; m[i] = fabsl(jj[i]) + fabsl(o); }
  if (t.kind == SIMPLE) { if (q == EFF) { a[0] = j[0] / t.ar[0]; scale[0] = fabsl(a[0]); } else { a[0] = j[0] * t.ar[0]; scale[0] = m[0] * fabsl(t.ar[0]); } return; }
  if (t.kind == DIFF) {
    if (q == EFF) { L x = j[0] / t.jr[0], y = j[1] / t.jr[1]; a[0] = (x + y) / (2 * (L)t.ar[0]); a[1] = (x - y) / (2 * (L)t.ar[1]); for (int i = 0; i < 2; ++i) scale[i] = (fabsl(x) + fabsl(y)) / fabsl(t.ar[i]); }
    else { L x = j[0] * t.jr[0], y = j[1] * t.jr[1]; a[0] = (x + y) * t.ar[0]; a[1] = (x - y) * t.ar[1]; for (int i = 0; i < 2; ++i) scale[i] = (m[0] * fabsl(t.jr[0]) + m[1] * fabsl(t.jr[1])) * fabsl(t.ar[i]); }
  } else {
    if (q == EFF) { a[0] = j[0] / ((L)t.ar[0] * t.jr[0]); L y = j[1] / t.jr[1]; a[1] = (j[0] + y) / t.ar[1]; scale[0] = fabsl(a[0]); scale[1] = (fabsl(j[0]) + fabsl(y)) / fabsl(t.ar[1]); }
    else { a[0] = j[0] * t.jr[0] * t.ar[0]; a[1] = (j[0] + j[1] * t.jr[1]) * t.ar[1]; scale[0] = m[0] * fabsl((L)t.jr[0] * t.ar[0]); scale[1] = (m[0] + m[1] * fabsl(t.jr[1])) * fabsl(t.ar[1]); }
  }
}
void a2j(Transmission& t, Q q, const ActuatorData& a, JointData& j) {
  switch (q) { case POS: t.actuatorToJointPosition(a, j); break; case VEL: t.actuatorToJointVelocity(a, j); break; case EFF: t.actuatorToJointEffort(a, j); break; case ABS: t.actuatorToJointAbsolutePosition(a, j); break; default: t.actuatorToJointTorqueSensor(a, j); }
}
void j2a(Transmission& t, Q q, const JointData& j, ActuatorData& a) {
  switch (q) { case POS: t.jointToActuatorPosition(j, a); break; case VEL: t.jointToActuatorVelocity(j, a); break; default: t.jointToActuatorEffort(j, a); }
}
// raw storage for every quantity of both sides
struct Raw {
  double a[NQ][2], j[NQ][2];
  void fill(Src& s) { for (auto& r : a) for (double& x : r) x = s.signedReal(1e3); for (auto& r : j) for (double& x : r) x = s.signedReal(1e3); }
  template <class D> static std::vector<double*>& vec(D& d, int q) { std::vector<double*>* v[] = {&d.position, &d.velocity, &d.effort, &d.absolute_position, &d.torque_sensor}; return *v[q]; }
  void link(ActuatorData& ad, JointData& jd, size_t n, const bool* useA, const bool* useJ)
  { for (int q = 0; q < NQ; ++q) { if (useA[q]) for (size_t i = 0; i < n; ++i) vec(ad, q).push_back(&a[q][i]); if (useJ[q]) for (size_t i = 0; i < n; ++i) vec(jd, q).push_back(&j[q][i]); } }
};
bool sameVal(double x, double y) { return memcmp(&x, &y, sizeof x) == 0; }
const bool ALL[] = {true, true, true, true, true};
}

PROPERTY(C20, roundtrip, "the ratios are not all 1 and every value that is mapped is nonzero", 400000, 12000000)
{
  Spec t = genSpec(s); auto tr = make(t, s); Raw r; memset(&r, 0, sizeof r); ActuatorData a; JointData j; bool use[NQ] = {false}; Q q = (Q)s.index(3); use[q] = true; r.link(a, j, t.n, use, use);
  bool fromAct = s.boolean(); L x[2], mid[2], back[2], sc[2], sc2[2]; bool nz = true, unit = true;
  for (double v : t.ar) if (v != 1) unit = false; for (double v : t.jr) if (v != 1) unit = false;
  for (size_t i = 0; i < t.n; ++i) { double v = s.signedReal(1e3); if (v == 0) nz = false; x[i] = v; (fromAct ? r.a : r.j)[q][i] = v; (fromAct ? r.j : r.a)[q][i] = NAN; }
  s.label(std::string(kn[t.kind]) + " " + qn[q]); if (nz && !unit) s.nontrivial();
  NOTE(t.str() << ", " << qn[q] << (fromAct ? " actuator->joint->actuator " : " joint->actuator->joint ") << (double)x[0] << (t.n > 1 ? " " + std::to_string((double)x[1]) : ""));
  for (int k = 0; k < (int)s.range(1, 3); ++k) {
    if (fromAct) { a2j(*tr, q, a, j); for (size_t i = 0; i < t.n; ++i) r.a[q][i] = NAN; j2a(*tr, q, j, a); } else { j2a(*tr, q, j, a); for (size_t i = 0; i < t.n; ++i) r.j[q][i] = NAN; a2j(*tr, q, a, j); }
  }
  // error that double arithmetic may leave: the middle value carries eps * its scale, amplified by the way back
  double tol[2] = {0, 0};
  if (fromAct) { refA2J(t, q, x, mid, sc); L e[2]; for (size_t i = 0; i < t.n; ++i) e[i] = fabsl(mid[i]) + sc[i]; refJ2A(t, q, e, back, sc2); for (size_t i = 0; i < t.n; ++i) tol[i] = (double)(sc2[i] + fabsl(back[i])); 
    if (t.kind == SIMPLE) tol[0] = (double)(sc2[0]); }
  else { refJ2A(t, q, x, mid, sc); L e[2]; for (size_t i = 0; i < t.n; ++i) e[i] = fabsl(mid[i]) + sc[i]; refA2J(t, q, e, back, sc2); for (size_t i = 0; i < t.n; ++i) tol[i] = (double)(sc2[i] + fabsl(back[i])); }
  for (size_t i = 0; i < t.n; ++i) {
    double got = (fromAct ? r.a : r.j)[q][i];
    CHECK(std::fabs(got - (double)x[i]) <= 1e-12 * (tol[i] + std::fabs((double)x[i])), "mapping " << (fromAct ? "actuator->joint->actuator" : "joint->actuator->joint") << " changed " << qn[q] << "[" << i << "] from " << (double)x[i] << " to " << got);
  }
}

PROPERTY(C21, maps, "some ratio differs from 1 and some input is nonzero", 300000, 10000000)
{
  Spec t = genSpec(s); auto tr = make(t, s); Raw r; r.fill(s); Q q = (Q)s.index(NQ); bool fromAct = q >= ABS || s.boolean();
  // vectors the map does not use may stay empty
  bool useA[NQ], useJ[NQ]; bool sparse = s.boolean(); for (int k = 0; k < NQ; ++k) { useA[k] = k == q || (!sparse || s.boolean()); useJ[k] = k == q || (!sparse || s.boolean()); }
  ActuatorData a; JointData j; r.link(a, j, t.n, useA, useJ); Raw before = r;
  NOTE(t.str() << ", " << qn[q] << (fromAct ? " actuator->joint" : " joint->actuator") << " of " << (fromAct ? r.a : r.j)[q][0] << " " << (fromAct ? r.a : r.j)[q][1]);
  s.label(std::string(kn[t.kind]) + " " + qn[q] + (fromAct ? " actuator->joint" : " joint->actuator"));
  if ((fromAct ? r.a : r.j)[q][0] != 0) s.nontrivial();
  CHECK(tr->numActuators() == t.n && tr->numJoints() == t.n && tr->hasActuatorToJointAbsolutePosition() && tr->hasActuatorToJointTorqueSensor(), "transmission dimensions");
  if (fromAct) a2j(*tr, q, a, j); else j2a(*tr, q, j, a);
  L in[2], out[2], sc[2]; for (size_t i = 0; i < t.n; ++i) in[i] = (fromAct ? before.a : before.j)[q][i];
  if (fromAct) refA2J(t, q, in, out, sc); else refJ2A(t, q, in, out, sc);
  for (size_t i = 0; i < t.n; ++i) { double got = (fromAct ? r.j : r.a)[q][i]; CHECK(near(got, (double)out[i], (double)sc[i], 1e-12), qn[q] << "[" << i << "] " << (fromAct ? "in joint" : "in actuator") << " space is " << got << ", documented map gives " << (double)out[i]); }
  for (int k = 0; k < NQ; ++k) for (size_t i = 0; i < 2; ++i) {
    if (!(k == q && !fromAct && i < t.n)) CHECK(sameVal(r.a[k][i], before.a[k][i]), "actuator " << qn[k] << "[" << i << "] was overwritten by the " << qn[q] << " map");
    if (!(k == q && fromAct && i < t.n)) CHECK(sameVal(r.j[k][i], before.j[k][i]), "joint " << qn[k] << "[" << i << "] was overwritten by the " << qn[q] << " map");
  }
}

PROPERTY(C22, power, "the power that flows is nonzero", 300000, 8000000)
{
  Spec t = genSpec(s); auto tr = make(t, s); Raw r; r.fill(s); ActuatorData a; JointData j; r.link(a, j, t.n, ALL, ALL); bool fromAct = s.boolean();
  NOTE(t.str() << (fromAct ? " actuator->joint" : " joint->actuator") << " velocity " << (fromAct ? r.a : r.j)[VEL][0] << " " << (fromAct ? r.a : r.j)[VEL][1] << " effort " << (fromAct ? r.a : r.j)[EFF][0] << " " << (fromAct ? r.a : r.j)[EFF][1]);
  L vin[2], ein[2], o[2], vs[2], es[2]; for (size_t i = 0; i < t.n; ++i) { vin[i] = (fromAct ? r.a : r.j)[VEL][i]; ein[i] = (fromAct ? r.a : r.j)[EFF][i]; }
  bool velFirst = s.boolean();
  for (int k = 0; k < 2; ++k) { Q q = (k == 0) == velFirst ? VEL : EFF; if (fromAct) a2j(*tr, q, a, j); else j2a(*tr, q, j, a); }
  L pa = 0, pj = 0, scale = 0; for (size_t i = 0; i < t.n; ++i) { pa += (L)r.a[VEL][i] * r.a[EFF][i]; pj += (L)r.j[VEL][i] * r.j[EFF][i]; scale += fabsl((L)r.a[VEL][i] * r.a[EFF][i]) + fabsl((L)r.j[VEL][i] * r.j[EFF][i]); }
  // cancellation inside each map
  L vo[2], eo[2]; if (fromAct) { refA2J(t, VEL, vin, vo, vs); refA2J(t, EFF, ein, eo, es); } else { refJ2A(t, VEL, vin, vo, vs); refJ2A(t, EFF, ein, eo, es); }
  for (size_t i = 0; i < t.n; ++i) scale += vs[i] * fabsl(eo[i]) + es[i] * fabsl(vo[i]) + vs[i] * es[i];
  if (pa != 0 && pj != 0) s.nontrivial(); s.label(kn[t.kind]);
  if (fabsl(pa - pj) <= 1e-11L * scale) return;
  if (t.kind == FOURBAR) {
    // the documented four-bar effort map is not the transpose of its velocity map: known; a deviation from those maps is not
    L pd = 0; for (size_t i = 0; i < t.n; ++i) pd += vo[i] * eo[i];
    CHECK(fabsl((fromAct ? pj : pa) - pd) <= 1e-11L * scale, "four-bar power differs from what its documented maps give");
    s.known("four-bar-power", "power is not conserved"); return;
  }
  FAIL("power in actuator space " << (double)pa << ", in joint space " << (double)pj);
}

PROPERTY(C23, construct, "the parameters are refused, or accepted with a ratio other than 1", 150000, 4000000)
{
  auto vec = [&](bool ratioLike) { std::vector<double> v; size_t n = s.weighted({0, 0, 12, 0}); switch (s.weighted({12, 1, 1, 1, 1})) { case 0: n = 2; break; case 1: n = 0; break; case 2: n = 1; break; case 3: n = 3; break; default: n = 4; }
    for (size_t i = 0; i < n; ++i) { if (s.chance(1, 8)) v.push_back(s.boolean() ? -0.0 : 0.0); else if (ratioLike) v.push_back(ratio(s) * (s.chance(1, 20) ? 1e-300 : 1)); else v.push_back(s.signedReal(100)); } return v; };
  Kind k = (Kind)s.index(3); bool ok, threw = false; std::unique_ptr<Transmission> t;
  if (k == SIMPLE) {
    double r = s.chance(1, 4) ? (s.boolean() ? -0.0 : 0.0) : ratio(s), o = s.signedReal(100); NOTE("simple reduction " << r << " offset " << o); ok = r != 0;
    try { t.reset(new SimpleTransmission(r, o)); } catch (const TransmissionInterfaceException& e) { threw = true; CHECK(std::string(e.what()).size() > 0, "empty message"); }
    if (t) { auto* p = (SimpleTransmission*)t.get(); CHECK(p->getActuatorReduction() == r && p->getJointOffset() == o, "stored parameters differ from the given ones"); if (r != 1) s.nontrivial(); }
  } else {
    auto ar = vec(true), jr = vec(true), of = vec(false); bool ign = s.boolean(); int form = (int)s.index(3);
    if (form == 0) of = {0, 0};
    NOTE(kn[k] << " " << pbt::show(ar) << " " << pbt::show(jr) << " " << pbt::show(of) << " form " << form);
    ok = ar.size() == 2 && jr.size() == 2 && of.size() == 2 && ar[0] != 0 && ar[1] != 0 && jr[0] != 0 && jr[1] != 0;
    try {
      if (k == DIFF) t.reset(form == 0 ? new DifferentialTransmission(ar, jr) : form == 1 ? new DifferentialTransmission(ar, jr, of) : new DifferentialTransmission(ar, jr, ign, of));
      else t.reset(form == 0 ? new FourBarLinkageTransmission(ar, jr) : new FourBarLinkageTransmission(ar, jr, of));
    } catch (const TransmissionInterfaceException& e) { threw = true; CHECK(std::string(e.what()).size() > 0, "empty message"); }
    if (t && k == DIFF) { auto* p = (DifferentialTransmission*)t.get(); CHECK(p->getActuatorReduction() == ar && p->getJointReduction() == jr && p->getJointOffset() == of, "stored parameters differ from the given ones"); if (ar[0] != 1) s.nontrivial(); }
    if (t && k == FOURBAR) { auto* p = (FourBarLinkageTransmission*)t.get(); CHECK(p->getActuatorReduction() == ar && p->getJointReduction() == jr && p->getJointOffset() == of, "stored parameters differ from the given ones"); if (ar[0] != 1) s.nontrivial(); }
  }
  s.label(std::string(kn[k]) + (threw ? " refused" : " accepted")); if (threw) s.nontrivial();
  CHECK(threw == !ok, (threw ? "valid parameters were refused" : "invalid parameters were accepted"));
}

namespace {
// a transmission without absolute encoder or torque sensor support, with its own dimensions
struct Plain : Transmission {
  size_t na, nj; Plain(size_t a, size_t j) : na(a), nj(j) {}
  static void add(const std::vector<double*>& x, const std::vector<double*>& y, double k) { double t = k; for (double* p : x) t += *p; for (size_t i = 0; i < y.size(); ++i) *y[i] = t + (double)i; }
  void actuatorToJointEffort(const ActuatorData& a, JointData& j) override { add(a.effort, j.effort, 1); }
  void actuatorToJointVelocity(const ActuatorData& a, JointData& j) override { add(a.velocity, j.velocity, 2); }
  void actuatorToJointPosition(const ActuatorData& a, JointData& j) override { add(a.position, j.position, 3); }
  void jointToActuatorEffort(const JointData& j, ActuatorData& a) override { add(j.effort, a.effort, 4); }
  void jointToActuatorVelocity(const JointData& j, ActuatorData& a) override { add(j.velocity, a.velocity, 5); }
  void jointToActuatorPosition(const JointData& j, ActuatorData& a) override { add(j.position, a.position, 6); }
  size_t numActuators() const override { return na; } size_t numJoints() const override { return nj; }
};
struct Slot { Spec spec; std::unique_ptr<Transmission> t; bool plain = false; size_t na, nj; double a[NQ][3], j[NQ][3]; ActuatorData ad; JointData jd; };
enum HK { H_A2J_STATE, H_A2J_POS, H_A2J_VEL, H_A2J_EFF, H_J2A_STATE, H_J2A_POS, H_J2A_VEL, H_J2A_EFF, NHK };
const char* hkn[] = {"actuator->joint state", "actuator->joint position", "actuator->joint velocity", "actuator->joint effort", "joint->actuator state", "joint->actuator position", "joint->actuator velocity", "joint->actuator effort"};
template <class F> auto dispatch(int k, F f) {
  switch (k) {
    case H_A2J_STATE: return f((ActuatorToJointStateInterface*)0, (ActuatorToJointStateHandle*)0); case H_A2J_POS: return f((ActuatorToJointPositionInterface*)0, (ActuatorToJointPositionHandle*)0);
    case H_A2J_VEL: return f((ActuatorToJointVelocityInterface*)0, (ActuatorToJointVelocityHandle*)0); case H_A2J_EFF: return f((ActuatorToJointEffortInterface*)0, (ActuatorToJointEffortHandle*)0);
    case H_J2A_STATE: return f((JointToActuatorStateInterface*)0, (JointToActuatorStateHandle*)0); case H_J2A_POS: return f((JointToActuatorPositionInterface*)0, (JointToActuatorPositionHandle*)0);
    case H_J2A_VEL: return f((JointToActuatorVelocityInterface*)0, (JointToActuatorVelocityHandle*)0); default: return f((JointToActuatorEffortInterface*)0, (JointToActuatorEffortHandle*)0);
  }
}
}

// which data a handle accepts
PROPERTY(C24, handleData, "exactly one requirement is broken, or none", 300000, 8000000)
{
  size_t na = (size_t)s.range(1, 3), nj = (size_t)s.range(1, 3); std::unique_ptr<Transmission> t; int kind = (int)s.index(4);
  if (kind == 0) { t.reset(new SimpleTransmission(2)); na = nj = 1; } else if (kind == 1) { t.reset(new DifferentialTransmission({2, 3}, {4, 5})); na = nj = 2; } else if (kind == 2) { t.reset(new FourBarLinkageTransmission({2, 3}, {4, 5})); na = nj = 2; } else t.reset(new Plain(na, nj));
  bool nullT = s.chance(1, 30); double store[16] = {0}; ActuatorData ad; JointData jd; int broken = 0; bool anyMain = false; std::ostringstream d; d << "transmission with " << na << " actuators and " << nj << " joints;";
  auto fill = [&](std::vector<double*>& v, size_t want, const char* nm, int q) {
    size_t n; int c = (int)s.weighted({10, 8, 1}); if (c == 0) n = want; else if (c == 1) n = 0; else { n = (size_t)s.range(1, 4); }
    for (size_t i = 0; i < n; ++i) v.push_back(&store[i]);
    if (n && n != want) ++broken;
    if (n && s.chance(1, 12)) { v[s.index(n)] = nullptr; ++broken; d << " null pointer in"; }
    if (q < ABS && n) anyMain = true;
    d << " " << nm << " " << qn[q] << "=" << n;
  };
  for (int q = 0; q < NQ; ++q) fill(Raw::vec(ad, q), na, "actuator", q);
  for (int q = 0; q < NQ; ++q) fill(Raw::vec(jd, q), nj, "joint", q);
  if (nullT) ++broken; if (!anyMain) ++broken; NOTE(d.str() << (nullT ? " (null transmission)" : ""));
  int hk = (int)s.index(NHK); bool threw = false;
  dispatch(hk, [&](auto*, auto* h) { typedef typename std::remove_pointer<decltype(h)>::type H; try { H x("name", nullT ? nullptr : t.get(), ad, jd); CHECK(x.getName() == "name", "handle name"); } catch (const TransmissionInterfaceException& e) { threw = true; } });
  s.label(threw ? "refused" : "accepted"); if (broken <= 1) s.nontrivial();
  CHECK(threw == (broken > 0), (threw ? "consistent data was refused: " : "inconsistent data was accepted: ") << d.str());
}

// handles and interfaces propagate exactly their own map over exactly the registered data
PROPERTY(C24, propagate, "at least two transmissions are registered", 40000, 1200000)
{
  int hk = (int)s.index(NHK); bool state = hk == H_A2J_STATE || hk == H_J2A_STATE, fromAct = hk < 4; Q q = hk % 4 == 0 ? POS : (Q)(hk % 4 - 1);
  std::vector<std::unique_ptr<Slot>> slots; std::map<std::string, Slot*> reg; size_t n = 0;
  while (n < 5 && (n == 0 || s.more(3))) ++n;
  dispatch(hk, [&](auto* ip, auto* hp) {
    typedef typename std::remove_pointer<decltype(ip)>::type I; typedef typename std::remove_pointer<decltype(hp)>::type H; I iface;
    pbt::drawSpelling(s); for (size_t k = 0; k < n; ++k) {
      std::unique_ptr<Slot> sl(new Slot); sl->plain = s.chance(1, 4);
      if (sl->plain) { sl->na = (size_t)s.range(1, 3); sl->nj = (size_t)s.range(1, 3); sl->t.reset(new Plain(sl->na, sl->nj)); } else { sl->spec = genSpec(s); sl->t = make(sl->spec, s); sl->na = sl->nj = sl->spec.n; }
      for (auto& r : sl->a) for (double& x : r) x = s.signedReal(100); for (auto& r : sl->j) for (double& x : r) x = s.signedReal(100);
      for (int x = 0; x < NQ; ++x) { bool need = x < ABS && (state || x == q); bool u = need || s.boolean(); if (u) { for (size_t i = 0; i < sl->na; ++i) Raw::vec(sl->ad, x).push_back(&sl->a[x][i]); for (size_t i = 0; i < sl->nj; ++i) Raw::vec(sl->jd, x).push_back(&sl->j[x][i]); } }
      std::string name = pbt::spelt("t", s.index(4)); NOTE(name << ": " << (sl->plain ? "plain" : sl->spec.str()) << (sl->ad.absolute_position.empty() ? "" : " +abs") << (sl->ad.torque_sensor.empty() ? "" : " +torque"));
      H h(name, sl->t.get(), sl->ad, sl->jd); CHECK(h.getName() == name, "handle name"); iface.registerHandle(h); reg[name] = sl.get(); slots.push_back(std::move(sl));
    }
    std::vector<std::string> want; for (auto& r : reg) want.push_back(r.first); auto got = iface.getNames(); std::sort(got.begin(), got.end()); CHECK(got == want, "registered names " << pbt::show(got) << " instead of " << pbt::show(want));
    bool threw = false; try { iface.getHandle("absent"); } catch (const TransmissionInterfaceException&) { threw = true; } CHECK(threw, "an unknown handle was returned");
    bool viaHandle = s.chance(1, 3); std::string one; if (viaHandle) one = want[s.index(want.size())];
    if (reg.size() > 1) s.nontrivial(); s.label(std::string(hkn[hk]) + (viaHandle ? " (one handle)" : ""));
    // expectation: same maps applied directly to copies
    std::vector<Slot*> all; std::vector<std::array<double, 30>> ea, ej;
    for (auto& p : slots) {
      Slot c; memcpy(c.a, p->a, sizeof c.a); memcpy(c.j, p->j, sizeof c.j);
      for (int x = 0; x < NQ; ++x) { for (size_t i = 0; i < Raw::vec(p->ad, x).size(); ++i) Raw::vec(c.ad, x).push_back(&c.a[x][i]); for (size_t i = 0; i < Raw::vec(p->jd, x).size(); ++i) Raw::vec(c.jd, x).push_back(&c.j[x][i]); }
      bool active = false; for (auto& r : reg) if (r.second == p.get() && (!viaHandle || r.first == one)) active = true;
      if (active) for (int x = 0; x < NQ; ++x) {
        bool on = x < ABS ? (state || x == q) : (hk == H_A2J_STATE && !p->plain && !Raw::vec(c.ad, x).empty());
        if (!on) continue; if (fromAct) a2j(*p->t, (Q)x, c.ad, c.jd); else j2a(*p->t, (Q)x, c.jd, c.ad);
      }
      std::array<double, 30> v{}; v.fill(0); for (int x = 0; x < NQ; ++x) for (int i = 0; i < 3; ++i) v[x * 3 + i] = c.a[x][i], v[15 + x * 3 + i] = c.j[x][i]; ea.push_back(v);
    }
    if (viaHandle) { auto h = iface.getHandle(one); CHECK(h.getName() == one, "the interface returned another handle"); h.propagate(); } else iface.propagate();
    for (size_t k = 0; k < slots.size(); ++k) for (int x = 0; x < NQ; ++x) for (int i = 0; i < 3; ++i) {
      CHECK(sameVal(slots[k]->a[x][i], ea[k][x * 3 + i]), hkn[hk] << ": actuator " << qn[x] << "[" << i << "] of transmission #" << k << " is " << slots[k]->a[x][i] << ", expected " << ea[k][x * 3 + i]);
      CHECK(sameVal(slots[k]->j[x][i], ea[k][15 + x * 3 + i]), hkn[hk] << ": joint " << qn[x] << "[" << i << "] of transmission #" << k << " is " << slots[k]->j[x][i] << ", expected " << ea[k][15 + x * 3 + i]);
    }
  });
}

// How to build, observe and command every handle type of hardware_interface. All variables live in one arena, so that
// "changes exactly this variable and nothing else" can be checked over the whole of it.
#pragma once
#include "vh.h"
#include <hardware_interface/actuator_command_interface.h>
#include <hardware_interface/actuator_state_interface.h>
#include <hardware_interface/force_torque_sensor_interface.h>
#include <hardware_interface/imu_sensor_interface.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/joint_mode_interface.h>
#include <hardware_interface/joint_state_interface.h>
#include <hardware_interface/position_velocity_torque_gains_command_interface.h>
#include <hardware_interface/posvel_command_interface.h>
#include <hardware_interface/posvelacc_command_interface.h>
namespace hh {
using namespace hardware_interface;
typedef std::string S;
// One block of variables per handle. Slots: 0 pos 1 vel 2 eff 3 abs 4 torque; 5.. commands; everything else is canary.
struct Block { double d[48]; JointCommandModes mode; S frame; int variant = 0; };
struct Arena {
  std::vector<std::unique_ptr<Block>> blocks; vh::Rng* r;
  explicit Arena(vh::Rng& r) : r(&r) {}
  double val() { return r->anyBits(); }
  JointCommandModes md() { return (JointCommandModes)r->range(-1, 6); }
  Block* add(int variant = 0) { blocks.emplace_back(new Block); Block* b = blocks.back().get(); b->variant = variant; b->frame = "frame" + std::to_string(r->below(1000)); shuffle(*b); return b; }
  void shuffle(Block& b) { for (double& x : b.d) x = val(); b.mode = md(); }
  void shuffleAll() { for (auto& b : blocks) shuffle(*b); }
  struct Shot { std::vector<char> bytes; std::vector<JointCommandModes> m; };
  Shot shot() const { Shot s; s.bytes.resize(blocks.size() * sizeof(Block::d)); for (size_t i = 0; i < blocks.size(); ++i) { memcpy(&s.bytes[i * sizeof(Block::d)], blocks[i]->d, sizeof(Block::d)); s.m.push_back(blocks[i]->mode); } return s; }
  // what differs from the snapshot, as (block, slot); slot -1 is the mode
  std::vector<std::pair<const Block*, int>> diff(const Shot& s) const {
    std::vector<std::pair<const Block*, int>> o;
    for (size_t i = 0; i < blocks.size(); ++i) { for (int k = 0; k < 48; ++k) if (memcmp(&s.bytes[i * sizeof(Block::d) + k * 8], &blocks[i]->d[k], 8)) o.push_back({blocks[i].get(), k}); if (s.m[i] != blocks[i]->mode) o.push_back({blocks[i].get(), -1}); }
    return o;
  }
};
#define HH_EQ(expr, want, what) do { double g_ = (expr), w_ = (want); if (!vh::sameBits(g_, w_)) return S(what) + " reads " + vh::num(g_) + " instead of " + vh::num(w_); } while (0)
#define HH_PTR(expr, want, what) do { if ((const void*)(expr) != (const void*)(want)) return S(what) + " points elsewhere"; } while (0)
#define HH_THROWS(expr, what) do { bool t_ = false; try { (void)(expr); } catch (const std::exception&) { t_ = true; } if (!t_) return S(what) + " of absent data did not fail"; } while (0)
// state part: common to joints and actuators
template <class SH> SH makeState(const S& n, Block& b) {
  double* d = b.d;
  switch (b.variant & 3) {
    case 0: return SH(n, d, d + 1, d + 2);
    case 1: return SH(n, d, d + 1, d + 2, d + 3);
    case 2: return SH(n, d, d + 1, d + 2, d + 4, true);
    default: return SH(n, d, d + 1, d + 2, d + 3, d + 4);
  }
}
template <class SH> S checkState(const SH& h, const Block& b) {
  const double* d = b.d;
  HH_EQ(h.getPosition(), d[0], "position"); HH_EQ(h.getVelocity(), d[1], "velocity"); HH_EQ(h.getEffort(), d[2], "effort");
  HH_PTR(h.getPositionPtr(), d, "getPositionPtr"); HH_PTR(h.getVelocityPtr(), d + 1, "getVelocityPtr"); HH_PTR(h.getEffortPtr(), d + 2, "getEffortPtr");
  if (h.hasAbsolutePosition() != ((b.variant & 1) != 0)) return "hasAbsolutePosition is wrong";
  if (h.hasTorqueSensor() != ((b.variant & 2) != 0)) return "hasTorqueSensor is wrong";
  if (b.variant & 1) { HH_EQ(h.getAbsolutePosition(), d[3], "absolute position"); HH_PTR(h.getAbsolutePositionPtr(), d + 3, "getAbsolutePositionPtr"); }
  else { HH_THROWS(h.getAbsolutePosition(), "getAbsolutePosition"); HH_THROWS(h.getAbsolutePositionPtr(), "getAbsolutePositionPtr"); }
  if (b.variant & 2) { HH_EQ(h.getTorqueSensor(), d[4], "torque sensor"); HH_PTR(h.getTorqueSensorPtr(), d + 4, "getTorqueSensorPtr"); }
  else { HH_THROWS(h.getTorqueSensor(), "getTorqueSensor"); HH_THROWS(h.getTorqueSensorPtr(), "getTorqueSensorPtr"); }
  return "";
}
// Setter: writes v through the handle; the slot that must change is given beside it.
template <class Hd> struct T;
struct Write { int slot; double v; };
struct NoWrites { template <class Hd> static std::vector<std::vector<Write>> writes(Hd&, int, vh::Rng&) { return {}; } };
// nWays: number of ways to write; write(h, way, r) performs it and returns what has to be in memory afterwards
template <> struct T<JointStateHandle> {
  static JointStateHandle make(const S& n, Block& b) { return makeState<JointStateHandle>(n, b); }
  static S check(const JointStateHandle& h, const Block& b) { return checkState(h, b); }
  static int ways() { return 0; } static std::vector<Write> write(JointStateHandle&, int, vh::Rng&) { return {}; }
};
template <> struct T<ActuatorStateHandle> {
  static ActuatorStateHandle make(const S& n, Block& b) { return makeState<ActuatorStateHandle>(n, b); }
  static S check(const ActuatorStateHandle& h, const Block& b) { return checkState(h, b); }
  static int ways() { return 0; } static std::vector<Write> write(ActuatorStateHandle&, int, vh::Rng&) { return {}; }
};
template <> struct T<JointHandle> {
  static JointHandle make(const S& n, Block& b) { return JointHandle(makeState<JointStateHandle>(n, b), b.d + 5); }
  static S check(const JointHandle& h, const Block& b) { S e = checkState(h, b); if (!e.empty()) return e; HH_EQ(h.getCommand(), b.d[5], "command"); HH_PTR(h.getCommandPtr(), b.d + 5, "getCommandPtr"); return ""; }
  static int ways() { return 1; } static std::vector<Write> write(JointHandle& h, int, vh::Rng& r) { double v = r.anyBits(); h.setCommand(v); return {{5, v}}; }
};
template <> struct T<ActuatorHandle> {
  static ActuatorHandle make(const S& n, Block& b) { return ActuatorHandle(makeState<ActuatorStateHandle>(n, b), b.d + 5); }
  static S check(const ActuatorHandle& h, const Block& b) { S e = checkState(h, b); if (!e.empty()) return e; HH_EQ(h.getCommand(), b.d[5], "command"); ActuatorHandle c(h); HH_PTR(c.getCommandPtr(), b.d + 5, "getCommandPtr"); return ""; }
  static int ways() { return 2; } static std::vector<Write> write(ActuatorHandle& h, int w, vh::Rng& r) { double v = r.anyBits(); if (w) *h.getCommandPtr() = v; else h.setCommand(v); return {{5, v}}; }
};
inline S checkPosVel(const PosVelJointHandle& h, const Block& b) { S e = checkState(h, b); if (!e.empty()) return e; HH_EQ(h.getCommandPosition(), b.d[5], "position command"); HH_EQ(h.getCommandVelocity(), b.d[6], "velocity command"); return ""; }
inline std::vector<Write> writePosVel(PosVelJointHandle& h, int w, vh::Rng& r) {
  double p = r.anyBits(), v = r.anyBits();
  if (w == 0) { h.setCommandPosition(p); return {{5, p}}; } if (w == 1) { h.setCommandVelocity(v); return {{6, v}}; } h.setCommand(p, v); return {{5, p}, {6, v}};
}
template <> struct T<PosVelJointHandle> {
  static PosVelJointHandle make(const S& n, Block& b) { return PosVelJointHandle(makeState<JointStateHandle>(n, b), b.d + 5, b.d + 6); }
  static S check(const PosVelJointHandle& h, const Block& b) { return checkPosVel(h, b); }
  static int ways() { return 3; } static std::vector<Write> write(PosVelJointHandle& h, int w, vh::Rng& r) { return writePosVel(h, w, r); }
};
template <> struct T<PosVelAccJointHandle> {
  static PosVelAccJointHandle make(const S& n, Block& b) { return PosVelAccJointHandle(makeState<JointStateHandle>(n, b), b.d + 5, b.d + 6, b.d + 7); }
  static S check(const PosVelAccJointHandle& h, const Block& b) { S e = checkPosVel(h, b); if (!e.empty()) return e; HH_EQ(h.getCommandAcceleration(), b.d[7], "acceleration command"); return ""; }
  static int ways() { return 4; }
  static std::vector<Write> write(PosVelAccJointHandle& h, int w, vh::Rng& r) {
    double p = r.anyBits(), v = r.anyBits(), a = r.anyBits();
    switch (w) { case 0: h.setCommandPosition(p); return {{5, p}}; case 1: h.setCommandVelocity(v); return {{6, v}}; case 2: h.setCommandAcceleration(a); return {{7, a}}; default: h.setCommand(p, v, a); return {{5, p}, {6, v}, {7, a}}; }
  }
};
template <> struct T<PositionVelocityTorqueGainsJointHandle> {
  typedef PositionVelocityTorqueGainsJointHandle Hd;
  static Hd make(const S& n, Block& b) { return Hd(makeState<JointStateHandle>(n, b), b.d + 5, b.d + 6, b.d + 7, b.d + 8, b.d + 9); }
  static S check(const Hd& h, const Block& b) { S e = checkPosVel(h, b); if (!e.empty()) return e; HH_EQ(h.getCommandEffort(), b.d[7], "effort command"); HH_EQ(h.getCommandKp(), b.d[8], "kp"); HH_EQ(h.getCommandKd(), b.d[9], "kd"); return ""; }
  static int ways() { return 6; }
  static std::vector<Write> write(Hd& h, int w, vh::Rng& r) {
    double p = r.anyBits(), v = r.anyBits(), e = r.anyBits(), kp = r.anyBits(), kd = r.anyBits();
    switch (w) { case 0: h.setCommandPosition(p); return {{5, p}}; case 1: h.setCommandVelocity(v); return {{6, v}}; case 2: h.setCommandEffort(e); return {{7, e}}; case 3: h.setCommandKp(kp); return {{8, kp}}; case 4: h.setCommandKd(kd); return {{9, kd}};
      default: h.setCommand(p, v, e, kp, kd); return {{5, p}, {6, v}, {7, e}, {8, kp}, {9, kd}}; }
  }
};
template <> struct T<JointModeHandle> {
  static JointModeHandle make(const S& n, Block& b) { return JointModeHandle(n, &b.mode); }
  static S check(const JointModeHandle& h, const Block& b) { if (h.getMode() != b.mode) return "mode reads a wrong value"; HH_PTR(h.getModePtr(), &b.mode, "getModePtr"); return ""; }
  static int ways() { return 1; } static std::vector<Write> write(JointModeHandle& h, int, vh::Rng& r) { int m = r.range(-1, 6); h.setMode((JointCommandModes)m); return {{-1, (double)m}}; }
};
template <> struct T<ForceTorqueSensorHandle> {
  typedef ForceTorqueSensorHandle Hd;
  static Hd make(const S& n, Block& b) { return Hd(n, b.frame, b.variant & 1 ? nullptr : b.d + 10, b.variant & 2 ? nullptr : b.d + 14); }
  static S check(const Hd& h, const Block& b) { if (h.getFrameId() != b.frame) return "frame id is wrong"; HH_PTR(h.getForce(), b.variant & 1 ? nullptr : b.d + 10, "getForce"); HH_PTR(h.getTorque(), b.variant & 2 ? nullptr : b.d + 14, "getTorque"); return ""; }
  static int ways() { return 0; } static std::vector<Write> write(Hd&, int, vh::Rng&) { return {}; }
};
template <> struct T<ImuSensorHandle> {
  typedef ImuSensorHandle Hd;
  static double* p(const Block& b, int i) { return b.variant & (2 << i) ? nullptr : const_cast<double*>(b.d) + 10 + i * 5; }
  static Hd make(const S& n, Block& b) {
    if (b.variant & 1) return Hd(n, b.frame, p(b, 0), p(b, 1), p(b, 2), p(b, 3), p(b, 4), p(b, 5));
    Hd::Data x; x.name = n; x.frame_id = b.frame; x.orientation = p(b, 0); x.orientation_covariance = p(b, 1); x.angular_velocity = p(b, 2); x.angular_velocity_covariance = p(b, 3); x.linear_acceleration = p(b, 4); x.linear_acceleration_covariance = p(b, 5);
    return Hd(x);
  }
  static S check(const Hd& h, const Block& b) {
    if (h.getFrameId() != b.frame) return "frame id is wrong";
    HH_PTR(h.getOrientation(), p(b, 0), "getOrientation"); HH_PTR(h.getOrientationCovariance(), p(b, 1), "getOrientationCovariance"); HH_PTR(h.getAngularVelocity(), p(b, 2), "getAngularVelocity");
    HH_PTR(h.getAngularVelocityCovariance(), p(b, 3), "getAngularVelocityCovariance"); HH_PTR(h.getLinearAcceleration(), p(b, 4), "getLinearAcceleration"); HH_PTR(h.getLinearAccelerationCovariance(), p(b, 5), "getLinearAccelerationCovariance"); return "";
  }
  static int ways() { return 0; } static std::vector<Write> write(Hd&, int, vh::Rng&) { return {}; }
};
template <class Hd> S checkFull(const Hd& h, const S& name, const Block& b) { if (h.getName() != name) return "getName returns \"" + h.getName() + "\" instead of \"" + name + "\""; return T<Hd>::check(h, b); }
inline S oddName(vh::Rng& r, int pool) { static const char* n[] = {"joint1", "joint2", "joint", "", "joint10", "%s%n", "arm/joint", "JOINT1", " joint1", "a", "b", "jo\xc3\xafnt", "joint1 ", "very_long_joint_name_that_does_not_fit_a_small_string_buffer"}; return n[r.below(pool < 14 ? pool : 14)]; }
// now and then a name that is easily confused with one of the pool
inline S nearName(vh::Rng& r, int pool) {
  S n = oddName(r, pool); if (!r.chance(15)) return n;
  switch (r.below(8)) { case 0: return n + "/"; case 1: return "/" + n; case 2: return n.substr(0, n.size() / 2); case 3: return n.empty() ? n : n.substr(1); case 4: return n + n; case 5: return n + S(1, '\0'); case 6: return n + "0"; default: for (auto& c : n) c = c >= 'a' && c <= 'z' ? c - 32 : c; return n; }
}
}

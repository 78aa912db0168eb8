#pragma once
#include <memory>
#include <string>
namespace urdf {
class JointLimits { public: JointLimits() { clear(); } double lower, upper, effort, velocity; void clear() { lower = upper = effort = velocity = 0; } };
class JointSafety { public: JointSafety() { clear(); } double soft_upper_limit, soft_lower_limit, k_position, k_velocity; void clear() { soft_upper_limit = soft_lower_limit = k_position = k_velocity = 0; } };
class JointCalibration { public: double reference_position = 0; };
class JointMimic { public: double offset = 0, multiplier = 0; std::string joint_name; };
class JointDynamics { public: double damping = 0, friction = 0; };
class Joint {
public:
  Joint() { clear(); }
  std::string name;
  enum { UNKNOWN, REVOLUTE, CONTINUOUS, PRISMATIC, FLOATING, PLANAR, FIXED } type;
  std::string child_link_name, parent_link_name;
  std::shared_ptr<JointDynamics> dynamics;
  std::shared_ptr<JointLimits> limits;
  std::shared_ptr<JointSafety> safety;
  std::shared_ptr<JointCalibration> calibration;
  std::shared_ptr<JointMimic> mimic;
  void clear() { type = UNKNOWN; dynamics.reset(); limits.reset(); safety.reset(); calibration.reset(); mimic.reset(); }
};
}

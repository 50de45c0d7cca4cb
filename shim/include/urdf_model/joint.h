#pragma once
// Stand-in for urdfdom's Joint with the same public fields.
#include <memory>
#include <string>
namespace urdf {
class JointDynamics { public: double damping = 0, friction = 0; };
class JointLimits { public: double lower = 0, upper = 0, effort = 0, velocity = 0; void clear() { *this = JointLimits(); } };
class JointSafety { public: double soft_upper_limit = 0, soft_lower_limit = 0, k_position = 0, k_velocity = 0; void clear() { *this = JointSafety(); } };
class JointCalibration { public: double reference_position = 0; std::shared_ptr<double> rising, falling; };
class JointMimic { public: double offset = 0, multiplier = 0; std::string joint_name; };
class Joint {
public:
  std::string name;
  enum { UNKNOWN, REVOLUTE, CONTINUOUS, PRISMATIC, FLOATING, PLANAR, FIXED } type = UNKNOWN;
  std::string child_link_name, parent_link_name;
  std::shared_ptr<JointDynamics> dynamics; std::shared_ptr<JointLimits> limits; std::shared_ptr<JointSafety> safety;
  std::shared_ptr<JointCalibration> calibration; std::shared_ptr<JointMimic> mimic;
};
typedef std::shared_ptr<Joint> JointSharedPtr;
typedef std::shared_ptr<const Joint> JointConstSharedPtr;
typedef std::shared_ptr<JointLimits> JointLimitsSharedPtr;
typedef std::shared_ptr<const JointLimits> JointLimitsConstSharedPtr;
typedef std::shared_ptr<JointSafety> JointSafetySharedPtr;
typedef std::shared_ptr<const JointSafety> JointSafetyConstSharedPtr;
}

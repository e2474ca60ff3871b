#pragma once
#include <memory>
#include <string>
namespace urdf {
struct JointLimits { double lower, upper, effort, velocity; JointLimits() : lower(0), upper(0), effort(0), velocity(0) {} };
struct JointSafety { double soft_upper_limit, soft_lower_limit, k_position, k_velocity; JointSafety() : soft_upper_limit(0), soft_lower_limit(0), k_position(0), k_velocity(0) {} };
struct Joint {
  enum { UNKNOWN, REVOLUTE, CONTINUOUS, PRISMATIC, FLOATING, PLANAR, FIXED } type;
  std::string name; std::shared_ptr<JointLimits> limits; std::shared_ptr<JointSafety> safety;
  Joint() : type(UNKNOWN) {}
};
typedef std::shared_ptr<Joint> JointSharedPtr; typedef std::shared_ptr<const Joint> JointConstSharedPtr;
typedef std::shared_ptr<JointLimits> JointLimitsSharedPtr; typedef std::shared_ptr<JointSafety> JointSafetySharedPtr;
}

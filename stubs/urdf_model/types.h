#pragma once
#include <memory>
#include <urdf_model/joint.h>
namespace urdf {
typedef std::shared_ptr<Joint> JointSharedPtr;
typedef std::shared_ptr<const Joint> JointConstSharedPtr;
typedef std::shared_ptr<JointLimits> JointLimitsSharedPtr;
typedef std::shared_ptr<JointSafety> JointSafetySharedPtr;
}

#pragma once
#include <poslv/TimeDistance.h>
namespace poslv {
struct VehicleNavigationPerformanceMsg { std_msgs::Header header; TimeDistance timeDistance; float northPositionRMSError = 0, eastPositionRMSError = 0, downPositionRMSError = 0, northVelocityRMSError = 0, eastVelocityRMSError = 0, downVelocityRMSError = 0, rollRMSError = 0, pitchRMSError = 0, headingRMSError = 0, errorEllipsoidSemiMajor = 0, errorEllipsoidSemiMinor = 0, errorEllipsoidOrientation = 0; };
typedef boost::shared_ptr<VehicleNavigationPerformanceMsg> VehicleNavigationPerformanceMsgPtr;
typedef boost::shared_ptr<VehicleNavigationPerformanceMsg const> VehicleNavigationPerformanceMsgConstPtr;
}

#pragma once
#include <poslv/TimeDistance.h>
namespace poslv {
struct VehicleNavigationSolutionMsg { std_msgs::Header header; TimeDistance timeDistance; double latitude = 0, longitude = 0, altitude = 0; float northVelocity = 0, eastVelocity = 0, downVelocity = 0; double roll = 0, pitch = 0, heading = 0, wanderAngle = 0; float trackAngle = 0, speed = 0, angularRateLong = 0, angularRateTrans = 0, angularRateDown = 0, accelerationLong = 0, accelerationTrans = 0, accelerationDown = 0; std::uint8_t alignementStatus = 0; };
typedef boost::shared_ptr<VehicleNavigationSolutionMsg> VehicleNavigationSolutionMsgPtr;
typedef boost::shared_ptr<VehicleNavigationSolutionMsg const> VehicleNavigationSolutionMsgConstPtr;
}

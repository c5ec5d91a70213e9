#pragma once
#include <poslv/TimeDistance.h>
namespace poslv {
struct TimeTaggedDMIDataMsg { std_msgs::Header header; TimeDistance timeDistance; double signedDistanceTraveled = 0, unsignedDistanceTraveled = 0; std::uint16_t statusScaleFactor = 0; std::uint8_t eventType = 0, dataStatus = 0; };
typedef boost::shared_ptr<TimeTaggedDMIDataMsg> TimeTaggedDMIDataMsgPtr;
typedef boost::shared_ptr<TimeTaggedDMIDataMsg const> TimeTaggedDMIDataMsgConstPtr;
}

#pragma once
#include <rosbag/bag.h>
namespace can_prius {
struct FrontWheelsSpeedMsg { std_msgs::Header header; std::uint16_t Right = 0, Left = 0; };
typedef boost::shared_ptr<FrontWheelsSpeedMsg> FrontWheelsSpeedMsgPtr;
typedef boost::shared_ptr<FrontWheelsSpeedMsg const> FrontWheelsSpeedMsgConstPtr;
}

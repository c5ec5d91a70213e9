#pragma once
#include <rosbag/bag.h>
namespace can_prius {
struct RearWheelsSpeedMsg { std_msgs::Header header; std::uint16_t Right = 0, Left = 0; };
typedef boost::shared_ptr<RearWheelsSpeedMsg> RearWheelsSpeedMsgPtr;
typedef boost::shared_ptr<RearWheelsSpeedMsg const> RearWheelsSpeedMsgConstPtr;
}

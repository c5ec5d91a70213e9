#pragma once
#include <rosbag/bag.h>
namespace can_prius {
struct Steering1Msg { std_msgs::Header header; std::int16_t value = 0; };
typedef boost::shared_ptr<Steering1Msg> Steering1MsgPtr;
typedef boost::shared_ptr<Steering1Msg const> Steering1MsgConstPtr;
}

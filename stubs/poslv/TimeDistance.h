#pragma once
#include <rosbag/bag.h>
namespace poslv { struct TimeDistance { double time1 = 0, time2 = 0, distanceTag = 0; }; }

#pragma once
#include <opencv2/core/core.hpp>
#include <rosbag/bag.h>
namespace sensor_msgs {
struct Image { std_msgs::Header header; cv::Mat pixels; };
typedef boost::shared_ptr<Image> ImagePtr;
typedef boost::shared_ptr<Image const> ImageConstPtr;
}

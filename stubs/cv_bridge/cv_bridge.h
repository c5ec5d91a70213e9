#pragma once
#include <sensor_msgs/Image.h>
namespace cv_bridge {
struct CvImage { std_msgs::Header header; std::string encoding; cv::Mat image; };
typedef boost::shared_ptr<CvImage> CvImagePtr;
inline CvImagePtr toCvCopy(const sensor_msgs::ImageConstPtr& m, const std::string& encoding = std::string()) {
  CvImagePtr i = boost::make_shared<CvImage>(); i->header = m->header; i->encoding = encoding; i->image = m->pixels; return i;
}
}

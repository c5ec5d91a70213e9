#pragma once
#include <rosbag/bag.h>
namespace rosbag {
class MessageInstance {
 public:
  explicit MessageInstance(const Recorded& r) : _r(r) {}
  const std::string& getTopic() const { return _r.topic; }
  const ros::Time& getTime() const { return _r.time; }
  // a copy of the message, or nothing if it is of another type
  template <typename T> boost::shared_ptr<T> instantiate() const { return _r.kind == kindOf<T>() ? boost::make_shared<T>(*static_cast<const T*>(_r.message.get())) : boost::shared_ptr<T>(); }
 private:
  Recorded _r;
};
}

#pragma once
#include <algorithm>
#include <rosbag/bag.h>
#include <rosbag/message_instance.h>
namespace rosbag {
struct TopicQuery {
  TopicQuery(const std::string& t) : topics(1, t) {}
  TopicQuery(const std::vector<std::string>& t) : topics(t) {}
  std::vector<std::string> topics;
};
// the messages of the topics asked for, in the order of their time
class View {
 public:
  typedef std::vector<MessageInstance>::iterator iterator;
  typedef std::vector<MessageInstance>::const_iterator const_iterator;
  View(const Bag& b, const TopicQuery& q) {
    for (auto& r : b.messages) if (std::count(q.topics.begin(), q.topics.end(), r.topic)) _m.push_back(MessageInstance(r));
    std::stable_sort(_m.begin(), _m.end(), [](const MessageInstance& a, const MessageInstance& b) { return a.getTime().toNSec() < b.getTime().toNSec(); });
  }
  iterator begin() { return _m.begin(); }
  iterator end() { return _m.end(); }
  std::uint32_t size() { return (std::uint32_t)_m.size(); }
  ros::Time getBeginTime() { return _m.empty() ? ros::Time(4294967295999999999ll) : _m.front().getTime(); }
  ros::Time getEndTime() { return _m.empty() ? ros::Time() : _m.back().getTime(); }
 private:
  std::vector<MessageInstance> _m;
};
}

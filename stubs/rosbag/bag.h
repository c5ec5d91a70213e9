// stand-in for rosbag: recordings live in memory under the name of their file
#pragma once
#include <cstdint>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
namespace ros {
struct Time {
  std::uint32_t sec, nsec;
  Time() : sec(0), nsec(0) {}
  explicit Time(std::int64_t ns) : sec((std::uint32_t)(ns / 1000000000)), nsec((std::uint32_t)(ns % 1000000000)) {}
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  std::uint64_t toNSec() const { return (std::uint64_t)sec * 1000000000ull + (std::uint64_t)nsec; }
};
}
namespace std_msgs { struct Header { std::uint32_t seq = 0; ros::Time stamp; std::string frame_id; }; }
namespace rosbag {
struct BagException : public std::runtime_error { using std::runtime_error::runtime_error; };
struct BagIOException : public BagException { using BagException::BagException; };
struct Recorded { std::string topic; ros::Time time; const void* kind; boost::shared_ptr<void> message; };
template <typename T> const void* kindOf() { static const char k = 0; return &k; }
typedef std::vector<Recorded> Recording;
inline std::map<std::string, Recording>& recordings() { static std::map<std::string, Recording> r; return r; }
template <typename T> void record(const std::string& file, const std::string& topic, const ros::Time& t, const T& m) { recordings()[file].push_back({topic, t, kindOf<T>(), boost::make_shared<T>(m)}); }
class Bag {
 public:
  explicit Bag(const std::string& file) { auto i = recordings().find(file); if (i == recordings().end()) throw BagIOException("Error opening file: " + file); messages = i->second; }
  Recording messages;
};
}

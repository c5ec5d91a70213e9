// stand-in for the timestamp corrector: local time as a line over remote time, along the lower hull of what has arrived
#pragma once
#include <vector>
namespace sm { namespace timing {
template <typename TIME_T> class TimestampCorrector {
 public:
  typedef TIME_T time_t;
  time_t correctTimestamp(const time_t& remote, const time_t& local) {
    const P p = {remote, local};
    while (_h.size() >= 2 && cross(_h[_h.size() - 2], _h.back(), p) <= 0) _h.pop_back();
    _h.push_back(p);
    if (_h.size() < 3) return local;
    const time_t mid = (_h.front().x + _h.back().x) / 2; size_t i = 1; while (i + 1 < _h.size() && _h[i].x < mid) ++i;
    const P &a = _h[i - 1], &b = _h[i];
    return a.y + (remote - a.x) * ((b.y - a.y) / (b.x - a.x));
  }
 private:
  struct P { time_t x, y; };
  static time_t cross(const P& a, const P& b, const P& c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
  std::vector<P> _h;
};
} }

#pragma once
#include <cmath>
#include <cstdint>
namespace sm { namespace timing {
typedef std::int64_t NsecTime;
inline double nsecToSec(const NsecTime& t) { return (double)t / 1e9; }
inline NsecTime secToNsec(const double& t) { return (NsecTime)std::llround(t * 1e9); }
} }

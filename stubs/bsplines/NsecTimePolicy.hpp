#pragma once
#include <sm/timing/NsecTimeUtilities.hpp>
namespace bsplines { struct NsecTimePolicy { typedef sm::timing::NsecTime TimeType; static TimeType getOne() { return 1000000000; } }; }

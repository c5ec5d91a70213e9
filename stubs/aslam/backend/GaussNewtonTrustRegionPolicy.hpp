#pragma once
#include <aslam/backend/TrustRegionPolicy.hpp>

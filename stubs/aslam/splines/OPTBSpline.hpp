#pragma once
#include <bsplines/Spline.hpp>

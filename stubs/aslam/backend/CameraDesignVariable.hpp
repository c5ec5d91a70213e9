#pragma once
#include <aslam/CameraGeometryDesignVariableContainer.hpp>

// C26: the odometry error terms of the time-delay example
#include <aslam/calibration/time-delay/error-terms/ErrorTermPose.h>
#include <aslam/calibration/time-delay/error-terms/ErrorTermWheel.h>
#include "odo.hpp"

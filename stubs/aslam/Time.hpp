#pragma once
namespace aslam { class Time { public: explicit Time(double s = 0) : _s(s) {} double toSec() const { return _s; } private: double _s; }; }

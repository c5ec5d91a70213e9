#pragma once
#include <opencv2/core/core.hpp>
#define CV_GRAY2RGB 8
namespace cv {
inline void cvtColor(const Mat& a, Mat& b, int) { b = Mat(a.rows, a.cols, CV_8UC3); b.seen = a.seen; if (a.drawn) *b.drawn = *a.drawn; }
inline void circle(Mat& m, Point c, int r, const Scalar& s, int = 1, int = 8, int = 0) { m.drawn->push_back(Draw{"circle", c, c, r, s, ""}); }
inline void line(Mat& m, Point a, Point b, const Scalar& s, int = 1, int = 8, int = 0) { m.drawn->push_back(Draw{"line", a, b, 0, s, ""}); }
inline void putText(Mat& m, const std::string& t, Point a, int, double, Scalar s, int = 1, int = 8, bool = false) { m.drawn->push_back(Draw{"text", a, a, 0, s, t}); }
}

// stand-in for OpenCV windows and image files: keeps what was shown and saved
#pragma once
#include <fstream>
#include <map>
#include <stdexcept>
#include <utility>
#include <opencv2/core/core.hpp>
#define CV_WINDOW_AUTOSIZE 1
namespace cv {
struct Exception : public std::runtime_error { using std::runtime_error::runtime_error; };
struct Display {
  std::vector<std::string> windows; std::vector<std::pair<std::string, Mat> > shown; std::vector<std::pair<std::string, Mat> > saved; std::vector<int> waits;
};
inline Display& display() { static Display d; return d; }
inline void namedWindow(const std::string& n, int = CV_WINDOW_AUTOSIZE) { display().windows.push_back(n); }
inline void imshow(const std::string& n, const Mat& m) { if (m.empty()) throw Exception("imshow of an empty image"); display().shown.emplace_back(n, m); }
inline int waitKey(int ms = 0) { display().waits.push_back(ms); return -1; }
inline bool imwrite(const std::string& f, const Mat& m) {
  if (m.empty()) throw Exception("imwrite of an empty image");
  std::ofstream o(f.c_str()); if (!o.good()) return false;
  o << "image\n"; display().saved.emplace_back(f, m); return true;
}
}

// stand-in for OpenCV images: no pixels, but a description of what is seen and the list of what was drawn
#pragma once
#include <cmath>
#include <memory>
#include <string>
#include <vector>
#define CV_8UC1 0
#define CV_8UC3 16
#define CV_AA 16
inline int cvRound(double v) { return (int)std::lrint(v); }
namespace cv {
struct Point { int x, y; Point(int a = 0, int b = 0) : x(a), y(b) {} };
struct Scalar { double v[4]; Scalar(double a = 0, double b = 0, double c = 0, double d = 0) : v{a, b, c, d} {} };
struct Draw { std::string kind; Point a, b; int radius; Scalar color; std::string text; };
struct Seen { virtual ~Seen() {} };
class Mat {
 public:
  int rows, cols;
  unsigned char* data;
  std::shared_ptr<Seen> seen;
  std::shared_ptr<std::vector<Draw> > drawn;
  Mat() : rows(0), cols(0), data(nullptr) {}
  Mat(int r, int c, int) : rows(r), cols(c), drawn(std::make_shared<std::vector<Draw> >()), _mem(std::make_shared<std::vector<unsigned char> >(1)) { data = _mem->data(); }
  bool empty() const { return !data; }
 private:
  std::shared_ptr<std::vector<unsigned char> > _mem;
};
enum { FONT_HERSHEY_COMPLEX = 3 };
}

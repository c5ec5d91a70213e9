// Running a program of the repository inside a check: its main() is compiled under another name, runs in a scratch
// directory, and what it prints and writes is read back.
#pragma once
#include "vpt.hpp"
#include <cstdio>
#include <dirent.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <Eigen/Core>
#include <sm/BoostPropertyTree.hpp>
#include <aslam/calibration/statistics/NormalDistribution.h>
#include <aslam/calibration/statistics/UniformDistribution.h>
namespace prog {
// a scratch directory that is the current one while it lives
class Scratch {
 public:
  Scratch() : _dir("/tmp/vpt-prog-" + std::to_string(getpid())) { clear(); if (mkdir(_dir.c_str(), 0700) != 0 || chdir(_dir.c_str()) != 0) throw std::runtime_error("no scratch directory " + _dir); }
  ~Scratch() { if (chdir("/tmp")) {} clear(); }
  const std::string& dir() const { return _dir; }
  std::set<std::string> files(const std::string& sub = "") const {
    std::set<std::string> r; DIR* d = opendir((_dir + "/" + sub).c_str()); if (!d) return r;
    while (dirent* e = readdir(d)) if (std::string(e->d_name) != "." && std::string(e->d_name) != "..") r.insert(e->d_name);
    closedir(d); return r;
  }
 private:
  void clear() {
    for (const std::string& f : files("images")) unlink((_dir + "/images/" + f).c_str());
    for (const std::string& f : files()) if (unlink((_dir + "/" + f).c_str()) != 0) rmdir((_dir + "/" + f).c_str());
    rmdir(_dir.c_str());
  }
  std::string _dir;
};
struct Result { int rc; std::string out; };
inline Result run(int (*f)(int, char**), const std::vector<std::string>& args) {
  std::vector<std::string> a(args); a.insert(a.begin(), "program");
  std::vector<char*> v; for (auto& x : a) v.push_back(&x[0]); v.push_back(nullptr);
  std::ostringstream o; std::streambuf *c = std::cout.rdbuf(o.rdbuf()), *e = std::cerr.rdbuf(o.rdbuf());
  const std::ios::fmtflags fl = std::cout.flags(); const std::streamsize pr = std::cout.precision();
  auto back = [&] { std::cout.rdbuf(c); std::cerr.rdbuf(e); std::cout.flags(fl); std::cout.precision(pr); };
  Result r;
  try { r.rc = f((int)a.size(), v.data()); } catch (...) { back(); throw; }
  back(); r.out = o.str();
  return r;
}
typedef std::vector<std::vector<double> > Rows;
inline bool exists(const std::string& f) { std::ifstream i(f); return i.good(); }
inline Rows rows(const std::string& f) {
  std::ifstream i(f); if (!i.good()) throw vpt::Fail{"no file " + f};
  Rows r; std::string l;
  while (std::getline(i, l)) { std::istringstream s(l); std::vector<double> v; std::string w; while (s >> w) { char* e = nullptr; v.push_back(std::strtod(w.c_str(), &e)); if (!e || *e) throw vpt::Fail{"not a number in " + f + ": " + w}; } r.push_back(v); }
  return r;
}
// lines as they stay on the screen
inline std::vector<std::string> lines(const std::string& out) { std::vector<std::string> r; std::istringstream s(out); std::string l; while (std::getline(s, l)) { const size_t c = l.rfind('\r'); r.push_back(c == std::string::npos ? l : l.substr(c + 1)); } return r; }
inline std::vector<double> numbers(const std::string& l) { std::istringstream s(l); std::vector<double> v; double d; while (s >> d) v.push_back(d); return v; }
// every line that starts with the label: what follows it, or else the lines below it
inline std::vector<std::vector<double> > after(const std::string& out, const std::string& label, size_t below = 0) {
  const auto ls = lines(out); std::vector<std::vector<double> > r;
  for (size_t i = 0; i < ls.size(); ++i) if (ls[i].compare(0, label.size(), label) == 0) {
    std::vector<double> v = numbers(ls[i].substr(label.size()));
    for (size_t k = 1; k <= below && i + k < ls.size(); ++k) { const auto w = numbers(ls[i + k]); v.insert(v.end(), w.begin(), w.end()); }
    r.push_back(v);
  }
  return r;
}
inline std::vector<double> last(const std::string& out, const std::string& label, size_t below = 0) {
  const auto a = after(out, label, below); if (a.empty()) throw vpt::Fail{"nothing printed for \"" + label + "\""};
  return a.back();
}
inline size_t count(const std::string& out, const std::string& line) { size_t n = 0; for (const auto& l : lines(out)) if (l == line) ++n; return n; }
// the noise comes from random(), which every kind of generator first seeds with the time
inline void seed(unsigned k) {
  namespace ac = aslam::calibration;
  static const double once = ac::NormalDistribution<1>(0, 1).getSample() + ac::NormalDistribution<3>(Eigen::Vector3d::Zero(), Eigen::Matrix3d::Identity()).getSample()(0) +
    ac::NormalDistribution<2>(Eigen::Vector2d::Zero(), Eigen::Matrix2d::Identity()).getSample()(0) + ac::NormalDistribution<6>(Eigen::Matrix<double, 6, 1>::Zero(), Eigen::Matrix<double, 6, 6>::Identity()).getSample()(0) +
    ac::UniformDistribution<double, 2>(Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 1)).getSample()(0) + ac::UniformDistribution<double, 1>(0, 1).getSample();
  (void)once; srandom(k);
}
inline std::string shipped(const std::string& path) { const char* r = std::getenv("VERIF_REPO"); return std::string(r ? r : "/repo") + "/" + path; }
}  // namespace prog

// vpt: a small property-based testing library (choice-sequence generation, Hypothesis style).
//
//  * every random decision of a case is drawn from a Src; the drawn numbers (the "choice sequence")
//    are the case: replaying the sequence replays the case, shrinking the sequence shrinks the case;
//  * cases run in forked workers; the running case's choices live in shared memory, so a crash, a
//    sanitizer report or a hang is a failing case like any other and is shrunk and replayed too;
//  * the run is a pure function of the code under test and the seed.
//
// The same translation unit can be built as a libFuzzer target (-DVPT_FUZZ): bytes become choices.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vpt {

struct Fail { std::string msg; };
struct Discard {};

// ---------------------------------------------------------------- shared memory: the running case
struct Shared {
  static const size_t kMax = 1u << 17;
  volatile uint64_t caseIdx;
  volatile uint64_t n;
  volatile uint64_t done;
  uint64_t vals[kMax];
};

inline uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

class Src {
 public:
  // random mode
  Src(uint64_t seed, Shared* sh) : rng_(seed), replay_(false), sh_(sh) { start(); }
  // replay mode
  Src(const std::vector<uint64_t>& in, Shared* sh) : rng_(0), replay_(true), in_(in), sh_(sh) { start(); }

  // the only source of choice: uniform in [0, n); n == 0 means the full 64 bits
  uint64_t choice(uint64_t n) {
    uint64_t v;
    if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      if (n != 0 && v >= n) v = n - 1;
    } else {
      v = splitmix(rng_);
      if (n != 0) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
    }
    pos_++;
    if (used_.size() >= Shared::kMax) throw Discard();
    used_.push_back(v);
    if (sh_) { sh_->vals[used_.size() - 1] = v; sh_->n = used_.size(); }
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) {  // inclusive; shrinks towards lo
    if (hi <= lo) return lo;
    return lo + (int64_t)choice((uint64_t)(hi - lo) + 1);
  }
  size_t index(size_t n) { return (size_t)choice(n ? n : 1); }
  bool flip() { return choice(2) == 1; }
  bool chance(int num, int den) { return choice(den) >= (uint64_t)(den - num); }  // shrinks to false
  double unit() { return (double)choice(1ull << 32) / 4294967296.0; }            // [0,1)
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  // log-uniform positive
  double logReal(double lo, double hi) { return std::exp(real(std::log(lo), std::log(hi))); }
  // signed "interesting" real within +-m
  double any(double m) {
    switch (choice(6)) {
      case 0: return (double)range(0, 4) > m ? 0.0 : (double)range(0, (int64_t)std::min(m, 8.0));
      case 1: return -(double)range(0, (int64_t)std::min(m, 8.0));
      case 2: return real(-1, 1) * std::min(1.0, m);
      case 3: return real(-m, m);
      case 4: { double v = logReal(1e-8, std::max(m, 2e-8)); return v; }
      default: { double v = logReal(1e-8, std::max(m, 2e-8)); return -v; }
    }
  }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[index(v.size())]; }
  std::vector<size_t> permutation(size_t n) {
    std::vector<size_t> p(n);
    for (size_t i = 0; i < n; ++i) p[i] = i;
    for (size_t i = 0; i + 1 < n; ++i) std::swap(p[i], p[i + index(n - i)]);
    return p;
  }
  const std::vector<uint64_t>& used() const { return used_; }

  // bookkeeping of the case
  void nontrivial(bool v = true) { nontrivial_ = nontrivial_ || v; }
  void label(const std::string& l) { labels_.insert(l); }
  template <typename F> void note(F&& f) { if (desc_.tellp() < 6000) { f(desc_); } }
  std::ostream& desc() { return desc_; }
  bool isNontrivial() const { return nontrivial_; }
  const std::set<std::string>& labels() const { return labels_; }
  std::string description() const { return desc_.str(); }

 private:
  void start() { desc_ << std::setprecision(17); if (sh_) sh_->n = 0; }
  uint64_t rng_;
  bool replay_;
  std::vector<uint64_t> in_, used_;
  size_t pos_ = 0;
  Shared* sh_;
  bool nontrivial_ = false;
  std::set<std::string> labels_;
  std::ostringstream desc_;
};

struct Clause {
  std::string name, rule;
  uint64_t quick, thorough;
  std::function<void(Src&)> body;
};
inline std::vector<Clause>& registry() { static std::vector<Clause> r; return r; }
struct Reg {
  Reg(const char* name, uint64_t quick, uint64_t thorough, const char* rule, void (*body)(Src&)) {
    registry().push_back(Clause{name, rule, quick, thorough, body});
  }
};
#define CLAUSE(id, quick, thorough, rule) \
  static void clause_##id(vpt::Src& s); \
  static vpt::Reg reg_##id(#id, quick, thorough, rule, clause_##id); \
  static void clause_##id(vpt::Src& s)

template <typename T> std::string str(const T& v) { std::ostringstream o; o << std::setprecision(17) << v; return o.str(); }

#define VFAIL(expr) do { std::ostringstream o_; o_ << std::setprecision(17) << expr; throw vpt::Fail{o_.str()}; } while (0)
#define VCHECK(cond, expr) do { if (!(cond)) VFAIL(#cond << " :: " << expr); } while (0)
#define VEQ(a, b, expr) do { const auto& a_ = (a); const auto& b_ = (b); if (!(a_ == b_)) VFAIL(#a " == " #b " :: got " << a_ << " expected " << b_ << " :: " << expr); } while (0)

inline bool approx(double a, double b, double rel, double abs = 0) {
  if (a == b) return true;
  if (std::isnan(a) || std::isnan(b)) return false;
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
#define VCLOSE(a, b, rel, abs, expr) do { const double a_ = (a), b_ = (b); if (!vpt::approx(a_, b_, rel, abs)) VFAIL(#a " ~ " #b " :: got " << a_ << " expected " << b_ << " :: " << expr); } while (0)

// runs f; returns 0 when it did not throw, 1 when it threw Ex, 2 when it threw something else
template <typename Ex, typename F> int throws(F&& f) {
  try { f(); } catch (const Ex&) { return 1; } catch (const Fail&) { throw; } catch (const Discard&) { throw; } catch (...) { return 2; }
  return 0;
}
#define VTHROWS(Ex, stmt, expr) do { int r_ = vpt::throws<Ex>([&] { stmt; }); if (r_ != 1) VFAIL((r_ == 0 ? "accepted (no exception): " : "wrong exception type: ") << #stmt << " should throw " << #Ex << " :: " << expr); } while (0)
// for calls whose documented reaction is "throws", whatever the type
#define VTHROWS_ANY(stmt, expr) do { int r_ = vpt::throws<std::exception>([&] { stmt; }); if (r_ == 0) VFAIL("accepted (no exception): " << #stmt << " :: " << expr); } while (0)
#define VNOTHROW(stmt, expr) do { try { stmt; } catch (const vpt::Fail&) { throw; } catch (const vpt::Discard&) { throw; } catch (const std::exception& e_) { VFAIL("unexpected exception from " << #stmt << ": " << e_.what() << " :: " << expr); } } while (0)

inline std::set<std::string>& knownKeys() { static std::set<std::string> k; return k; }
inline bool known(const std::string& key) { return knownKeys().count(key) != 0; }

// ------------------------------------------------------------------------------------ execution
enum Outcome { kPass = 0, kDiscard = 1, kFail = 2 };
struct Result { Outcome out; std::string msg; };

Result runBody(const Clause& c, Src& s);
}  // namespace vpt

// C22: exceptions carry what they were given; streaming goes to the object; type traits
#include "vpt.hpp"
#include <sys/types.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <type_traits>
#include <Eigen/Core>
#include <aslam/calibration/exceptions/Exception.h>
#include <aslam/calibration/exceptions/BadArgumentException.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
#include <aslam/calibration/exceptions/NullPointerException.h>
#include <aslam/calibration/base/Serializable.h>
#include <aslam/calibration/utils/SizeTSupport.h>
#include <aslam/calibration/tpl/Boolean.h>
#include <aslam/calibration/tpl/And.h>
#include <aslam/calibration/tpl/Or.h>
#include <aslam/calibration/tpl/Not.h>
#include <aslam/calibration/tpl/Equals.h>
#include <aslam/calibration/tpl/If.h>
#include <aslam/calibration/tpl/IfThenElse.h>
#include <aslam/calibration/tpl/IsInteger.h>
#include <aslam/calibration/tpl/IsReal.h>
#include <aslam/calibration/tpl/IsNumeric.h>
#include <aslam/calibration/tpl/IsVoid.h>
namespace ac = aslam::calibration;

// the library ships the members of this class template without its declaration
namespace aslam { namespace calibration {
template <class C> class Singleton {
 public:
  static C& getInstance();
  static bool exists();
 protected:
  Singleton();
  virtual ~Singleton();
  static C* instance;
};
} }
#include <aslam/calibration/base/Singleton.tpp>

static std::string word(vpt::Src& s, const char* pre) {
  std::string w = pre;
  const int n = (int)s.range(1, 12);
  for (int i = 0; i < n; ++i) w += "abcdefgh:()%/ <>."[s.index(17)];
  return w + pre;
}
static void has(const std::string& text, const std::string& part, const std::string& how) { VCHECK(text.find(part) != std::string::npos, how << ": \"" << text << "\" does not contain \"" << part << "\""); }

template <typename E> static void carried(const E& e, const std::vector<std::string>& parts, const std::vector<std::string>& absent, const std::string& how) {
  std::string w;
  try { throw e; }
  catch (const std::exception& x) { w = x.what(); }
  for (auto& p : parts) has(w, p, how);
  for (auto& p : absent) VCHECK(w.find(p) == std::string::npos, how << ": \"" << w << "\" contains \"" << p << "\"");
  VEQ(std::string(e.what()), w, how);
  E c(e);
  VEQ(std::string(c.what()), w, how << " copy");
  bool asBase = false;
  try { throw e; } catch (const ac::Exception& x) { asBase = std::string(x.what()) == w; }
  VCHECK(asBase, how << ": caught as the library's base exception");
}
CLAUSE(exceptions, 6000, 120000, "a file, a line and a function are given") {
  const std::string msg = word(s, "M"), file = word(s, "F"), fun = word(s, "U"), name = word(s, "N");
  const size_t line = s.chance(1, 4) ? 0 : (size_t)s.range(1, 100000);
  const int lvl = (int)s.range(0, 3);
  s.note([&](std::ostream& o) { o << "message " << msg << " file " << file << " line " << line << " function " << fun << " given " << lvl; });
  s.nontrivial(lvl == 3 && line);
  std::vector<std::string> in, out;
  (lvl >= 1 ? in : out).push_back(file);
  (lvl >= 3 ? in : out).push_back(fun);
  std::ostringstream l;
  l << line;
  if (lvl >= 2 && line) in.push_back("line = " + l.str()); else out.push_back("line = ");
  auto plus = [&](std::vector<std::string> v) { v.insert(v.end(), in.begin(), in.end()); return v; };
  auto mk = [&](auto f) { if (lvl == 0) f(" ", (size_t)0, " "); else if (lvl == 1) f(file, (size_t)0, " "); else if (lvl == 2) f(file, line, " "); else f(file, line, fun); };
  mk([&](const std::string& a, size_t b, const std::string& c) {
    carried(ac::Exception(msg, a, b, c), plus({msg}), out, "exception");
    ac::Exception x("other"), y(msg, a, b, c);
    x = y;
    VEQ(std::string(x.what()), std::string(y.what()), "assigned");
    ac::InvalidOperationException p("other"), q(msg, a, b, c);
    carried(q, plus({msg}), out, "invalid operation");
    p = q;
    VEQ(std::string(p.what()), std::string(q.what()), "assigned");
    ac::NullPointerException n("other"), m(name, a, b, c);
    carried(m, plus({name, "null pointer"}), out, "null pointer");
    n = m;
    VEQ(std::string(n.what()), std::string(m.what()), "assigned");
    const int v = (int)s.range(-1000, 1000), w = (int)s.range(-1000, 1000);
    std::ostringstream vs, ws;
    vs << "argument = " << v; ws << "bound = " << w;
    carried(ac::BadArgumentException<int>(v, msg, a, b, c), plus({msg, vs.str()}), out, "bad argument");
    carried(ac::OutOfBoundException<int>(v, msg, a, b, c), plus({msg, vs.str()}), out, "out of bound");
    carried(ac::OutOfBoundException<int>(v, w, msg, a, b, c), plus({msg, vs.str(), ws.str()}), out, "out of bound with its bound");
    Eigen::Vector2d e(s.any(9), s.any(9));
    std::ostringstream es;
    es << e;
    carried(ac::BadArgumentException<Eigen::Vector2d>(e, msg, a, b, c), plus({msg, es.str()}), out, "bad vector argument");
    carried(ac::BadArgumentException<std::string>(name, msg, a, b, c), plus({msg, name}), out, "bad string argument");
  });
}

struct Probe : public ac::Serializable {
  std::string log;
  mutable std::string wlog;
  std::string text;
  virtual void read(std::istream& st) { log += "i"; st >> text; }
  virtual void write(std::ostream& st) const { wlog += "o"; st << text; }
  virtual void read(std::ifstream& st) { log += "F"; static_cast<std::istream&>(st) >> text; }
  virtual void write(std::ofstream& st) const { wlog += "f"; static_cast<std::ostream&>(st) << text; }
};
CLAUSE(streams, 1500, 20000, "a file stream is used") {
  Probe p, q;
  const int n = (int)s.range(1, 5);
  std::string expW, expR;
  for (int i = 0; i < n; ++i) {
    p.text = "t" + std::to_string(s.range(0, 99999));
    q.text = "none";
    if (s.flip()) {
      std::ostringstream o;
      VCHECK(&(o << static_cast<const ac::Serializable&>(p)) == &o, "writing returns the stream");
      VEQ(o.str(), p.text, "written");
      expW += "o";
      std::istringstream in(o.str());
      VCHECK(&(in >> static_cast<ac::Serializable&>(q)) == &in, "reading returns the stream");
      expR += "i";
    } else {
      s.nontrivial();
      char path[] = "/tmp/vpt-c22-XXXXXX";
      const int fd = mkstemp(path);
      if (fd < 0) throw vpt::Discard();
      close(fd);
      { std::ofstream o(path); VCHECK(&(o << static_cast<const ac::Serializable&>(p)) == &o, "writing returns the stream"); }
      expW += "f";
      { std::ifstream in(path); VCHECK(&(in >> static_cast<ac::Serializable&>(q)) == &in, "reading returns the stream"); }
      expR += "F";
      unlink(path);
    }
    VEQ(q.text, p.text, "read back what was written");
    VEQ(p.wlog, expW, "writers called");
    VEQ(q.log, expR, "readers called");
  }
}

struct One : public ac::Singleton<One> { int v = 7; };
CLAUSE(singleton, 500, 5000, "an instance is destroyed and made again") {
  One* cur = 0;
  const int n = (int)s.range(1, 10);
  int destroyed = 0;
  for (int i = 0; i < n; ++i) {
    VEQ(ac::Singleton<One>::exists(), cur != 0, "existence");
    switch (s.choice(3)) {
      case 0: { One* x = &One::getInstance(); if (cur) VCHECK(x == cur, "always the same instance"); cur = x; VEQ(x->v, 7, "constructed"); if (destroyed) s.nontrivial(); } break;
      case 1:
        if (cur) { VTHROWS(ac::InvalidOperationException, One x, "a second instance"); }
        else { cur = new One; VCHECK(&One::getInstance() == cur, "the instance made by hand"); }
        break;
      default: if (cur) { delete cur; cur = 0; ++destroyed; }
    }
    // constructing a second one must not have dropped the first
    if (cur && ac::Singleton<One>::exists()) VCHECK(&One::getInstance() == cur, "the instance");
  }
  if (cur) delete cur;
  VCHECK(!ac::Singleton<One>::exists(), "destroyed");
}

template <typename A> constexpr bool isTrue() { return std::is_same<A, ac::True>::value; }
template <typename A> constexpr bool isFalse() { return std::is_same<A, ac::False>::value; }
template <typename A> static void boolean(bool expected, const std::string& what) { VCHECK(expected ? isTrue<A>() : isFalse<A>(), what << " should be " << (expected ? "true" : "false")); }
template <typename T> struct HasResult { template <typename U> static char f(typename U::Result*); template <typename U> static long f(...); enum { value = sizeof(f<T>(0)) == 1 }; };
template <typename T> struct HasNumeric { template <typename U> static char f(typename U::Numeric*); template <typename U> static long f(...); enum { value = sizeof(f<T>(0)) == 1 }; };
template <typename A, typename B> static void pair(bool a, bool b) {
  boolean<typename ac::And<A, B>::Result>(a && b, "and");
  boolean<typename ac::Or<A, B>::Result>(a || b, "or");
  boolean<typename ac::Equals<A, B>::Result>(a == b, "equals");
  VCHECK((std::is_same<typename ac::IfThenElse<A, int, double>::Result, double>::value == !a), "if-then-else");
  VEQ(bool(HasResult<ac::If<A> >::value), a, "if has a result");
  boolean<typename ac::Not<A>::Result>(!a, "not");
}
template <typename T> static void numeric(const std::string& n, bool real, bool num, bool isVoid) {
  boolean<typename ac::IsReal<T>::Result>(real, n + " is real");
  boolean<typename ac::IsNumeric<T>::Result>(num, n + " is numeric");
  boolean<typename ac::IsVoid<T>::Result>(isVoid, n + " is void");
  if (num) boolean<typename ac::IsInteger<T>::Result>(!real, n + " is an integer");
  boolean<typename ac::Equals<T, T>::Result>(true, n + " equals itself");
  boolean<typename ac::Equals<T, const T>::Result>(false, n + " equals its const");
}
template <typename S> static void scalar(vpt::Src& s, const std::string& n) {
  typedef Eigen::Matrix<S, Eigen::Dynamic, 1> V;
  const int d = (int)s.range(1, 6);
  V a(d), b(d);
  S dot = 0, sum = 0, prod = 1, mx = 0;
  for (int i = 0; i < d; ++i) { a(i) = (S)s.range(1, 9); b(i) = (S)s.range(1, 9); dot += a(i) * b(i); sum += a(i); prod *= a(i); mx = std::max(mx, a(i)); }
  VEQ(a.dot(b), dot, n << " dot product");
  VEQ(a.sum(), sum, n << " sum");
  VEQ(a.prod(), prod, n << " product");
  VEQ(a.maxCoeff(), mx, n << " maximum");
  V c = a + b * S(2);
  for (int i = 0; i < d; ++i) VEQ(c(i), (S)(a(i) + 2 * b(i)), n << " combination");
  Eigen::VectorXd x = a.template cast<double>();
  for (int i = 0; i < d; ++i) VEQ(x(i), (double)a(i), n << " cast");
  std::ostringstream o;
  o << a.transpose();
  VCHECK(!o.str().empty(), "printed");
}
CLAUSE(traits, 300, 3000, "always") {
  s.nontrivial();
  typedef ac::True T;
  typedef ac::False F;
  switch (s.choice(4)) {
    case 0: pair<T, T>(true, true); break;
    case 1: pair<T, F>(true, false); break;
    case 2: pair<F, T>(false, true); break;
    default: pair<F, F>(false, false);
  }
  boolean<T::Result>(true, "true");
  boolean<F::Result>(false, "false");
  VCHECK(HasNumeric<T>::value && !HasNumeric<F>::value, "overload selection by numeric type");
  switch (s.choice(8)) {
    case 0: numeric<float>("float", true, true, false); break;
    case 1: numeric<double>("double", true, true, false); break;
    case 2: numeric<int>("int", false, true, false); break;
    case 3: numeric<unsigned>("unsigned", false, true, false); break;
    case 4: numeric<long>("long", false, true, false); break;
    case 5: numeric<unsigned long>("unsigned long", false, true, false); break;
    case 6: numeric<std::string>("string", false, false, false); break;
    default: numeric<void>("void", false, false, true);
  }
  scalar<size_t>(s, "size_t");
}

// C21: timestamps behave like their number of seconds
#include "vpt.hpp"
#include <sys/time.h>
#include <time.h>
#include <sstream>
#include <aslam/calibration/base/Timestamp.h>
namespace ac = aslam::calibration;
typedef ac::Timestamp T;

static double drawSec(vpt::Src& s) {
  switch (s.choice(5)) {
    case 0: return (double)s.range(-5, 5);
    case 1: return 1.3e9 + (double)s.range(0, 400000000) + 1e-6 * (double)s.range(0, 999999);
    case 2: return (double)s.range(0, 4000000000ll);
    case 3: return s.any(1e6);
    default: return (double)s.range(-100, 100) + s.real(0, 1);
  }
}
CLAUSE(ordering, 20000, 400000, "the values differ") {
  double a = drawSec(s), b = s.chance(1, 4) ? a : s.chance(1, 3) ? std::nextafter(a, s.flip() ? 1e300 : -1e300) : drawSec(s);
  s.note([&](std::ostream& o) { o << a << " and " << b; });
  s.nontrivial(a != b);
  const T x(a), y(b);
  VEQ(x.getSeconds(), a, "seconds");
  VEQ((double)x, a, "as a number");
#define CMP(op) \
  VEQ(x.operator op(y), (a op b), #op); \
  VEQ(x.operator op(b), (a op b), #op " a number"); \
  VEQ(y.operator op(x), (b op a), #op);
  CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
  VEQ(x.operator +(y), a + b, "sum");
  VEQ(x.operator +(b), a + b, "sum with a number");
  VEQ(x.operator -(y), a - b, "difference");
  VEQ(x.operator -(b), a - b, "difference with a number");
  T c(x), d(b);
  VEQ(c.getSeconds(), a, "copy");
  VCHECK(&(c += b) == &c, "+= returns the timestamp");
  VEQ(c.getSeconds(), a + b, "+=");
  c = x;
  VEQ(c.getSeconds(), a, "assigned");
  VCHECK(&(c -= b) == &c, "-= returns the timestamp");
  VEQ(c.getSeconds(), a - b, "-=");
  VEQ(x.getSeconds(), a, "the original");
  c = *&c;
  std::ostringstream o, e;
  o << x;
  e << a;
  VCHECK(o.str().find(e.str()) != std::string::npos, "printed as " << o.str());
}
CLAUSE(timespec, 20000, 400000, "a fraction of a second") {
  double a = s.chance(1, 8) ? s.logReal(1e-18, 1) * (s.flip() ? 1 : -1) : drawSec(s);
  s.note([&](std::ostream& o) { o << a; });
  s.nontrivial(a != std::floor(a));
  const struct timespec t = T(a).operator ::timespec();
  VCHECK(t.tv_nsec >= 0 && t.tv_nsec < 1000000000, "nanoseconds " << t.tv_nsec << " of " << a);
  const long double v = (long double)t.tv_sec + (long double)t.tv_nsec * 1e-9L;
  VCHECK(std::fabs((double)(v - (long double)a)) < 1.1e-9, "timespec " << t.tv_sec << " s " << t.tv_nsec << " ns of " << a);
}
// proleptic Gregorian calendar, independent of the C library
static std::string civil(int64_t secs, char sep, char sepT, char sepC) {
  int64_t days = secs >= 0 ? secs / 86400 : -((-secs + 86399) / 86400), rem = secs - days * 86400;
  int64_t z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
  int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, y = yoe + era * 400, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  int64_t d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
  if (m <= 2) ++y;
  char b[64];
  snprintf(b, sizeof b, "%04d%c%02d%c%02d%c%02d%c%02d%c%02d", (int)y, sep, (int)m, sep, (int)d, sepT, (int)(rem / 3600), sepC, (int)(rem / 60 % 60), sepC, (int)(rem % 60));
  return b;
}
CLAUSE(date, 5000, 100000, "the time zone is not UTC") {
  // POSIX time zones: the offset is what is subtracted
  const int off = s.chance(1, 3) ? 0 : (int)s.range(-12, 12) * 3600 + (s.chance(1, 4) ? 1800 : 0);
  char tz[32];
  snprintf(tz, sizeof tz, "ABC%s%d:%02d", off < 0 ? "-" : "", std::abs(off) / 3600, std::abs(off) / 60 % 60);
  setenv("TZ", tz, 1);
  tzset();
  const int64_t whole = s.chance(1, 5) ? -s.range(1, 4000000000ll) : s.chance(1, 4) ? s.range(90000, 4000000000ll) : 951782400 + s.range(-90000, 90000) + 86400 * 365 * s.range(0, 30);
  const double t = (double)whole + (s.flip() ? 0 : s.real(0, 0.999));
  s.note([&](std::ostream& o) { o << t << " in " << tz; });
  s.nontrivial(off != 0);
  VEQ(T::getDate(t), civil(whole - off, '-', '-', '-'), "date of " << t << " in " << tz);
  if (s.chance(1, 20)) {
    const int64_t a = time(0);
    const std::string now = T::getDate();
    const int64_t b = time(0);
    bool ok = false;
    for (int64_t k = a - 1; k <= b + 1; ++k) ok = ok || now == civil(k - off, '-', ' ', ':');
    VCHECK(ok, "date now is " << now << " at " << a << " in " << tz);
  }
}
CLAUSE(clock, 200, 2000, "always") {
  s.nontrivial();
  auto sys = [] { struct timeval t; gettimeofday(&t, 0); return (double)t.tv_sec + 1e-6 * (double)t.tv_usec; };
  const double a = sys(), n = T::now(), d = T().getSeconds(), b = sys();
  VCHECK(n >= a - 1e-5 && n <= b + 1e-5, "now is " << n << ", between " << a << " and " << b);
  VCHECK(d >= a - 1e-5 && d <= b + 1e-5, "a default timestamp is " << d << ", between " << a << " and " << b);
}

/*META
dict(
  srcs=['utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  bounds={'quick': 'all pairs of normal timespecs and timevals with seconds within 2^62; conversions of every double of absolute value up to 2^33 (seconds of about 270 years) and, for the range check, of every double whatever',
          'thorough': 'conversions of every double of absolute value up to 2^53'},
  assumptions=['timespecs and timevals are normal on entry: the fraction is less than a second and has the sign of the seconds'],
)
META*/
#include "sym.h"
#include <cstdint>
#include <cmath>
#include <limits>
#include <sys/time.h>
#include <time.h>
#include "timespec-utils.hh"
#include "timeval-utils.hh"
#ifdef TIER_THOROUGH
static double const BIG = 9007199254740992.0;
#else
static double const BIG = 8589934592.0;
#endif
typedef __int128 i128;
// Both types alike
static long &sec(timespec &t) { return t.tv_sec; }
static long &sub(timespec &t) { return t.tv_nsec; }
static long &sec(timeval &t) { return t.tv_sec; }
static long &sub(timeval &t) { return t.tv_usec; }
static void conv(double d, timespec &t) { doubleToTimespec(d, t); }
static void conv(double d, timeval &t) { doubleToTimeval(d, t); }
static void conv2(double d, timespec &t) { t = doubleToTimespec(d); }
static void conv2(double d, timeval &t) { t = doubleToTimeval(d); }
static double back(timespec const &t) { return timespecToDouble(t); }
static double back(timeval const &t) { return timevalToDouble(t); }
static bool normal(long s, long n, long unit) { return (n < unit) & (n > -unit) & !((s > 0) & (n < 0)) & !((s < 0) & (n > 0)); }
template <class T> static T any(long unit) {
  T t; sec(t) = sym_long("seconds"); sub(t) = sym_long("fraction");
  sym_assume((sec(t) < (1L << 62)) & (sec(t) > -(1L << 62)));
  sym_assume(normal(sec(t), sub(t), unit));
  return t;
}
// a == b + c, as exact times
static bool isSum(long as, long an, long bs, long bn, long cs, long cn, long unit) {
  long d = an - bn - cn;   // a multiple of the unit, which makes up for the seconds
  long k = as - bs - cs;   // -1, 0, 1, (2, -2 when signs cancel)
  return (k >= -2) & (k <= 2) & (d == -k * unit);
}
template <class T> static void arith(long unit) {
  T a = any<T>(unit), b = any<T>(unit);
  T s = a + b, d = a - b;
  CHECK(normal(sec(s), sub(s), unit), "a sum has a proper fraction");
  CHECK(isSum(sec(s), sub(s), sec(a), sub(a), sec(b), sub(b), unit), "a sum is exact");
  CHECK(normal(sec(d), sub(d), unit), "a difference has a proper fraction");
  CHECK(isSum(sec(a), sub(a), sec(d), sub(d), sec(b), sub(b), unit), "a difference is exact");
  bool lt = a < b, gt = a > b, eq = a == b;
  CHECK(lt == ((sec(d) < 0) | (sub(d) < 0)), "less means less");
  CHECK(gt == ((sec(d) > 0) | (sub(d) > 0)), "greater means greater");
  CHECK(eq == ((sec(d) == 0) & (sub(d) == 0)), "equal means equal");
  sym_reach("done");
}
SYM_TARGET(Timespec, "done") { arith<timespec>(1000000000); }
SYM_TARGET(Timeval, "done") { arith<timeval>(1000000); }
template <class T> static void into(long unit) {
  double x = sym_double("x"); sym_assume((x <= BIG) & (x >= -BIG));
  T t{}, u{}; conv(x, t); conv2(x, u);
  CHECK((sec(t) == sec(u)) & (sub(t) == sub(u)), "both ways to convert agree");
  CHECK(normal(sec(t), sub(t), unit), "a converted time has a proper fraction");
  double w = (double)sec(t), rest = x - w;
  CHECK((rest < 1.0) & (rest > -1.0), "the seconds are those of the number");
  CHECK(!((x > 0) & (rest < 0)) & !((x < 0) & (rest > 0)), "the seconds are those of the number");
  double f = rest * (double)unit, g = (double)sub(t);
  CHECK((f - g < 1.0) & (g - f < 1.0), "the fraction is that of the number");
  sym_reach("done");
}
SYM_TARGET(ToTimespec, "done") { into<timespec>(1000000000); }
SYM_TARGET(ToTimeval, "done") { into<timeval>(1000000); }
template <class T> static void limits(long unit) {
  double x = sym_double("x"); sym_assume((x >= 4611686018427387904.0) | (x <= -4611686018427387904.0));
  T t; sec(t) = 77; sub(t) = 77;
  T u;
  conv(x, t); u = t; conv2(x, u);
  bool far = (x >= 9223372036854775808.0) | (x < -9223372036854775808.0);
  if (far) CHECK((sub(t) == 0) & (sec(t) == sec(u)) & (sub(t) == sub(u)), "a time out of range is the furthest there is");
  if (x >= 9223372036854775808.0) { CHECK(sec(t) == std::numeric_limits<time_t>::max(), "a time out of range is the furthest there is"); sym_reach("late"); }
  else if (x < -9223372036854775808.0) { CHECK(sec(t) == std::numeric_limits<time_t>::min(), "a time out of range is the furthest there is"); sym_reach("early"); }
  else sym_reach("within");
}
SYM_TARGET(TimespecLimits, "late,early,within") { limits<timespec>(1000000000); }
SYM_TARGET(TimevalLimits, "late,early,within") { limits<timeval>(1000000); }
template <class T> static void outof(long unit) {
  T t; sec(t) = sym_long("seconds"); sub(t) = sym_long("fraction");
  sym_assume((sec(t) <= (long)BIG) & (sec(t) >= -(long)BIG)); sym_assume(normal(sec(t), sub(t), unit));
  double x = back(t);
  CHECK((x >= (double)sec(t) - 1.0) & (x <= (double)sec(t) + 1.0), "a time as a number is within a second of its seconds");
  CHECK(x == (double)sec(t) + (double)sub(t) / (double)unit, "a time as a number is its seconds and fraction");
  sym_reach("done");
}
SYM_TARGET(FromTimespec, "done") { outof<timespec>(1000000000); }
SYM_TARGET(FromTimeval, "done") { outof<timeval>(1000000); }

/*META
dict(
  fork=True,
  srcs=['app-framework/*.cc', '!app-framework/PosixTimebase.cc', '!app-framework/ItimerTimebase.cc', '!app-framework/DispatchTimebase.cc', 'xml-parser/*.cc', '!xml-parser/analyzePlan.cc', 'exec/*.cc', 'intfc/*.cc', 'expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc'],
  libs=['-lpugixml'],
  bounds={'quick': 'a request for a wakeup at one of three instants (2^-22 s, 1 - 2^-22 s, and 0.1 s past a whole second) on either timer; the clock at any nanosecond of the second before and the second after when it is made, and at any nanosecond up to 2 s later when the timer goes off, early or due', 'thorough': 'as quick with eight instants'},
  assumptions=['the clock does not go back; the second is one in 2023', 'timers of the operating system are replaced by stand-ins which record what they are set to'],
)
META*/
#ifdef TIER_THOROUGH
enum { WISHES = 8 };
#else
enum { WISHES = 3 };
#endif
#include "app.hh"
#include "InterfaceError.hh"
#include "gen.hh"
#include "AdapterFactory.hh"
#include "InterfaceAdapter.hh"
#include "TimeAdapter.h"
#include "Timebase.hh"
#include "TimebaseFactory.hh"
#include <csignal>
#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
// The operating system
struct OS {
  bool on = false;
  timespec now{0, 0}; long usec = 0;
  bool armed = false, fail = false;
  timespec due{0, 0};      // first moment at which the timer goes off
  int timers = 0;
  void (*handler)(int) = SIG_DFL;
  void (*thread)(union sigval) = nullptr; union sigval arg;
  timespec interval{0, 0};
};
static OS os;
extern "C" int clock_gettime(clockid_t c, struct timespec *t) noexcept {
  if (!os.on || c != CLOCK_REALTIME) return (int)syscall(SYS_clock_gettime, c, t);
  *t = os.now; return 0;
}
extern "C" int gettimeofday(struct timeval *t, void *) noexcept {
  if (!os.on) { timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
  t->tv_sec = os.now.tv_sec; t->tv_usec = os.usec; return 0;
}
extern "C" int timer_create(clockid_t c, struct sigevent *e, timer_t *t) noexcept {
  CHECK(c == CLOCK_REALTIME && e->sigev_notify == SIGEV_THREAD, "the timer runs on the clock which is shown");
  if (os.fail) { errno = EAGAIN; return -1; }
  os.thread = e->sigev_notify_function; os.arg = e->sigev_value; ++os.timers; *t = (timer_t)1; return 0;
}
extern "C" int timer_delete(timer_t) noexcept { --os.timers; os.armed = false; return 0; }
extern "C" int timer_settime(timer_t, int flags, struct itimerspec const *v, struct itimerspec *) noexcept {
  if (v->it_value.tv_sec == 0 && v->it_value.tv_nsec == 0) { os.armed = false; return 0; }
  CHECK((v->it_value.tv_nsec >= 0) & (v->it_value.tv_nsec < 1000000000) & (v->it_value.tv_sec >= 0), "the operating system gets a proper time");
  os.armed = true; os.due = v->it_value; os.interval = v->it_interval;
  if (!(flags & TIMER_ABSTIME)) { os.due.tv_sec += os.now.tv_sec; os.due.tv_nsec += os.now.tv_nsec; if (os.due.tv_nsec >= 1000000000) { os.due.tv_nsec -= 1000000000; ++os.due.tv_sec; } }
  return 0;
}
extern "C" int setitimer(__itimer_which_t w, const struct itimerval *v, struct itimerval *) noexcept {
  CHECK(w == ITIMER_REAL, "the timer runs on the clock which is shown");
  if (v->it_value.tv_sec == 0 && v->it_value.tv_usec == 0) { os.armed = false; return 0; }
  CHECK((v->it_value.tv_usec >= 0) & (v->it_value.tv_usec < 1000000) & (v->it_value.tv_sec >= 0), "the operating system gets a proper time");
  os.armed = true; os.interval = timespec{v->it_interval.tv_sec, v->it_interval.tv_usec * 1000};
  os.due = timespec{v->it_value.tv_sec + os.now.tv_sec, v->it_value.tv_usec * 1000 + os.now.tv_nsec};
  if (os.due.tv_nsec >= 1000000000) { os.due.tv_nsec -= 1000000000; ++os.due.tv_sec; }
  return 0;
}
extern "C" int sigaction(int sig, const struct sigaction *a, struct sigaction *old) noexcept {
  if (!os.on || sig != SIGALRM) { if (old) memset(old, 0, sizeof *old); return 0; }
  os.handler = a->sa_handler; return 0;
}
static bool before(timespec const &a, timespec const &b) { return (a.tv_sec < b.tv_sec) | ((a.tv_sec == b.tv_sec) & (a.tv_nsec < b.tv_nsec)); }
// A second in 2023; the numbers near it are 2^-22 s apart
static long const S = 1700000000;
static void moment(int first) {   // the clock moves on
  long u = sym_range("microseconds", 0, 999999), r = sym_range("nanoseconds", 0, 999);
  timespec t; t.tv_sec = S + first + sym_choose("seconds", 2); t.tv_nsec = u * 1000 + r;
  if (first) sym_assume(!before(t, os.now));
  os.now = t; os.usec = u;
}
static long wished;   // 2^-22 s
static long ns(timespec const &t) { return (t.tv_sec - S) * 1000000000 + t.tv_nsec; }
// t is at or after the time wished for, plus some nanoseconds
static bool reached(timespec const &t, long plus) { return (ns(t) - plus) * 4194304 >= (wished - (S << 22)) * 1000000000; }
static double wish() {
  static long const frac[] = {1, 4194303, 4194304 / 10, 0, 4194304 / 2, 5, 4194304 - 5, 4194304 / 1000};
  long k = wished = (S << 22) + (1L << 22) + frac[sym_choose("wakeup", WISHES)];
  return (double)k / 4194304.0;
}
struct TimeWorld {
  App app;
  pugi::xml_document doc;
  std::unique_ptr<InterfaceAdapter> ad;
  bool itimer;
  double d = 0;
  TimeWorld(bool it) : itimer(it) {
    initTimeAdapter();
    doc.load_string(it ? "<Adapter AdapterType=\"Time\"><Timebase Type=\"Itimer\"/></Adapter>" : "<Adapter AdapterType=\"Time\"><Timebase Type=\"Posix\"/></Adapter>");
    ad.reset(AdapterFactory::createInstance(doc.document_element(), *app.mgr));
    CHECK((bool)ad && ad->initialize(app.conf.get()), "the time adapter initializes");
    os.on = true; moment(0);
  }
  ~TimeWorld() { os.on = false; }
  double shown() { return StateCache::queryTime(); }
  void ask(double x) { d = x; app.conf->setThresholds(State::timeState(), (Real)d, (Real)0); }
  void ring() {   // the timer goes off
    if (itimer) os.handler(SIGALRM); else os.thread(os.arg);
  }
};
static void once(bool it) {
  throwOnErrors();
  TimeWorld w(it);
  CHECK(w.ad->start(), "the time adapter starts");
  int n = w.app.notified;
  w.ask(wish());
  long gran = it ? 1000 : 1;   // of the timer
  bool late = reached(os.now, 0);
  if (late) {
    CHECK(w.app.notified > n || (os.armed && ns(os.due) <= ns(os.now) + gran), "a wakeup whose time has come is delivered at once");
    sym_reach("past");
  }
  if (w.app.notified > n) { CHECK(w.shown() >= w.d || os.armed, "a wakeup is delivered not before its time, or again"); return; }
  CHECK(os.armed, "a wakeup to come has a timer set");
  CHECK(late || !reached(os.due, 2 * gran), "the timer is not set later than asked for");
  CHECK(os.interval.tv_sec == 0 && os.interval.tv_nsec == 0, "a wakeup comes once");
  moment(1);
  bool early = before(os.now, os.due);
  if (!early) os.armed = false;
  n = w.app.notified;
  w.ring();
  if (early) { CHECK(os.armed || w.app.notified > n, "a timer which goes off early does not lose the wakeup"); sym_reach("early"); }
  else { CHECK(w.app.notified > n, "the executive is woken up when the timer goes off"); sym_reach("due"); }
  CHECK(os.armed || w.shown() >= w.d, "a wakeup is delivered not before its time, or again");
}
SYM_TARGET(Posix, "past,early,due") { once(false); }
SYM_TARGET(Itimer, "past,early,due") { once(true); }
static pugi::xml_document tbDoc;
static std::unique_ptr<Timebase> timebase(bool it, int *rings) {
  initTimeAdapter();
  tbDoc.load_string(it ? "<Timebase Type=\"Itimer\"/>" : "<Timebase Type=\"Posix\"/>");
  return std::unique_ptr<Timebase>(makeTimebase(tbDoc.document_element(), [rings] { ++*rings; }));
}
static bool isUsec(timespec const &t, long usec) { return (t.tv_nsec >= 0) & (t.tv_nsec < 1000000000) & (t.tv_sec * 1000000000 + t.tv_nsec == usec * 1000); }
SYM_TARGET(Ticks, "ticking") {
  throwOnErrors();
  bool it = sym_choose("timer", 2); int rings = 0;
  auto tb = timebase(it, &rings);
  os.on = true; os.now = timespec{S, 0};
  static unsigned const base[] = {1, 999900, 4294000, 4294900, 5000000, 4294966200u};
  unsigned n = base[sym_choose("about", 6)] + (unsigned)sym_range("interval", 0, 1000);
  tb->setTickInterval(n);
  CHECK(tb->getTickInterval() == n, "the tick interval is as set");
  tb->start();
  CHECK(os.armed && isUsec(os.interval, n) && isUsec(timespec{os.due.tv_sec - S, os.due.tv_nsec}, n), "ticks come every interval");
  tb->setTimer((double)S + 1);
  CHECK(os.armed && isUsec(os.interval, n), "wakeups do not disturb ticks");
  if (it) os.handler(SIGALRM); else os.thread(os.arg);
  CHECK(rings == 1, "a tick wakes up the executive");
  tb->stop();
  CHECK(!os.armed, "no ticks come after stopping");
  os.on = false;
  sym_reach("ticking");
}
SYM_TARGET(Life, "used,failed") {   // starting and stopping
  throwOnErrors(); InterfaceError::doThrowExceptions();
  bool it = sym_choose("timer", 2);
  TimeWorld w(it);
  bool on = false;
  for (int i = 0; i < 4; ++i) switch (sym_choose("op", 4)) {
    case 0: CHECK(w.ad->start(), "the time adapter starts"); on = true; CHECK(it ? os.handler != SIG_DFL : os.timers == 1, "one timer is used"); break;
    case 1: w.ad->stop(); on = false; CHECK(!os.armed && os.timers == 0 && (!it || os.handler == SIG_DFL), "no wakeup comes after stopping"); break;
    case 2:
      if (!on) return;
      w.ask((double)(S + 5)); CHECK(os.armed && ns(os.due) >= 5000000000 && ns(os.due) <= 5000002000, "a wakeup to come has a timer set"); break;
    default:
      if (on || it) return;
      os.fail = true; CHECK(!w.ad->start(), "failing to start is reported"); os.fail = false; sym_reach("failed"); return;
    }
  sym_reach("used");
}

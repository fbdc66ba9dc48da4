/*META
dict(
  fork=True,
  srcs=['app-framework/*.cc', '!app-framework/PosixTimebase.cc', '!app-framework/ItimerTimebase.cc', '!app-framework/DispatchTimebase.cc', 'xml-parser/*.cc', '!xml-parser/analyzePlan.cc', 'exec/*.cc', 'intfc/*.cc', 'expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc'],
  libs=['-lpugixml'],
  bounds={'quick': 'every sequence of 3 registrations (by name, by list of names, as functions with and without abort, as default) of handlers which answer or fail, for commands and for lookups, then a use of each of three names; updates with no handler or either of two; up to 3 adapters of which any fail to initialize or start',
          'thorough': 'as quick with sequences of 4 registrations'},
  assumptions=['a handler which fails throws InterfaceError'],
)
META*/
#include "app.hh"
#include "gen.hh"
#include "InterfaceError.hh"
#include "InterfaceAdapter.hh"
#include "LookupReceiver.hh"
#ifdef TIER_THOROUGH
enum { REGS = 4 };
#else
enum { REGS = 3 };
#endif
struct Log { int exec = 0, abort = 0, lookup = 0, hiR = 0, hiI = 0, clear = 0, by = -1; void const *what = nullptr; };
static Log L;
static bool failing;
static void fail() { if (failing) throw InterfaceError("", "handler fails", __FILE__, __LINE__); }
struct CmdH : CommandHandler {
  int id; CmdH(int i) : id(i) {}
  void executeCommand(Command *c, AdapterExecInterface *) override { ++L.exec; L.by = id; L.what = c; fail(); }
  void abortCommand(Command *c, AdapterExecInterface *) override { ++L.abort; L.by = id; L.what = c; fail(); }
};
// A name of one character, any; which handler it leads to follows from the character
struct Name { std::string s; unsigned char c; };
static Name anyName() { Name n; n.c = sym_byte("name"); n.s = std::string(1, (char)n.c); return n; }
static inline int sel(bool c, int a, int b) { return b ^ ((a ^ b) & -(int)c); }
static int leadsTo(Name const &n, int const *own, int dflt) { return sel(n.c == 'a', own[0] >= 0 ? own[0] : dflt, sel(n.c == 'b', own[1] >= 0 ? own[1] : dflt, dflt)); }
SYM_TARGET(Commands, "own,default,builtin") {
  throwOnErrors();
  App app;
  int own[3] = {-1, -1, -1}, dflt = -1; bool hasAbort[8];
  AdapterConfiguration *c = app.conf.get();
  int regs = sym_choose("registrations", REGS + 1);
  for (int i = 0; i < regs; ++i) {
    hasAbort[i] = true;
    auto ex = [i](Command *c, AdapterExecInterface *) { ++L.exec; L.by = i; L.what = c; fail(); };
    auto ab = [i](Command *c, AdapterExecInterface *) { ++L.abort; L.by = i; L.what = c; fail(); };
    switch (sym_choose("how", 9)) {
    case 0: c->registerCommandHandler(std::make_shared<CmdH>(i), std::string("a")); own[0] = i; break;
    case 1: c->registerCommandHandler(std::make_shared<CmdH>(i), std::vector<std::string>{"a", "b"}); own[0] = own[1] = i; break;
    case 2: c->registerCommandHandlerFunction("a", ex, ab); own[0] = i; break;
    case 3: c->registerCommandHandlerFunction("b", ex); own[1] = i; hasAbort[i] = false; break;
    case 4: c->registerCommandHandlerFunction("b", ex, AbortCommandHandler()); own[1] = i; hasAbort[i] = false; break;
    case 5: c->setDefaultCommandHandler(std::make_shared<CmdH>(i)); dflt = i; break;
    case 6: c->setDefaultCommandHandlerFunction(ex, ab); dflt = i; break;
    case 7: c->setDefaultCommandHandlerFunction(ex); dflt = i; hasAbort[i] = false; break;
    default: c->registerCommandHandler(std::make_shared<CmdH>(i), std::vector<std::string>()); break;
    }
  }
  Name n = anyName();
  failing = sym_choose("fails", 2);
  CommandImpl cmd("cmd");
  cmd.setNameExpr(new Constant<String>(n.s), true); cmd.activate(); cmd.fixValues();
  L = Log(); app.notified = 0;
  c->executeCommand(&cmd);
  int want = leadsTo(n, own, dflt);
  CHECK(L.exec == (want >= 0) && L.abort == 0 && L.by == want, "a command goes to the handler last registered for its name, else to the last default");
  sym_reach(want >= 0 ? (want == dflt ? "default" : "own") : "builtin");
  if (want >= 0) CHECK(L.what == &cmd, "the handler gets the command");
  CHECK(cmd.getCommandHandle() == (want >= 0 && failing ? COMMAND_INTERFACE_ERROR : NO_COMMAND_HANDLE), "a handler which fails leaves an interface error, one which does not leaves the answer to come");
  app.mgr->processQueue();
  CHECK(cmd.getCommandHandle() == (want < 0 ? COMMAND_SUCCESS : failing ? COMMAND_INTERFACE_ERROR : NO_COMMAND_HANDLE), "with no handler at all the command succeeds");
  CHECK((app.notified > 0) == (want < 0), "the executive is woken up for the answer");
  // the abort goes the same way
  Boolean b = false; bool k;
  L = Log(); app.notified = 0;
  c->invokeAbort(&cmd);
  bool handled = want >= 0 && hasAbort[want];
  CHECK(L.abort == handled && L.exec == 0 && (!handled || (L.by == want && L.what == &cmd)), "an abort goes to the same handler");
  app.mgr->processQueue();
  k = cmd.getAbortComplete()->getValue(b);
  CHECK((k && b) == !handled, "an abort nobody handles is acknowledged, a failed one is not");
  CHECK((app.notified > 0) == !handled, "the executive is woken up for the answer");
  // arbitration
  cmd.deactivate(nullptr); cmd.activate(); cmd.fixValues();
  c->reportCommandArbitrationFailure(&cmd);
  app.mgr->processQueue();
  CHECK(cmd.getCommandHandle() == COMMAND_DENIED, "a command refused resources is denied");
  cmd.deactivate(nullptr);
}
struct LkH : LookupHandler {
  int id; LkH(int i) : id(i) {}
  void lookupNow(const State &, LookupReceiver *r) override { ++L.lookup; L.by = id; r->update((Integer)id); fail(); }
  void setThresholds(const State &, Real, Real) override { ++L.hiR; L.by = id; }
  void setThresholds(const State &, Integer, Integer) override { ++L.hiI; L.by = id; }
  void clearThresholds(const State &) override { ++L.clear; L.by = id; }
};
struct Rcv : LookupReceiver {
  Value v{(Integer)-7}; int n = 0;
  void set(Value const &x) { v = x; ++n; }
  void update(Value const &x) override { set(x); }
  void setUnknown() override { set(Value()); }
  void update(Boolean x) override { set(Value(x)); }
  void update(Integer x) override { set(Value(x)); }
  void update(Real x) override { set(Value(x)); }
  void update(String const &x) override { set(Value(x)); }
  void update(char const *x) override { set(Value(String(x))); }
  void update(Boolean const *, size_t) override { ++n; }
  void update(Integer const *, size_t) override { ++n; }
  void update(Real const *, size_t) override { ++n; }
  void update(String const *, size_t) override { ++n; }
};
SYM_TARGET(Lookups, "own,default,builtin") {
  throwOnErrors();
  App app;
  int own[3] = {-1, -1, -1}, dflt = -1; int thr[8];   // 0: takes no thresholds, 1: takes both, 2: Real only
  AdapterConfiguration *c = app.conf.get();
  int regs = sym_choose("registrations", REGS + 1);
  for (int i = 0; i < regs; ++i) {
    thr[i] = 1;
    LookupNowHandler now = [i](State const &, LookupReceiver *r) { ++L.lookup; L.by = i; r->update((Integer)i); fail(); };
    SetThresholdsHandlerReal sr = [i](State const &, Real, Real) { ++L.hiR; L.by = i; };
    SetThresholdsHandlerInteger si = [i](State const &, Integer, Integer) { ++L.hiI; L.by = i; };
    ClearThresholdsHandler cl = [i](State const &) { ++L.clear; L.by = i; };
    switch (sym_choose("how", 8)) {
    case 0: c->registerLookupHandler(std::make_shared<LkH>(i), std::string("a")); own[0] = i; break;
    case 1: c->registerLookupHandler(std::make_shared<LkH>(i), std::vector<std::string>{"a", "b"}); own[0] = own[1] = i; break;
    case 2: c->registerLookupHandlerFunction("a", now, sr, si, cl); own[0] = i; break;
    case 3: c->registerLookupHandlerFunction("b", now); own[1] = i; thr[i] = 0; break;
    case 4: c->registerLookupHandlerFunction("b", now, sr); own[1] = i; thr[i] = 2; break;
    case 5: c->setDefaultLookupHandler(std::make_shared<LkH>(i)); dflt = i; break;
    case 6: c->setDefaultLookupHandler(now, sr, si, cl); dflt = i; break;
    default: c->setDefaultLookupHandler(now); dflt = i; thr[i] = 0; break;
    }
  }
  Name n = anyName();
  failing = sym_choose("fails", 2);
  State st = sym_choose("parameter", 2) ? State(n.s, Value((Integer)1)) : State(n.s);
  Rcv r;
  L = Log();
  c->lookupNow(st, &r);
  int want = leadsTo(n, own, dflt);
  CHECK(L.lookup == (want >= 0) && L.by == want, "a lookup goes to the handler last registered for its name, else to the last default");
  sym_reach(want >= 0 ? (want == dflt ? "default" : "own") : "builtin");
  if (want < 0) CHECK(r.n == 0, "with no handler the value stays as it is");
  else if (failing) CHECK(!r.v.isKnown(), "a lookup which fails yields unknown");
  else { Integer i = 0; CHECK(r.v.getValue(i) && i == want && r.n == 1, "the handler's value arrives"); }
  L = Log(); c->setThresholds(st, (Real)1, (Real)0);
  CHECK(L.hiR == (want >= 0 && thr[want] != 0) && L.hiI == 0 && L.lookup == 0 && (L.hiR == 0 || L.by == want), "thresholds go to the same handler, if it takes them");
  L = Log(); c->setThresholds(st, (Integer)1, (Integer)0);
  CHECK(L.hiI == (want >= 0 && thr[want] == 1) && L.hiR == 0 && L.lookup == 0 && (L.hiI == 0 || L.by == want), "thresholds go to the same handler, if it takes them");
  L = Log(); c->clearThresholds(st);
  CHECK(L.clear == (want >= 0 && thr[want] == 1) && L.lookup == 0 && (L.clear == 0 || L.by == want), "thresholds are cleared with the same handler");
}
SYM_TARGET(Updates, "with,without") {
  throwOnErrors();
  App app;
  int who = -1, h = sym_choose("handlers", 3);
  for (int i = 0; i < h; ++i) app.conf->registerPlannerUpdateHandler([&who, i](Update *u, AdapterExecInterface *m) { who = i; if (i == 1) m->handleUpdateAck(u, false); });
  StubUpdate u;
  app.conf->executeUpdate(&u);
  CHECK(who == h - 1, "an update goes to the handler last registered");
  CHECK(u.acks + u.nacks == 0, "answers arrive through the queue");
  app.mgr->processQueue();
  CHECK(u.acks == (h == 0) && u.nacks == (h == 2), "an update nobody handles is acknowledged; otherwise the handler's answer counts");
  CHECK((app.notified > 0) == (h == 0), "the executive is woken up for the answer");
  sym_reach(h ? "with" : "without");
}
static int order[16], norder;
struct Ad : InterfaceAdapter {
  int id; bool i, s;
  Ad(AdapterExecInterface &m, int id, bool i, bool s) : InterfaceAdapter(m, nullptr), id(id), i(i), s(s) {}
  bool initialize(AdapterConfiguration *) override { order[norder++] = id; return i; }
  bool start() override { order[norder++] = 10 + id; return s; }
  void stop() override { order[norder++] = 20 + id; }
};
SYM_TARGET(Adapters, "all well,not so") {
  throwOnErrors();
  App app;
  int n = sym_choose("adapters", 4); bool in[3], st[3]; norder = 0;
  int goodI = n, goodS = n;
  for (int k = 0; k < n; ++k) {
    in[k] = sym_choose("initializes", 2); st[k] = sym_choose("starts", 2);
    if (!in[k] && goodI == n) goodI = k;
    if (!st[k] && goodS == n) goodS = k;
    app.conf->addInterfaceAdapter(new Ad(*app.mgr, k, in[k], st[k]));
  }
  CHECK(app.conf->initialize() == (goodI == n), "the interfaces are initialized when each adapter is");
  int want = goodI == n ? n : goodI + 1;
  CHECK(norder == want, "adapters are initialized in order, each once, up to the first which fails");
  for (int k = 0; k < norder; ++k) CHECK(order[k] == k, "adapters are initialized in order, each once, up to the first which fails");
  if (goodI < n) { sym_reach("not so"); return; }
  norder = 0;
  CHECK(app.conf->start() == (goodS == n), "the interfaces are started when each adapter is");
  want = goodS == n ? n : goodS + 1;
  CHECK(norder == want, "adapters are started in order, each once, up to the first which fails");
  for (int k = 0; k < norder; ++k) CHECK(order[k] == 10 + k, "adapters are started in order, each once, up to the first which fails");
  norder = 0;
  app.conf->stop();
  CHECK(norder == n, "every adapter is stopped");
  for (int k = 0; k < norder; ++k) CHECK(order[k] == 20 + k, "every adapter is stopped");
  sym_reach(goodS == n ? "all well" : "not so");
}

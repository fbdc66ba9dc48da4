/*META
dict(
  fork=True,
  srcs=['app-framework/*.cc', '!app-framework/PosixTimebase.cc', '!app-framework/ItimerTimebase.cc', '!app-framework/DispatchTimebase.cc', 'xml-parser/*.cc', '!xml-parser/analyzePlan.cc', 'exec/*.cc', 'intfc/*.cc', 'expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc'],
  libs=['-lpugixml'],
  bounds={'quick': 'every sequence of 5 operations (a message with 0 to 2 parameters of any Integer value or unknown arrives, from a named sender or anonymously, later messages of the other shape; GetMessageHandle; ReleaseMessageHandle of a handle held, released or never given) with lookups of the message data in use or not; '
          'all argument lists of up to 3 arguments (String, Integer, unknown) for ReleaseMessageHandle, PublishMessage and SendMessage', 'thorough': 'as quick with 6 operations'},
  assumptions=['messages arrive in the thread of the executive', 'MessageSender and PeekAtMessageSender of anonymous messages may be empty or unknown'],
)
META*/
#include "app.hh"
#include "gen.hh"
#include "AdapterFactory.hh"
#include "InterfaceAdapter.hh"
#include "Lookup.hh"
#include "MessageAdapter.hh"
#include "Timebase.hh"
#ifdef TIER_THOROUGH
enum { OPS = 6, FREE = 0 };
#else
enum { OPS = 5, FREE = 0 };
#endif
struct Clock : Timebase {
  double now = 100;
  Clock() : Timebase([] {}) {}
  double getTime() const override { return now; }
  void setTickInterval(uint32_t) override {}
  uint32_t getTickInterval() const override { return 0; }
  void start() override {}
  void stop() override {}
  void setTimer(double) override {}
};
struct I3 { bool k; Integer v; };
static int same(Value const &v, I3 const &x) { Integer r = 0; bool k = v.getValue(r); return (k == x.k) & (!x.k | (r == x.v)); }
static bool is(Value const &v, char const *s) { String const *p = nullptr; return v.getValuePointer(p) && *p == s; }
static bool is(Value const &v, double d) { Real r = 0; return v.getValue(r) && r == d; }
struct Msg { std::string name; char const *sender; int n; I3 p[2]; double at; std::string handle; bool live, watched; };
struct MsgWorld {
  App app;
  Clock clock;
  pugi::xml_document doc;
  std::unique_ptr<InterfaceAdapter> ad;
  MessageAdapter *ma;
  std::vector<Msg> all; size_t head = 0;   // messages from head on are still in the queue
  std::vector<std::pair<std::pair<size_t, int>, Expression *>> watches;
  std::vector<std::unique_ptr<CommandImpl>> cmds;
  std::vector<std::unique_ptr<StringVariable>> dests;
  MsgWorld() {
    doc.load_string("<Adapter AdapterType=\"Message\"/>");
    ad.reset(AdapterFactory::createInstance(doc.document_element(), *app.mgr));
    CHECK((bool)ad, "the message adapter can be made");
    ma = dynamic_cast<MessageAdapter *>(ad.get());
    CHECK(ad->initialize(app.conf.get()) && ad->start(), "the message adapter initializes");
  }
  ~MsgWorld() { for (auto &w : watches) { w.second->deactivate(); delete w.second; } app.conf.reset(); }
  void arrive() {
    Msg m;
    static char const *const names[] = {"m0", "m1", "m2", "m3", "m4", "m5"};
    m.name = names[all.size()];
    bool free = FREE || all.empty();   // quick tier: only the first message is of any shape
    m.n = free ? sym_choose("parameters", 3) : all[0].n == 1 ? 2 : 1;
    for (int i = 0; i < m.n; ++i) { m.p[i].k = sym_bool("known"); m.p[i].v = sym_int("value"); }
    m.sender = (free ? sym_choose("named", 2) : !all[0].sender) ? "me" : nullptr;
    m.at = clock.now; m.live = m.watched = false;
    {
      State s(m.name);
      if (m.n) { s.setParameterCount(m.n); for (int i = 0; i < m.n; ++i) s.setParameter(i, m.p[i].k ? Value(m.p[i].v) : Value()); }
      if (m.sender) ma->receiveMessage(m.sender, s); else ma->receiveMessageAnonymously(s);
    }
    all.push_back(m);
    clock.now += 1;
  }
  CommandHandleValue command(char const *name, std::vector<Value> const &args, Value *ret = nullptr) {
    cmds.emplace_back(new CommandImpl("c")); CommandImpl *c = cmds.back().get();
    c->setNameExpr(new Constant<String>(name), true);
    if (!args.empty()) {
      ExprVec *v = makeExprVec(args.size());
      for (size_t i = 0; i < args.size(); ++i) {
        Expression *e; String const *s = nullptr; Integer n = 0;
        if (args[i].valueType() == STRING_TYPE && args[i].getValuePointer(s)) e = new Constant<String>(*s);
        else if (args[i].valueType() == INTEGER_TYPE && args[i].getValue(n)) e = new Constant<Integer>(n);
        else e = new Constant<String>();
        v->setArgument(i, e, true);
      }
      c->setArgumentVector(v);
    }
    if (ret) { dests.emplace_back(new StringVariable("d")); c->setDestination(dests.back().get(), false); }
    c->activate(); c->fixValues();
    int before = app.notified;
    app.conf->executeCommand(c);
    CHECK(app.notified > before, "the executive is woken up to see the answer");
    app.mgr->processQueue();
    if (ret) *ret = dests.back()->toValue();
    CommandHandleValue h = c->getCommandHandle();
    c->deactivate(nullptr);
    return h;
  }
  Expression *look(char const *what, std::string const &handle, int idx = -1) {
    ExprVec *v = makeExprVec(idx < 0 ? 1 : 2);
    v->setArgument(0, new Constant<String>(handle), true);
    if (idx >= 0) v->setArgument(1, new Constant<Integer>(idx), true);
    return makeLookup(new Constant<String>(what), true, UNKNOWN_TYPE, v);
  }
  void shows(Msg const &m, int what, Value const &v) {
    if (!m.live) { CHECK(!v.isKnown(), "the data of a released message are unknown"); return; }
    switch (what) {
    case 0: CHECK(is(v, m.name.c_str()), "MessageText is the text of the message of that handle"); break;
    case 1: CHECK(same(v, I3{true, m.n}), "MessageParameterCount is the number of its parameters"); break;
    case 2: case 3: CHECK(same(v, what - 2 < m.n ? m.p[what - 2] : I3{false, 0}), "MessageParameter is that parameter of the message, unknown if there is none"); break;
    case 4: CHECK(m.sender ? is(v, m.sender) : (!v.isKnown() || is(v, "")), "MessageSender is its sender"); break;
    default: CHECK(is(v, m.at), "MessageArrived is when it arrived"); break;
    }
  }
  Value now(Msg const &m, int what) {
    static char const *const nn[] = {"MessageText", "MessageParameterCount", "MessageParameter", "MessageParameter", "MessageSender", "MessageArrived"};
    Value h((String)m.handle);
    Expression *e = look(nn[what], m.handle, what == 2 || what == 3 ? what - 2 : -1);
    e->activate(); Value v(e->toValue()); e->deactivate(); delete e;
    return v;
  }
  void watch(size_t i) {
    Msg &m = all[i]; m.watched = true;
    static char const *const nn[] = {"MessageText", "MessageParameterCount", "MessageParameter", "MessageParameter", "MessageSender", "MessageArrived"};
    for (int w = 0; w < 6; ++w) {
      Expression *e = look(nn[w], m.handle, w == 2 || w == 3 ? w - 2 : -1);
      e->activate();
      watches.push_back({{i, w}, e});
    }
  }
  Value simple(char const *what) {
    Expression *e = makeLookup(new Constant<String>(what), true, UNKNOWN_TYPE, nullptr);
    e->activate(); Value v(e->toValue()); e->deactivate(); delete e;
    return v;
  }
  void check() {
    StateCache::instance().incrementCycleCount();
    bool some = head < all.size();
    Boolean b = false; bool k = simple("HaveMessage").getValue(b);
    CHECK((k && b) == some, "HaveMessage tells whether a message is waiting");
    Value t(simple("PeekAtMessage")), f(simple("PeekAtMessageSender"));
    if (!some) CHECK(!t.isKnown() && !f.isKnown(), "with no message waiting there is nothing to peek at");
    else {
      CHECK(is(t, all[head].name.c_str()), "PeekAtMessage shows the oldest message waiting");
      CHECK(all[head].sender ? is(f, all[head].sender) : (!f.isKnown() || is(f, "")), "PeekAtMessageSender shows its sender");
    }
    for (auto &w : watches) shows(all[w.first.first], w.first.second, w.second->toValue());
    for (size_t i = 0; i < head; ++i) for (int w = 0; w < 6; ++w) shows(all[i], w, now(all[i], w));
  }
  void get() {
    Value h;
    CHECK(command("GetMessageHandle", {}, &h) == COMMAND_SUCCESS, "GetMessageHandle succeeds");
    if (head == all.size()) { CHECK(!h.isKnown(), "with no message waiting the handle is unknown"); return; }
    String const *p = nullptr;
    CHECK(h.getValuePointer(p) && !p->empty(), "a waiting message gets a handle");
    if (!p) return;
    for (size_t i = 0; i < head; ++i) CHECK(all[i].handle != *p, "different messages get different handles");
    Msg &m = all[head]; m.handle = *p; m.live = true;
    ++head;
  }
};
SYM_TARGET(Messages, "done") {
  throwOnErrors();
  MsgWorld w;
  for (int i = 0; i < OPS; ++i) {
    switch (sym_choose("op", 4)) {
    case 0: w.arrive(); w.app.mgr->processQueue(); break;
    case 1: w.get(); break;
    case 2: {
      size_t k = sym_choose("which handle", w.head + 1);
      if (k == w.head) CHECK(w.command("ReleaseMessageHandle", {Value((String)"nobody has this")}) == COMMAND_SUCCESS, "releasing a handle nobody has succeeds and does nothing");
      else { CHECK(w.command("ReleaseMessageHandle", {Value((String)w.all[k].handle)}) == COMMAND_SUCCESS, "a handle can be released"); w.all[k].live = false; }
      break;
    }
    default: {
      size_t k = sym_choose("which to watch", w.head + 1);
      if (k == w.head || w.all[k].watched) return;
      w.watch(k); break;
    }
    }
    w.check();
  }
  sym_reach("done");
}
SYM_TARGET(Arguments, "ok,bad") {
  throwOnErrors();
  MsgWorld w;
  w.arrive(); w.app.mgr->processQueue(); w.get();
  static char const *const nn[] = {"ReleaseMessageHandle", "PublishMessage", "SendMessage"};
  int which = sym_choose("command", 3), n = sym_choose("arguments", 4);
  std::vector<Value> args; int kind[3] = {3, 3, 3};
  for (int i = 0; i < n; ++i) {
    kind[i] = sym_choose("kind", 3);
    args.push_back(kind[i] == 0 ? Value((String)"x") : kind[i] == 1 ? Value((Integer)sym_int("i")) : Value());
  }
  CommandHandleValue h = w.command(nn[which], args);
  bool need2 = which == 2;
  bool strings = kind[0] == 0 && (!need2 || kind[1] == 0);
  bool ok = which == 0 ? kind[0] == 0 || kind[0] == 2 : strings;
  bool either = which == 0 && (n > 1 || kind[0] == 2);   // surplus arguments and a handle which is not known: not prescribed
  if (!either) CHECK(h == (ok ? COMMAND_SUCCESS : COMMAND_FAILED), "a message command with the wrong arguments fails, any other succeeds");
  w.check();
  sym_reach(ok ? "ok" : "bad");
}

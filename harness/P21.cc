/*META
dict(
  fork=True,
  srcs=['app-framework/*.cc', '!app-framework/PosixTimebase.cc', '!app-framework/ItimerTimebase.cc', '!app-framework/DispatchTimebase.cc', 'xml-parser/*.cc', '!xml-parser/analyzePlan.cc', 'exec/*.cc', 'intfc/*.cc', 'expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc'],
  libs=['-lpugixml'],
  bounds={'quick': 'every sequence of 3 posts (value change of one of two states, command handle, return value, abort acknowledgement, update acknowledgement, new plan, mark; to an active or an inactive command; with any value) with the queue processed after any of them; '
          'every sequence of 6 operations on either kind of queue', 'thorough': 'as quick with 4 posts and 8 queue operations'},
  assumptions=['one thread at a time uses the queue (mutual exclusion is std::mutex)'],
)
META*/
#include "app.hh"
#include "gen.hh"
#include "QueueEntry.hh"
#include "SerializedInputQueue.hh"
#include "SimpleInputQueue.hh"
#ifdef TIER_THOROUGH
enum { POSTS = 4, QOPS = 8 };
#else
enum { POSTS = 3, QOPS = 6 };
#endif
struct I3 { bool k; Integer v; };
static I3 any() { I3 x; x.k = sym_bool("known"); x.v = sym_int("value"); return x; }
static int same(Value const &v, I3 const &x) { Integer r = 0; bool k = v.getValue(r); return (k == x.k) & (!x.k | (r == x.v)); }
static bool yes(Expression *e) { Boolean b = false; return e->getValue(b) && b; }
// What plans can see of the outside world
struct Seen {
  I3 state[2] = {{false, 0}, {false, 0}};
  int handle = NO_COMMAND_HANDLE;
  I3 ret{false, 0};
  int abt = 0;   // 0: no answer, 1: negative, 2: positive
  int acks = 0, nacks = 0, plans = 0;
};
struct PostWorld {
  App app;
  Seen posted, done;     // everything posted so far; everything posted before the last processQueue
  std::vector<Seen> atMark; std::vector<unsigned> seq; size_t marksSeen = 0;
  bool anyPosted = false, someEntry = false;
  IntegerVariable dest{"dest"}, dest2{"dest2"};
  CommandImpl cmd{"cmd"}, idle{"idle"};
  StubUpdate upd;
  int form = -1, move = -1;
  State st(int i) { return i ? State("b", Value((Integer)7)) : State("a"); }
  PostWorld() {
    cmd.setNameExpr(new Constant<String>("go"), true); cmd.setDestination(&dest, false); cmd.activate(); cmd.fixValues();
    idle.setNameExpr(new Constant<String>("idle"), true); idle.setDestination(&dest2, false); idle.activate(); idle.fixValues(); idle.deactivate(nullptr);
    app.onMark = [this](unsigned s) {
      CHECK(marksSeen < seq.size() && seq[marksSeen] == s, "marks come back in order, each once");
      if (marksSeen < seq.size()) shows(atMark[marksSeen]);
      ++marksSeen;
    };
  }
  void shows(Seen const &x) {
    for (int i = 0; i < 2; ++i) CHECK(same(cached(st(i)), x.state[i]), "a state has the value last reported for it");
    CHECK(cmd.getCommandHandle() == x.handle, "a command has the handle last reported for it");
    CHECK(same(dest.toValue(), x.ret), "the return variable has the value last returned");
    Boolean b = false; bool k = cmd.getAbortComplete()->getValue(b);
    CHECK((k && b) == (x.abt == 2), "an abort is acknowledged as reported");
    CHECK(upd.acks == x.acks && upd.nacks == x.nacks, "an update is acknowledged as often as reported");
    CHECK((int)app.ex.added.size() == x.plans, "each plan is added once");
    CHECK(idle.getCommandHandle() == NO_COMMAND_HANDLE && !yes(idle.getAbortComplete()), "a command not in execution takes no answers");
  }
  void process() {
    bool need = app.mgr->processQueue();
    CHECK(need == someEntry, "the executive is to be stepped exactly when something other than a mark arrived");
    CHECK(marksSeen == seq.size(), "every mark comes back");
    shows(posted);
    done = posted; someEntry = false; anyPosted = false;
    CHECK(!app.mgr->processQueue(), "everything is delivered once");
    shows(posted);
  }
  void post() {
    AdapterExecInterface *m = app.mgr.get();
    switch (sym_choose("post", 8)) {
    case 0: {
      int i = sym_choose("which state", 2);
      I3 v = any();
      {
        State s(st(i)), s2(st(i)); Value w = v.k ? Value(v.v) : Value();
        if (form < 0) form = sym_choose("form", 4);
        switch (form) {
        case 0: m->handleValueChange(s, w); w = Value((Integer)0); break;
        case 1: m->handleValueChange(s, std::move(w)); break;
        case 2: m->handleValueChange(std::move(s), w); w = Value((Integer)0); break;
        default: m->handleValueChange(std::move(s), std::move(w)); break;
        }
      }
      posted.state[i] = v; someEntry = true; break;
    }
    case 1: {
      int h = sym_int("handle"); sym_assume((h >= -1) & (h <= COMMAND_HANDLE_MAX + 1));
      m->handleCommandAck(&cmd, (CommandHandleValue)h);
      bool ok = (h > NO_COMMAND_HANDLE) & (h < COMMAND_HANDLE_MAX);
      posted.handle = COMMAND_INTERFACE_ERROR ^ ((COMMAND_INTERFACE_ERROR ^ h) & -(int)ok);
      someEntry = true; break;
    }
    case 2: {
      I3 v = any(); Value w = v.k ? Value(v.v) : Value();
      if (move < 0) move = sym_choose("move", 2);
      if (move) m->handleCommandReturn(&cmd, std::move(w)); else m->handleCommandReturn(&cmd, w);
      posted.ret = v; someEntry = true; break;
    }
    case 3: { bool a = sym_bool("ack"); m->handleCommandAbortAck(&cmd, a); posted.abt = 1 + a; someEntry = true; break; }
    case 4: { bool a = sym_bool("ack"); m->handleUpdateAck(&upd, a); if (a) ++posted.acks; else ++posted.nacks; someEntry = true; break; }
    case 5: {
      seq.push_back(0); atMark.push_back(posted);
      unsigned s = m == nullptr ? 0 : app.mgr->markQueue(); seq.back() = s;
      for (size_t i = 0; i + 1 < seq.size(); ++i) CHECK(seq[i] < s, "marks are numbered upwards");
      break;
    }
    case 6: {
      pugi::xml_document d;
      d.load_string("<PlexilPlan><Node NodeType=\"Empty\"><NodeId>n</NodeId></Node></PlexilPlan>");
      m->handleAddPlan(d.document_element());
      ++posted.plans; someEntry = true; break;
    }
    default: switch (sym_choose("vain", 2)) {
      case 0: m->handleCommandAck(&idle, COMMAND_SUCCESS); m->handleCommandAbortAck(&idle, true); m->handleCommandReturn(&idle, Value((Integer)3)); someEntry = true; break;
      default: m->handleCommandAck(nullptr, COMMAND_SUCCESS); m->handleCommandReturn(nullptr, Value()); m->handleCommandAbortAck(nullptr, true); m->handleUpdateAck(nullptr, true); break;
      }
    }
  }
};
SYM_TARGET(Post, "processed") {
  throwOnErrors();
  PostWorld w;
  for (int i = 0; i < POSTS; ++i) {
    w.post();
    if (i + 1 < POSTS && sym_choose("process", 2)) w.process();
    else if (w.done.handle != w.posted.handle || w.done.plans != w.posted.plans) w.shows(w.done);  // nothing happens before the queue is processed
  }
  w.process();
  sym_reach("processed");
}
// The queue itself
template <class Q> static void ops() {
  throwOnErrors();
  Q q;
  std::vector<unsigned> in;   // what is in the queue, oldest first
  size_t out = 0;
  std::vector<QueueEntry *> mine;
  for (int i = 0; i < QOPS; ++i) {
    CHECK(q.isEmpty() == (out == in.size()), "the queue is empty exactly when all that was put was taken");
    switch (sym_choose("op", 5)) {
    case 0: {   // put
      QueueEntry *e = q.allocate();
      CHECK(e != nullptr, "an entry is allocated");
      for (QueueEntry *m : mine) CHECK(m != e, "an entry in use is not handed out again");
      CHECK(e->type == Q_UNINITED && !e->value.isKnown(), "entries are handed out blank");
      unsigned s = sym_int("item");
      e->initForMark(s); q.put(e); in.push_back(s); break;
    }
    case 1: {   // put with something which must be released
      QueueEntry *e = q.allocate();
      for (QueueEntry *m : mine) CHECK(m != e, "an entry in use is not handed out again");
      CHECK(e->type == Q_UNINITED && !e->value.isKnown(), "entries are handed out blank");
      Integer v = sym_int("value");
      e->initForLookup(State("s"), Value(v)); q.put(e); in.push_back((unsigned)v); break;
    }
    case 2: {   // get
      QueueEntry *e = q.get();
      CHECK((e != nullptr) == (out < in.size()), "something comes out exactly when something is in");
      if (!e) break;
      if (e->type == Q_MARK) CHECK(e->sequence == in[out], "what was put first comes out first");
      else { Integer r = 0; CHECK(e->type == Q_LOOKUP && e->value.getValue(r) && (unsigned)r == in[out] && e->state->name() == "s", "what was put first comes out first"); }
      ++out; mine.push_back(e); break;
    }
    case 3:
      if (mine.empty()) return;
      q.release(mine.back()); mine.pop_back(); break;
    default: q.flush(); out = in.size(); CHECK(q.isEmpty() && !q.get(), "a flushed queue is empty"); break;
    }
  }
  for (QueueEntry *m : mine) q.release(m);
  sym_reach("used");
}
SYM_TARGET(Serialized, "used") { ops<SerializedInputQueue>(); }
SYM_TARGET(Simple, "used") { ops<SimpleInputQueue>(); }

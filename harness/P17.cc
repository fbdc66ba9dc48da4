/*META
dict(
  srcs=['exec/*.cc', 'intfc/*.cc', 'expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  bounds={'quick': 'a List node with one Command node (two symbolic Integer arguments, a return variable, start, end, exit, invariant and repeat conditions), two Command nodes, or a Command and an Update node; the nodes started or not, then every 3 events (2 with two nodes): the conditions of a node take any values, '
          'its argument expressions take any values, the abort or update is acknowledged, a handle is reported, any value is returned, each at any time including too late; at most 14 micro steps per run to quiescence', 'thorough': 'as quick with one further event'},
  assumptions=['an abort is acknowledged only after it was requested', 'argument values are Integers; other types are copied by the same Value code, checked in P03'],
)
META*/
#include "exec.hh"
#include "ExprVec.hh"
#ifdef TIER_THOROUGH
enum { EVENTS = 4 };
#else
enum { EVENTS = 3 };
#endif
static T3 any() { T3 v; v.k = sym_bool("known"); v.v = sym_bool("value"); return v; }
struct I3 { bool k; Integer v; };
static I3 anyInt() { I3 x; x.k = sym_bool("known"); x.v = sym_int("value"); return x; }
struct Arg : GetValueImpl<Integer>, Notifier {
  I3 x{false, 0};
  bool isPropagationSource() const override { return true; }
  char const *getName() const override { return "arg"; }
  char const *exprName() const override { return "Arg"; }
  bool isKnown() const override { return isActive() && x.k; }
  bool getValue(Integer &r) const override { if (!isActive()) return false; r = x.v; return x.k; }
  void printSpecialized(std::ostream &) const override {}
};
static int same(Value const &v, I3 const &x) { Integer r = 0; bool k = v.getValue(r); return (k == x.k) & (!x.k | (r == x.v)); }
enum { SE = 1 << START | 1 << END, SER = SE | 1 << REPEAT, LEAF = SER | 1 << EXIT | 1 << INV, ROOT = SE | 1 << EXIT | 1 << INV };
// what the outside world is told, and what it tells
struct ExtWorld : World {
  Arg arg[MAXN][2];
  IntegerVariable dest{"dest"};
  I3 shown{false, 0};
  Counter handleChanged[MAXN];
  int heard[MAXN];
  CommandHandleValue hv[MAXN];
  I3 sent[MAXN][2];
  int last[MAXN];
  int toSend[MAXN], toAbort[MAXN], toUpdate[MAXN];
  int nsent[MAXN], naborted[MAXN];
  ExtWorld() {
    microCap = 14;
    for (int i = 0; i < MAXN; ++i) { last[i] = INACTIVE_STATE; toSend[i] = toAbort[i] = toUpdate[i] = nsent[i] = naborted[i] = heard[i] = 0; hv[i] = NO_COMMAND_HANDLE; }
    dest.activate();
  }
  bool acting(int i) const { int s = nd[i].st; return s == EXECUTING_STATE || s == FINISHING_STATE || s == FAILING_STATE; }
  int command(int mask, bool returns) {
    int i = add(CMD, 0, mask);
    nd[i].cmd = new CommandImpl("cmd");
    nd[i].cmd->setNameExpr(new Constant<String>("go"), true);
    ExprVec *v = makeExprVec(2);
    v->setArgument(0, &arg[i][0], false); v->setArgument(1, &arg[i][1], false);
    nd[i].cmd->setArgumentVector(v);
    if (returns) nd[i].cmd->setDestination(&dest, false);
    return i;
  }
  int update(int mask) { return add(UPD, 0, mask); }
  void ready() {
    finish();
    for (int i = 0; i < n; ++i) {
      if (nd[i].type == UPD) { nd[i].upd->reservePairs(2); nd[i].upd->addPair("x", &arg[i][0], false); nd[i].upd->addPair("y", &arg[i][1], false); }
      if (nd[i].type == CMD) { nd[i].cmd->getAck()->activate(); nd[i].cmd->getAck()->addListener(&handleChanged[i]); }
      arg[i][0].x = anyInt(); arg[i][1].x = anyInt();
    }
  }
  void afterMicro() override {
    for (int i = 0; i < n; ++i) {
      if (nd[i].st == last[i]) continue;
      if (nd[i].st == EXECUTING_STATE && (nd[i].type == CMD || nd[i].type == UPD)) {
        sent[i][0] = arg[i][0].x; sent[i][1] = arg[i][1].x;
        if (nd[i].type == CMD) toSend[i] = 1; else toUpdate[i] = 1;
        hv[i] = NO_COMMAND_HANDLE;
      }
      if (nd[i].st == FAILING_STATE && nd[i].type == CMD) toAbort[i] = 1;
      last[i] = nd[i].st;
    }
    World::afterMicro();
  }
  int who(Command const *c) { for (int i = 0; i < n; ++i) if (nd[i].type == CMD && (Command const *)nd[i].cmd == c) return i; return -1; }
  void executeCommand(Command *c) override {
    int i = who(c);
    CHECK(i >= 0 && toSend[i] == 1, "a command is sent once each time its node executes, and not otherwise");
    if (i < 0) return;
    toSend[i] = 0; ++nsent[i];
    CHECK(c->getName() == "go", "the command sent has the name the plan gives");
    std::vector<Value> const &a = c->getArgValues();
    CHECK(a.size() == 2, "the command sent has the arguments the plan gives");
    CHECK(same(a[0], sent[i][0]) & same(a[1], sent[i][1]), "the arguments sent are those the expressions had when the node began to execute");
    CHECK(c->isReturnExpected() == (nd[i].cmd->getDest() != nullptr), "whether a return value is expected");
  }
  void invokeAbort(Command *c) override {
    int i = who(c);
    CHECK(i >= 0 && toAbort[i] == 1, "a command is aborted once when its node is interrupted, and not otherwise");
    if (i < 0) return;
    toAbort[i] = 0; ++naborted[i];
    CHECK(naborted[i] <= nsent[i], "only a command which was sent is aborted");
  }
  void executeUpdate(Update *u) override {
    int i = -1;
    for (int j = 0; j < n; ++j) if (nd[j].type == UPD && (Update *)nd[j].upd == u) i = j;
    CHECK(i >= 0 && toUpdate[i] == 1, "an update is sent once each time its node executes, and not otherwise");
    if (i < 0) return;
    toUpdate[i] = 0;
    Update::PairValueMap const &m = u->getPairs();
    int nx = 0, ny = 0;
    for (auto const &p : m) {
      if (p.first == "x") { ++nx; CHECK(same(p.second, sent[i][0]), "the values sent are those the expressions had when the node began to execute"); }
      else if (p.first == "y") { ++ny; CHECK(same(p.second, sent[i][1]), "the values sent are those the expressions had when the node began to execute"); }
    }
    CHECK(nx == 1 && ny == 1 && m.size() == 2, "the update has the pairs the plan gives");
  }
  void atRest() override {
    for (int i = 0; i < n; ++i) {
      CHECK(!toSend[i] && !toAbort[i] && !toUpdate[i], "commands, aborts and updates are sent without further delay");
      if (nd[i].type == CMD) CHECK(nd[i].cmd->getCommandHandle() == hv[i], "the handle is the last one reported during the execution");
    }
    Integer r = 0; bool k = dest.getValue(r);
    CHECK((k == shown.k) & (!shown.k | (r == shown.v)), "a returned value is assigned while the command executes, and never later");
  }
  void event() {
    int i = sym_choose("node", n);
    if (nd[i].type == LISTN) { for (int k = EXIT; k <= INV; ++k) set(i, k, any()); run(); return; }
    Nd &l = nd[i];
    int what = sym_choose("event", 5);
    if (what == 0) for (int k = 0; k < NC; ++k) { if (l.c[k]) l.c[k]->set(any()); }
    if (what == 1) { arg[i][0].x = anyInt(); arg[i][0].publishChange(); arg[i][1].x = anyInt(); arg[i][1].publishChange(); }
    if (what == 2) {
      if (l.type == UPD) { if (l.st == EXECUTING_STATE || l.st == FAILING_STATE) l.ack = true; l.upd->acknowledge(true); }
      else if (l.type == CMD && l.st == FAILING_STATE) { l.abt = true; commandAbortAcknowledge(l.cmd, true); }
      else if (l.type == CMD && !acting(i)) commandAbortAcknowledge(l.cmd, true);     // too late
    }
    if (l.type == CMD && what == 3) {
      static CommandHandleValue const hh[] = {COMMAND_SUCCESS, COMMAND_FAILED, COMMAND_ACCEPTED};
      CommandHandleValue h = hh[sym_choose("handle", 3)];
      bool was = acting(i);
      int before = handleChanged[i].n;
      if (was) { l.handle = h; hv[i] = h; }
      commandHandleReturn(l.cmd, h);
      CHECK(!was || handleChanged[i].n > before, "a reported handle is announced");
    }
    if (l.type == CMD && what == 4 && l.cmd->getDest()) {
      I3 x = anyInt();
      if (acting(i)) shown = x;
      commandReturn(l.cmd, x.k ? Value(x.v) : Value());
    }
    run();
  }
};
static void go(ExtWorld &w, int events) {
  w.ready();
  w.run();
  w.set(0, START, TR3); w.run();
  for (int i = 1; i < w.n; ++i) w.set(i, START, T3{true, sym_bool("start")});
  w.run();
  for (int i = 0; i < events; ++i) w.event();
}
SYM_TARGET(OneCommand, "") { ExtWorld w; w.add(LISTN, -1, ROOT); w.command(LEAF, true); go(w, EVENTS); }
SYM_TARGET(TwoCommands, "") { ExtWorld w; w.add(LISTN, -1, SE); w.command(SE | 1 << EXIT, true); w.command(SE, false); go(w, EVENTS - 1); }
SYM_TARGET(UpdateCommand, "") { ExtWorld w; w.add(LISTN, -1, SE); w.update(SER | 1 << EXIT); w.command(SE, true); go(w, EVENTS - 1); }

/*META
dict(
  srcs=['exec/*.cc', 'intfc/*.cc', 'expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  bounds={'quick': 'a List node with an Empty node, one of whose eight conditions asks about the state, outcome, failure type, timepoints, command handle or a state predicate (each constant asked for) of its sibling (Command, Empty, Assignment, Update, List node), or a list which watches its children through NoChildFailed; '
          'the sibling in one of four phases of its life, then every 2 events: all conditions of one of the nodes take any values, or the outside world answers; at most 14 micro steps per run to quiescence', 'thorough': 'as quick with 3 events'},
  assumptions=['an abort is acknowledged only after it was requested'],
)
META*/
#include "exec.hh"
#include "vars.hh"
#include "Comparisons.hh"
#include "NodeFunction.hh"
#include "NodeOperators.hh"
#include "NodeConstantExpressions.hh"
#ifdef TIER_THOROUGH
enum { EVENTS = 3 };
#else
enum { EVENTS = 2 };
#endif
static T3 any() { T3 v; v.k = sym_bool("known"); v.v = sym_bool("value"); return v; }
static T3 b3(bool v) { return T3{true, v}; }
enum { SE = 1 << START | 1 << END, SER = SE | 1 << REPEAT, SXE = SE | 1 << EXIT, ROOT = SE | 1 << EXIT | 1 << INV };
struct RefWorld : World {
  double tp[MAXN][FINISHING_STATE + 1][2];    // when each node entered and left each state; negative if it has not
  int last[MAXN];
  int asked = -1, askedState = 0, askedEnd = 0, before = 0; Expression *askedExpr = nullptr; Counter heard;   // a listener of the timepoint referred to
  ~RefWorld() { if (askedExpr) { askedExpr->deactivate(); askedExpr->removeListener(&heard); } }
  CommandHandleValue hv[MAXN];                // last handle reported in this execution of a command
  RefWorld() {
    microCap = 14;
    for (int i = 0; i < MAXN; ++i) {
      last[i] = INACTIVE_STATE; hv[i] = NO_COMMAND_HANDLE;
      for (auto &a : tp[i]) a[0] = a[1] = -1;
    }
  }
  void afterMicro() override {
    double was = asked < 0 ? -1 : tp[asked][askedState][askedEnd];
    for (int i = 0; i < n; ++i)
      if (nd[i].st != last[i]) {
        if (nd[i].st == INACTIVE_STATE) for (auto &a : tp[i]) a[0] = a[1] = -1;
        tp[i][last[i]][1] = tp[i][nd[i].st][0] = steps;
        if (nd[i].st == EXECUTING_STATE) hv[i] = NO_COMMAND_HANDLE;
        last[i] = nd[i].st;
      }
    if (asked >= 0) {
      if (was != tp[asked][askedState][askedEnd]) CHECK(heard.n != before, "whoever refers to a timepoint learns that it changed");
      before = heard.n;
    }
    World::afterMicro();
  }
  void atRest() override {
    for (int i = 0; i < n; ++i)
      for (int k = 0; k < NC; ++k)
        if (nd[i].c[k] && (nd[i].st == FINISHED_STATE || nd[i].st == INACTIVE_STATE))
          CHECK(!nd[i].c[k]->level(), "the conditions of a node which is inactive or finished are not in use");
  }
  bool acting(int i) const { int s = nd[i].st; return s == EXECUTING_STATE || s == FINISHING_STATE || s == FAILING_STATE; }
  // what a condition can ask about another node
  void refer(int who, int cond, int what, int of) {
    Nd &a = nd[who], &b = nd[of];
    int i = of;
    World &w = *this;
    switch (what) {
    case 0: {
      static NodeState const ss[] = {INACTIVE_STATE, WAITING_STATE, EXECUTING_STATE, ITERATION_ENDED_STATE, FINISHED_STATE, FAILING_STATE, FINISHING_STATE};
      NodeState s = ss[sym_choose("state asked for", 7)];
      a.ex[cond] = makeFunction(Equal::instance(), b.n->getStateVariable(), new Constant<NodeState>(s), false, true);
      a.fn[cond] = [&w, i, s] { return b3(w.nd[i].st == s); };
      break;
    }
    case 1: {
      static NodeOutcome const oo[] = {SUCCESS_OUTCOME, FAILURE_OUTCOME, SKIPPED_OUTCOME, INTERRUPTED_OUTCOME};
      NodeOutcome o = oo[sym_choose("outcome asked for", 4)];
      a.ex[cond] = makeFunction(Equal::instance(), b.n->getOutcomeVariable(), new Constant<NodeOutcome>(o), false, true);
      a.fn[cond] = [&w, i, o] { return T3{w.nd[i].out != NO_OUTCOME, w.nd[i].out == o}; };
      break;
    }
    case 2: {
      static FailureType const ff[] = {PRE_CONDITION_FAILED, POST_CONDITION_FAILED, INVARIANT_CONDITION_FAILED, PARENT_FAILED, EXITED, PARENT_EXITED};
      FailureType f = ff[sym_choose("failure asked for", 6)];
      a.ex[cond] = makeFunction(Equal::instance(), b.n->getFailureTypeVariable(), new Constant<FailureType>(f), false, true);
      a.fn[cond] = [&w, i, f] { return T3{w.nd[i].fail != NO_FAILURE, w.nd[i].fail == f}; };
      break;
    }
    case 3: {
      static CommandHandleValue const hh[] = {COMMAND_SUCCESS, COMMAND_FAILED};
      int h = sym_choose("handle asked for", 3);
      Expression *e = b.cmd->getAck();
      if (h == 2) {
        a.ex[cond] = makeFunction(IsKnown::instance(), e, false);
        a.fn[cond] = [this, i] { return b3(hv[i] != NO_COMMAND_HANDLE); };
      } else {
        CommandHandleValue c = hh[h];
        a.ex[cond] = makeFunction(NotEqual::instance(), e, new Constant<CommandHandleValue>(c), false, true);
        a.fn[cond] = [this, i, c] { return T3{hv[i] != NO_COMMAND_HANDLE, hv[i] != c}; };
      }
      break;
    }
    case 4: {
      static NodeState const ss[] = {WAITING_STATE, EXECUTING_STATE, ITERATION_ENDED_STATE, FINISHED_STATE};
      NodeState s = ss[sym_choose("timepoint of", 4)];
      int e = sym_choose("end", 2);
      static double const when[] = {3, 5};
      double t = when[sym_choose("compared with", 2)];
      asked = i; askedState = s; askedEnd = e; askedExpr = b.n->ensureTimepoint(s, e); askedExpr->addListener(&heard); askedExpr->activate();
      a.ex[cond] = makeFunction(GreaterEqual<Real>::instance(), b.n->ensureTimepoint(s, e), new Constant<Real>(t), false, true);
      a.fn[cond] = [this, i, s, e, t] { return T3{tp[i][s][e] >= 0, tp[i][s][e] >= t}; };
      break;
    }
    case 5: {
      static NodeOperator const *const oo[] = {NodeInactive::instance(), NodeWaiting::instance(), NodeExecuting::instance(), NodeIterationEnded::instance(), NodeFinished::instance(),
        NodeSucceeded::instance(), NodeFailed::instance(), NodeSkipped::instance(), NodePostconditionFailed::instance()};
      int o = sym_choose("predicate", 9);
      a.ex[cond] = new NodeFunction(oo[o], b.n);
      a.fn[cond] = [&w, i, o] {
        Nd &x = w.nd[i];
        switch (o) {
        case 0: return b3(x.st == INACTIVE_STATE);
        case 1: return b3(x.st == WAITING_STATE);
        case 2: return b3(x.st == EXECUTING_STATE);
        case 3: return b3(x.st == ITERATION_ENDED_STATE);
        case 4: return b3(x.st == FINISHED_STATE);
        case 5: return b3(x.st == FINISHED_STATE && x.out == SUCCESS_OUTCOME);
        case 6: return b3(x.st == FINISHED_STATE && x.out == FAILURE_OUTCOME);
        case 7: return b3(x.out == SKIPPED_OUTCOME);
        default: return b3(x.fail == POST_CONDITION_FAILED);
        }
      };
      break;
    }
    case 6: {  // no child of the node has failed
      a.ex[cond] = new NodeFunction(NodeNoChildFailed::instance(), b.n);
      a.fn[cond] = [this, i] {
        for (int j = 0; j < n; ++j) if (nd[j].parent == i && nd[j].st == FINISHED_STATE && nd[j].out == FAILURE_OUTCOME) return b3(false);
        return b3(true);
      };
      break;
    }
    }
  }
};
// something happens to a node: the world answers, or its conditions take any values
static void event(RefWorld &w, int who) {
  Nd &l = w.nd[who];
  bool talks = l.type == UPD || l.type == CMD;
  if (talks && sym_choose("answer", 2)) {
    if (l.type == UPD) { if (l.st == EXECUTING_STATE || l.st == FAILING_STATE) l.ack = true; l.upd->acknowledge(true); }
    else if (l.type == CMD && l.st == FAILING_STATE) { l.abt = true; l.cmd->acknowledgeAbort(true); }
    else if (l.type == CMD) {
      static CommandHandleValue const hh[] = {COMMAND_SUCCESS, COMMAND_FAILED, COMMAND_ACCEPTED};
      CommandHandleValue h = hh[sym_choose("handle", 3)];
      if (w.acting(who)) { l.handle = h; w.hv[who] = h; }
      l.cmd->setCommandHandle(h);
    }
  } else
    for (int k = 0; k < NC; ++k) if (l.c[k]) l.c[k]->set(any());
  w.run();
}
// node 1 has a condition about node 2
static void go(int typeB, int what) {
  RefWorld w;
  w.add(LISTN, -1, SE);
  int cond = sym_choose("condition", NC);
  w.add(EMPT, 0, (cond == REPEAT ? SE : SER) & ~(1 << cond));
  w.add(typeB, 0, SER | 1 << EXIT | 1 << (what == 2 ? PRE : INV) | 1 << POST);
  if (typeB == CMD) { w.nd[2].cmd = new CommandImpl("cmd"); w.nd[2].cmd->setNameExpr(new Constant<String>("go"), true); }
  w.refer(1, cond, what, 2);
  w.finish();
  w.run();
  w.set(0, START, TR3); w.run();
  if (cond != START) w.set(1, START, b3(sym_bool("start")));
  if (cond != END) w.set(1, END, b3(sym_bool("end")));
  w.run();
  int phase = sym_choose("phase", 4);
  if (phase) { w.set(2, START, TR3); w.run(); }
  if (phase == 2) { w.set(2, EXIT, TR3); w.run(); w.set(2, EXIT, F3); w.run(); }
  if (phase == 3) {
    Nd &l = w.nd[2];
    if (typeB == UPD) { l.ack = true; l.upd->acknowledge(true); }
    w.set(2, END, TR3); w.run();
    if (typeB == CMD) { l.handle = w.hv[2] = COMMAND_SUCCESS; l.cmd->setCommandHandle(COMMAND_SUCCESS); w.run(); }
  }
  for (int i = 0; i < EVENTS; ++i) event(w, 1 + sym_choose("who", 2));
}
SYM_TARGET(StateOfCommand, "") { go(CMD, 0); }
SYM_TARGET(OutcomeOfEmpty, "") { go(EMPT, 1); }
SYM_TARGET(FailureOfAssignment, "") { go(ASSIGN, 2); }
SYM_TARGET(HandleOfCommand, "") { go(CMD, 3); }
SYM_TARGET(TimepointOfUpdate, "") { go(UPD, 4); }
SYM_TARGET(PredicateOfList, "") { go(LISTN, 5); }
// as a Sequence has it: the list gives up when a child has failed
SYM_TARGET(NoChildFailed, "") {
  RefWorld w;
  w.add(LISTN, -1, SE);
  int cond = sym_choose("condition", 2) ? EXIT : INV;
  w.add(LISTN, 0, SE);
  w.add(EMPT, 1, SER | 1 << PRE | 1 << POST);
  w.add(EMPT, 1, SXE | 1 << INV);
  w.refer(1, cond, 6, 1);
  w.finish();
  w.run();
  w.set(0, START, TR3); w.run();
  w.set(1, START, TR3); w.run();
  int f = sym_choose("started", 4);
  for (int i = 0; i < 2; ++i) if (f >> i & 1) { w.set(2 + i, START, TR3); w.run(); }
  for (int i = 0; i < EVENTS; ++i) event(w, 2 + sym_choose("child", 2));
}

// The executive under symbolic execution: plans built from the real node classes, conditions and the outside world
// supplied by the harness, and an independent model of the node state rules.
#ifndef EXEC_HH
#define EXEC_HH
#include "vars.hh"
#include <functional>
#include "PlexilExec.hh"
#include "NodeFactory.hh"
#include "ListNode.hh"
#include "LibraryCallNode.hh"
#include "AssignmentNode.hh"
#include "Assignment.hh"
#include "CommandNode.hh"
#include "CommandImpl.hh"
#include "UpdateNode.hh"
#include "UpdateImpl.hh"
#include "ExecListenerBase.hh"
#include "Dispatcher.hh"
#include "Mutex.hh"
#include "InterfaceError.hh"
#include "ResourceArbiterInterface.hh"
#include "PlexilNodeType.hh"
enum { SKIP, START, PRE, EXIT, INV, END, POST, REPEAT, NC };
static char const *const CN[NC] = {"SkipCondition", "StartCondition", "PreCondition", "ExitCondition", "InvariantCondition", "EndCondition", "PostCondition", "RepeatCondition"};
struct T3 { bool k, v; };
static const T3 U3{false, false}, F3{true, false}, TR3{true, true};
static inline int isT(T3 a) { return a.k & a.v; }
static inline int isF(T3 a) { return a.k & !a.v; }
static inline int sel(bool c, int a, int b) { return b ^ ((a ^ b) & -(int)c); }

// A condition whose value the harness sets; like every expression, unknown while nobody has activated it
struct Cond : GetValueImpl<Boolean>, Notifier {
  T3 x{false, false};
  int level() const { return isActive(); }
  bool isPropagationSource() const override { return true; }
  char const *getName() const override { return "cond"; }
  char const *exprName() const override { return "Cond"; }
  bool isKnown() const override { return isActive() && x.k; }
  bool getValue(Boolean &r) const override { if (!isActive()) return false; r = x.v; return x.k; }
  void printSpecialized(std::ostream &) const override {}
  void set(T3 v) { x = v; publishChange(); }
};

enum { EMPT = NodeType_Empty, LISTN = NodeType_NodeList, CMD = NodeType_Command, ASSIGN = NodeType_Assignment, UPD = NodeType_Update, LIB = NodeType_LibraryNodeCall };
enum { MAXN = 6 };
struct Nd {
  int type, parent;
  NodeImpl *n;
  Cond *c[NC];
  Expression *ex[NC]; std::function<T3()> fn[NC];   // conditions which are functions of the plan itself, and what they mean
  int st, out, fail;                 // the model's view
  bool ack, abt; int handle;         // assignment or update acknowledged, abort acknowledged, command handle
  Assignment *as; CommandImpl *cmd; UpdateImpl *upd;
  BooleanVariable *var;
  // resources: mutexes and base variables it needs while executing (bit set), priority; model of the wait for them
  unsigned res; Integer prio; int pend; int since;
  Assignable *dest; Expression *rhs; // assignment target and value, if not the default
};
struct Dec {                         // a decision built without branching
  int st = -1, out = -1, fail = -1; int done = 0;
  void when(int c, int s, int o = -1, int f = -1) { int m = c & !done; st = sel(m, s, st); out = sel(m, o, out); fail = sel(m, f, fail); done |= c; }
  void stay(int c) { done |= c; }
};

struct World : ExecListenerBase, Dispatcher {
  Nd nd[MAXN]; int n = 0;
  PlexilExec *ex;
  int micro = 0, microCap = 10, steps = 0;
  bool check = true;                 // compare against the model
  int cmdCalls = 0, abortCalls = 0, updCalls = 0, denied = 0;
  Command *lastCmd = nullptr; CommandImpl *lastAbort = nullptr; Update *lastUpd = nullptr;
  std::vector<int> assigned;         // nodes whose assignment was announced, in order

  World() { throwOnErrors(); ex = makePlexilExec(); g_exec = ex; ex->setDispatcher(this); ex->setExecListener(this); g_dispatcher = this; }

  int add(int type, int parent, int mask) {
    Nd &x = nd[n];
    x = Nd();
    x.type = type; x.parent = parent;
    static char const *const names[MAXN] = {"n0", "n1", "n2", "n3", "n4", "n5"};
    x.n = NodeFactory::createNode(names[n], (PlexilNodeType)type, parent < 0 ? nullptr : nd[parent].n);
    if (parent >= 0) {
      ListNode *l = dynamic_cast<ListNode *>(nd[parent].n);
      l->addChild(x.n);
    }
    for (int k = 0; k < NC; ++k)
      x.c[k] = (mask >> k & 1) ? new Cond : nullptr;
    x.st = INACTIVE_STATE; x.out = NO_OUTCOME; x.fail = NO_FAILURE;
    return n++;
  }
  std::vector<Mutex *> mutexes;      // bit k of res is mutexes[k], bits from 16 on are variables
  void uses(int i, unsigned res, Integer prio) { nd[i].res = res; nd[i].prio = prio; }
  // bodies and conditions, parents before children (as the plan parser does)
  void finish() {
    for (int i = 0; i < n; ++i) {
      Nd &x = nd[i];
      if (x.type == ASSIGN) {
        if (!x.as) {
          x.as = new Assignment();
          if (x.dest) { x.as->setVariable(x.dest, false); x.as->setExpression(x.rhs, false); }
          else { x.var = x.var ? x.var : new BooleanVariable("v"); x.as->setVariable(x.var, false); x.as->setExpression(new Constant<Boolean>(true), true); }
        }
        dynamic_cast<AssignmentNode *>(x.n)->setAssignment(x.as);
      }
      if (x.type == CMD) {
        if (!x.cmd) { x.cmd = new CommandImpl("cmd"); x.cmd->setNameExpr(new Constant<String>("go"), true); }
        dynamic_cast<CommandNode *>(x.n)->setCommand(x.cmd);
      }
      if (x.type == UPD) {
        x.upd = new UpdateImpl(x.n);
        dynamic_cast<UpdateNode *>(x.n)->setUpdate(x.upd);
      }
      if (x.res) x.n->setPriority(x.prio);
      if (x.res & 0xffff) {
        x.n->allocateUsingMutexes(mutexes.size());
        for (size_t k = 0; k < mutexes.size(); ++k) if (x.res >> k & 1) x.n->addUsingMutex(mutexes[k]);
      }
      // neutral values: the node waits to be started
      static T3 const dflt[NC] = {F3, F3, TR3, F3, TR3, F3, TR3, U3};
      for (int k = 0; k < NC; ++k)
        if (x.c[k]) { x.c[k]->x = dflt[k]; x.n->addUserCondition(CN[k], x.c[k], false); }
        else if (x.ex[k]) x.n->addUserCondition(CN[k], x.ex[k], false);
      x.n->finalizeConditions();
    }
    ex->addPlan(nd[0].n);
  }
  // ---- the node state rules ----
  bool has(int i, int k) const { return nd[i].c[k] || nd[i].ex[k]; }
  T3 own(int i, int k, T3 d) const { return nd[i].c[k] ? nd[i].c[k]->x : nd[i].ex[k] ? nd[i].fn[k]() : d; }
  int ancT(int i, int k) const { int r = 0; for (int p = nd[i].parent; p >= 0; p = nd[p].parent) r |= isT(own(p, k, U3)); return r; }
  int ancF(int i, int k) const { int r = 0; for (int p = nd[i].parent; p >= 0; p = nd[p].parent) r |= isF(own(p, k, U3)); return r; }
  int kids(int i, bool waitingToo) const {
    int r = 1;
    for (int j = 0; j < n; ++j)
      if (nd[j].parent == i) r &= nd[j].st == FINISHED_STATE || (waitingToo && nd[j].st == WAITING_STATE);
    return r;
  }
  virtual void beforeDecide() {}
  Dec decide(int i) const {
    Nd const &x = nd[i];
    Dec d;
    int const ax = ancT(i, EXIT), ai = ancF(i, INV), ae = ancT(i, END);
    int const exitT = isT(own(i, EXIT, F3)), invF = isF(own(i, INV, TR3));
    int endT = isT(own(i, END, TR3));
    int const postOk = isT(own(i, POST, TR3));
    int const ps = x.parent >= 0 ? nd[x.parent].st : -1;
    bool const list = x.type == LISTN || x.type == LIB;
    switch (x.st) {
    case INACTIVE_STATE:
      if (ps == -1) d.when(1, WAITING_STATE);
      if (ps == FINISHED_STATE) d.when(1, FINISHED_STATE, SKIPPED_OUTCOME);
      if (ps == EXECUTING_STATE) { d.when(ax | ai | ae, FINISHED_STATE, SKIPPED_OUTCOME); d.when(1, WAITING_STATE); }
      break;
    case WAITING_STATE:
      d.when(ax | exitT | ai | ae | isT(own(i, SKIP, F3)), FINISHED_STATE, SKIPPED_OUTCOME);
      d.stay(!isT(own(i, START, TR3)));
      d.when(!isT(own(i, PRE, TR3)), ITERATION_ENDED_STATE, FAILURE_OUTCOME, PRE_CONDITION_FAILED);
      d.when(1, EXECUTING_STATE);
      break;
    case EXECUTING_STATE: {
      if (x.type == ASSIGN) d.stay(!x.ack);
      int const ex = x.type == EMPT ? (int)ITERATION_ENDED_STATE : (int)FAILING_STATE;
      int const exP = x.type == EMPT ? (int)FINISHED_STATE : (int)FAILING_STATE;
      d.when(ax, exP, INTERRUPTED_OUTCOME, PARENT_EXITED);
      d.when(exitT, ex, INTERRUPTED_OUTCOME, EXITED);
      d.when(ai, exP, FAILURE_OUTCOME, PARENT_FAILED);
      d.when(invF, ex, FAILURE_OUTCOME, INVARIANT_CONDITION_FAILED);
      if (list && !has(i, END)) endT = kids(i, false);
      if (x.type == CMD && has(i, END)) endT |= x.handle == COMMAND_DENIED || x.handle == COMMAND_FAILED || x.handle == COMMAND_INTERFACE_ERROR;
      if (x.type == UPD) endT &= x.ack;
      d.stay(!endT);
      if (list || x.type == CMD) d.when(1, FINISHING_STATE);
      d.when(!postOk, ITERATION_ENDED_STATE, FAILURE_OUTCOME, POST_CONDITION_FAILED);
      d.when(1, ITERATION_ENDED_STATE, SUCCESS_OUTCOME);
      break;
    }
    case FINISHING_STATE: {
      d.when(ax, FAILING_STATE, INTERRUPTED_OUTCOME, PARENT_EXITED);
      d.when(exitT, FAILING_STATE, INTERRUPTED_OUTCOME, EXITED);
      d.when(ai, FAILING_STATE, FAILURE_OUTCOME, PARENT_FAILED);
      d.when(invF, FAILING_STATE, FAILURE_OUTCOME, INVARIANT_CONDITION_FAILED);
      d.stay(!(list ? kids(i, true) : x.handle != NO_COMMAND_HANDLE));
      d.when(!postOk, ITERATION_ENDED_STATE, FAILURE_OUTCOME, POST_CONDITION_FAILED);
      d.when(1, ITERATION_ENDED_STATE, SUCCESS_OUTCOME);
      break;
    }
    case FAILING_STATE:
      d.stay(!(list ? kids(i, true) : x.type == UPD ? x.ack : x.abt));
      d.when(x.fail == PARENT_EXITED || x.fail == PARENT_FAILED, FINISHED_STATE);
      d.when(1, ITERATION_ENDED_STATE);
      break;
    case ITERATION_ENDED_STATE:
      d.when(ax, FINISHED_STATE, INTERRUPTED_OUTCOME, PARENT_EXITED);
      d.when(ai, FINISHED_STATE, FAILURE_OUTCOME, PARENT_FAILED);
      d.when(ae, FINISHED_STATE);
      if (has(i, REPEAT)) {
        T3 const rep = own(i, REPEAT, U3);
        d.stay(!rep.k);
        d.when(rep.v, WAITING_STATE, NO_OUTCOME, NO_FAILURE);
      }
      d.when(1, FINISHED_STATE);
      break;
    case FINISHED_STATE:
      if (ps == WAITING_STATE) d.when(1, INACTIVE_STATE, NO_OUTCOME, NO_FAILURE);
      break;
    }
    return d;
  }
  // A list node has left its running states while a child has not come to rest: the child's ancestor conditions are
  // gone.  Reachable in this code (see P14's known finding); the state rules say nothing about such children.
  bool orphan() const {
    for (int i = 0; i < n; ++i) {
      int p = nd[i].parent;
      if (p < 0) continue;
      bool running = nd[p].st == EXECUTING_STATE || nd[p].st == FINISHING_STATE || nd[p].st == FAILING_STATE;
      if (!running && nd[i].st != FINISHED_STATE && nd[i].st != INACTIVE_STATE) return true;
    }
    return false;
  }
  // ---- the rules for resources ----
  bool holds(int i) const { return nd[i].res && (nd[i].st == EXECUTING_STATE || nd[i].st == FINISHING_STATE || nd[i].st == FAILING_STATE); }
  int wants(int i, Dec const &d) const { return nd[i].res != 0 & nd[i].st == WAITING_STATE & d.st == EXECUTING_STATE; }
  int blocked(int i) const { int r = 0; for (int j = 0; j < n; ++j) r |= j != i && holds(j) && (nd[j].res & nd[i].res); return r; }
  int clock = 0;
  // one look at the nodes waiting for resources; seen[i] tells which start now
  void resources(Dec const *d, int const *seen) {
    ++clock;
    for (int i = 0; i < n; ++i) {
      Nd &x = nd[i];
      if (!x.res) continue;
      int w = wants(i, d[i]);
      x.since = sel(w & x.pend, x.since, clock); x.pend = w;
    }
    for (int i = 0; i < n; ++i) {
      Nd &x = nd[i];
      if (!x.res || x.st != WAITING_STATE) continue;
      bool starts = seen && seen[i] == EXECUTING_STATE;
      int better = 0;
      for (int j = 0; j < n; ++j) {
        if (j == i || !(nd[j].res & x.res)) continue;
        if (starts) {
          CHECK(!holds(j), "a node does not start while another holds a resource it needs");
          CHECK(!(seen[j] == EXECUTING_STATE), "two nodes which need the same resource do not start together");
        } else if (seen && seen[j] == EXECUTING_STATE && nd[j].st == WAITING_STATE)
          better |= (nd[j].prio < x.prio) | ((nd[j].prio == x.prio) & (nd[j].since <= x.since));
      }
      if (!starts) CHECK(!x.pend | blocked(i) | better, "an eligible node waits only for a holder, or gives way to a better or equal and not later one");
      else x.pend = 0;
    }
  }
  // ---- callbacks ----
  int index(Node const *p) const { for (int i = 0; i < n; ++i) if (nd[i].n == p) return i; return -1; }
  virtual void afterMicro() { sym_assume(!orphan()); }
  void notifyOfTransitions(std::vector<NodeTransition> const &tr) override {
    ++micro;
    sym_assume(micro <= microCap);
    int seen[MAXN]; for (int i = 0; i < n; ++i) seen[i] = -1;
    for (auto const &t : tr) {
      int i = index(t.node);
      CHECK(i >= 0, "transitions are of the plan's nodes");
      if (i < 0) return;
      CHECK(seen[i] < 0, "a node changes state at most once in a micro step");
      CHECK((int)t.oldState == nd[i].st && (int)t.newState == (int)nd[i].n->getState(), "transitions are announced as they happened");
      seen[i] = t.newState;
    }
    Dec d[MAXN];
    if (check) for (int i = 0; i < n; ++i) d[i] = decide(i);
    if (check) resources(d, seen);
    for (int i = 0; i < n; ++i) {
      Nd &x = nd[i];
      if (check) {
        if (x.res && x.st == WAITING_STATE && seen[i] < 0) CHECK(d[i].st < 0 | d[i].st == EXECUTING_STATE, "a node waiting for a resource still follows its other conditions");
        else CHECK(d[i].st == seen[i], "exactly the nodes whose conditions call for it change state, to the state they call for");
        CHECK((int)x.n->getState() == (seen[i] < 0 ? x.st : seen[i]), "no state changes unannounced");
      }
      if (seen[i] >= 0) {
        if (check) {
          CHECK((int)x.n->getOutcome() == sel(d[i].out < 0, x.out, d[i].out), "the outcome is the one the rules give");
          CHECK((int)x.n->getFailureType() == sel(d[i].fail < 0, x.fail, d[i].fail), "the failure type is the one the rules give");
        }
        x.st = seen[i];
        if (x.st == EXECUTING_STATE) { x.ack = x.abt = false; x.handle = NO_COMMAND_HANDLE; }
      }
      x.out = x.n->getOutcome(); x.fail = x.n->getFailureType();
    }
    afterMicro();
  }
  virtual void atRest() {}
  virtual void onAssign(Expression const *, Value const &) {}
  void notifyOfAssignment(Expression const *d, std::string const &, Value const &v) override { onAssign(d, v); }
  virtual void afterStep() {}
  void stepComplete(unsigned int) override {
    afterStep();
    for (int i = 0; i < n; ++i)
      if (nd[i].type == ASSIGN) {
        if (nd[i].st == EXECUTING_STATE) nd[i].ack = true;
        if (nd[i].st == FAILING_STATE) nd[i].abt = true;
      }
  }
  void lookupNow(State const &, LookupReceiver *) override {}
  void setThresholds(State const &, Real, Real) override {}
  void setThresholds(State const &, Integer, Integer) override {}
  void clearThresholds(State const &) override {}
  void executeCommand(Command *c) override { ++cmdCalls; lastCmd = c; }
  void reportCommandArbitrationFailure(Command *c) override { ++denied; commandHandleReturn(c, COMMAND_DENIED); }
  void invokeAbort(Command *c) override { ++abortCalls; lastAbort = dynamic_cast<CommandImpl *>(c); }
  void executeUpdate(Update *u) override { ++updCalls; lastUpd = u; }
  // ---- driving ----
  void run() {
    micro = 0;
    // as the application does: step once, then while there is something to do
    int k = 0;
    do { sym_assume(k++ < 8); ex->step(1.0 * ++steps); } while (ex->needsStep());
    if (check) {
      int idle = 1;
      Dec d[MAXN];
      for (int i = 0; i < n; ++i) { d[i] = decide(i); idle &= d[i].st < 0 | (wants(i, d[i]) & blocked(i)); }
      resources(d, nullptr);
      CHECK(idle, "the executive rests only when no node's conditions call for a change");
    }
    atRest();
  }
  void set(int i, int k, T3 v) { if (nd[i].c[k]) nd[i].c[k]->set(v); }
};
#endif

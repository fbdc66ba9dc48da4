/*META
dict(
  srcs=['exec/*.cc', 'intfc/*.cc', 'expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  bounds={'quick': 'trees of three nodes: a List node holding a List or LibraryNodeCall node holding a leaf (Empty, Command, Assignment, Update), and a List node with two children (Empty and Command, Assignment and Update, Command and List); the outer nodes with all conditions but skip and pre, '
          'with or without an end condition; from each depth of started nodes every assignment of true, false, unknown to all conditions, then one further event (any condition of any node takes any value; the outside world answers); at most 12 micro steps per run to quiescence',
          'thorough': 'as quick with two further events'},
  assumptions=['an abort is acknowledged only after it was requested', 'histories in which a List node completes while a child is not at rest are cut there (listed known finding, checked by the KF_ target)'],
)
META*/
#include "exec.hh"
#ifdef TIER_THOROUGH
enum { EVENTS = 2 };
#else
enum { EVENTS = 1 };
#endif
static T3 any() { T3 v; v.k = sym_bool("known"); v.v = sym_bool("value"); return v; }
// What holds between states, outcomes and parents, whatever the rules that led there
struct TreeWorld : World {
  void afterMicro() override {
    for (int i = 0; i < n; ++i) {
      Nd const &x = nd[i];
      int s = x.st, o = x.out, f = x.fail;
      if (s == INACTIVE_STATE || s == WAITING_STATE || s == EXECUTING_STATE || s == FINISHING_STATE)
        CHECK((o == NO_OUTCOME) & (f == NO_FAILURE), "a node that has not ended its iteration has no outcome");
      else
        CHECK(((o == SUCCESS_OUTCOME || o == SKIPPED_OUTCOME) && f == NO_FAILURE)
              || (o == FAILURE_OUTCOME && (f == PRE_CONDITION_FAILED || f == POST_CONDITION_FAILED || f == INVARIANT_CONDITION_FAILED || f == PARENT_FAILED))
              || (o == INTERRUPTED_OUTCOME && (f == PARENT_EXITED || f == EXITED)), "a node that has ended has an outcome and the matching failure type");
      if (x.parent >= 0) {
        int p = nd[x.parent].st;
        if (p == INACTIVE_STATE) CHECK(s == INACTIVE_STATE || s == FINISHED_STATE, "children of an inactive node do not run");
      }
    }
    World::afterMicro();
  }
};
// Bring the tree up level by level: levels 0 .. depth-1 are started
static void start(World &w, int depth, int const *path) {
  w.run();
  for (int d = 0; d < depth; ++d) { w.set(path[d], START, TR3); w.run(); }
}
static void answer(TreeWorld &w, int i) {
  Nd &l = w.nd[i];
  if (l.type == UPD) { if (l.st == EXECUTING_STATE || l.st == FAILING_STATE) l.ack = true; l.upd->acknowledge(true); }
  if (l.type == CMD) {
    if (l.st == FAILING_STATE) { l.abt = true; l.cmd->acknowledgeAbort(true); }
    else { l.handle = COMMAND_SUCCESS; l.cmd->setCommandHandle(COMMAND_SUCCESS); }
  }
  w.run();
}
static void event(TreeWorld &w) {
  int c = sym_choose("event", 8 * w.n + w.n);
  int who = c % w.n, k = c / w.n;
  if (k == 8) { answer(w, who); return; }
  if (!w.nd[who].c[k]) return;
  w.set(who, k, any());
  w.run();
}
static void mix(TreeWorld &w) {
  for (int i = 0; i < w.n; ++i)
    for (int k = 0; k < NC; ++k)
      if (w.nd[i].c[k]) w.nd[i].c[k]->set(any());
  w.run();
}
enum { START_END = 1 << START | 1 << END, SER = START_END | 1 << REPEAT, LEAF = SER | 1 << EXIT };
static void chain(int inner, int type) {
  TreeWorld w;
  w.microCap = 12;
  int im = sym_choose("inner end condition", 2) ? 255 : 255 & ~(1 << END);
  w.add(LISTN, -1, 255 & ~(1 << SKIP) & ~(1 << PRE));
  w.add(inner, 0, im & ~(1 << SKIP) & ~(1 << PRE));
  w.add(type, 1, LEAF);
  w.finish();
  static int const path[] = {0, 1, 2};
  start(w, sym_choose("depth", 4), path);
  mix(w);
  for (int i = 0; i < EVENTS; ++i) event(w);
}
static void siblings(int t1, int t2) {
  TreeWorld w;
  w.microCap = 12;
  w.add(LISTN, -1, (sym_choose("end condition", 2) ? 255 : 255 & ~(1 << END)) & ~(1 << SKIP) & ~(1 << PRE));
  w.add(t1, 0, LEAF);
  w.add(t2, 0, SER);
  w.finish();
  static int const path[] = {0, 1, 2};
  start(w, sym_choose("depth", 4), path);
  mix(w);
  for (int i = 0; i < EVENTS; ++i) event(w);
}
SYM_TARGET(ChainEmpty, "") { chain(LISTN, EMPT); }
SYM_TARGET(ChainCommand, "") { chain(LISTN, CMD); }
SYM_TARGET(ChainLibrary, "") { chain(LIB, ASSIGN); }
SYM_TARGET(ChainUpdate, "") { chain(LISTN, UPD); }
SYM_TARGET(SiblingsEmptyCommand, "") { siblings(EMPT, CMD); }
SYM_TARGET(SiblingsAssignUpdate, "") { siblings(ASSIGN, UPD); }
SYM_TARGET(SiblingsCommandList, "") { siblings(CMD, LISTN); }

// Known finding: a List node FINISHING (or FAILING) counts WAITING children as done.  If its end condition does not stay
// true, a child that repeats goes back to WAITING, the List node completes, and the child starts later on its own.
struct OrphanWorld : World {
  OrphanWorld() { check = false; }
  void afterMicro() override {
    CHECK(!orphan(), "no node is left waiting or running when its parent has finished");
  }
};
SYM_TARGET(KF_WaitingChildOutlivesList, "") {
  OrphanWorld w;
  w.add(LISTN, -1, START_END); w.add(LISTN, 0, START_END); w.add(EMPT, 1, SER);
  w.finish();
  static int const path[] = {0, 1, 2};
  start(w, 3, path);
  w.set(1, END, TR3); w.run();            // the List node is finishing
  w.set(1, END, F3); w.set(2, START, F3); w.set(2, REPEAT, TR3); w.run();
  w.set(2, END, TR3); w.run();            // the child's iteration ends, it repeats and waits; the List node completes
  w.set(2, END, F3);
  w.set(2, START, any()); w.run();
}

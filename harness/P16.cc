/*META
dict(
  srcs=['exec/*.cc', 'intfc/*.cc', 'expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  bounds={'quick': 'a List node with two or three children (Empty, Command, Update, Assignment, List with an own child) which share one or two mutexes or one assigned variable, with every priority (32-bit); started at once or later in any combination, then every 2 events: one condition of one node takes any value, or the outside world answers; '
          'at most 14 micro steps per run to quiescence', 'thorough': 'as quick with 3 events'},
  assumptions=['an abort is acknowledged only after it was requested', 'no node uses a mutex which one of its ancestors uses (the executive reports that as a plan error)'],
)
META*/
#include "exec.hh"
#ifdef TIER_THOROUGH
enum { EVENTS = 3 };
#else
enum { EVENTS = 2 };
#endif
static T3 any() { T3 v; v.k = sym_bool("known"); v.v = sym_bool("value"); return v; }
static T3 anyKnown() { T3 v; v.k = true; v.v = sym_bool("value"); return v; }
enum { M0 = 1, M1 = 2, V0 = 1 << 16 };
enum { SE = 1 << START | 1 << END, SER = SE | 1 << REPEAT, SXE = SE | 1 << EXIT, ROOT = SE | 1 << EXIT | 1 << INV };
struct ResWorld : World {
  ResWorld() { mutexes = {new Mutex("m0"), new Mutex("m1")}; microCap = 14; }
  void afterMicro() override {
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < i; ++j)
        CHECK(!(holds(i) && holds(j) && (nd[i].res & nd[j].res)), "no two nodes are in possession of the same mutex or variable");
    for (size_t k = 0; k < mutexes.size(); ++k) {
      int h = -1;
      for (int i = 0; i < n; ++i) if (holds(i) && (nd[i].res >> k & 1)) h = i;
      CHECK(mutexes[k]->getHolder() == (h < 0 ? nullptr : (NodeConnector const *)nd[h].n), "a mutex is held exactly by the node which is executing with it");
    }
    World::afterMicro();
  }
};
static void answer(World &w, int i) {
  Nd &l = w.nd[i];
  if (l.type == UPD) { if (l.st == EXECUTING_STATE || l.st == FAILING_STATE) l.ack = true; l.upd->acknowledge(true); }
  if (l.type == CMD) {
    if (l.st == FAILING_STATE) { l.abt = true; l.cmd->acknowledgeAbort(true); }
    else { l.handle = COMMAND_SUCCESS; l.cmd->setCommandHandle(COMMAND_SUCCESS); }
  }
  w.run();
}
static void event(World &w) {
  int c = sym_choose("event", 9 * w.n);
  int who = c % w.n, k = c / w.n;
  if (k == 8) { if (w.nd[who].type == UPD || w.nd[who].type == CMD) answer(w, who); return; }
  if (!w.nd[who].c[k]) return;
  w.set(who, k, any());
  w.run();
}
static void go(World &w) {
  w.finish();
  w.run();
  w.set(0, START, TR3); w.run();
  // some are asked to start at once, the others at any later time
  for (int i = 1; i < w.n; ++i) w.set(i, START, anyKnown());
  w.run();
  for (int i = 0; i < EVENTS; ++i) event(w);
}
SYM_TARGET(TwoEmpty, "") {
  ResWorld w; w.add(LISTN, -1, ROOT);
  w.add(EMPT, 0, 255 & ~(1 << PRE) & ~(1 << POST)); w.uses(1, M0, sym_int("prio"));
  w.add(EMPT, 0, SER); w.uses(2, M0, sym_int("prio"));
  go(w);
}
SYM_TARGET(ThreeOverlapping, "") {
  ResWorld w; w.add(LISTN, -1, ROOT);
  w.add(EMPT, 0, SE | 1 << SKIP); w.uses(1, M0, sym_int("prio"));
  w.add(EMPT, 0, SE | 1 << EXIT); w.uses(2, M0 | M1, sym_int("prio"));
  w.add(EMPT, 0, SER); w.uses(3, M1, sym_int("prio"));
  go(w);
}
SYM_TARGET(CommandUpdate, "") {
  ResWorld w; w.add(LISTN, -1, ROOT);
  w.add(CMD, 0, SXE); w.uses(1, M0, sym_int("prio"));
  w.add(UPD, 0, SXE); w.uses(2, M0, sym_int("prio"));
  go(w);
}
SYM_TARGET(ListEmpty, "") {
  ResWorld w; w.add(LISTN, -1, ROOT);
  w.add(LISTN, 0, SXE); w.uses(1, M0, sym_int("prio"));
  w.add(EMPT, 0, SE | 1 << SKIP); w.uses(2, M0 | M1, sym_int("prio"));
  w.add(EMPT, 1, SE); w.uses(3, M1, sym_int("prio"));
  go(w);
}
SYM_TARGET(AssignSameVariable, "") {
  ResWorld w; w.add(LISTN, -1, ROOT);
  IntegerVariable v("v"); v.activate();
  Expression *rhs = new Constant<Integer>(5);
  w.add(ASSIGN, 0, SXE); w.uses(1, V0, sym_int("prio"));
  w.add(ASSIGN, 0, SE | 1 << SKIP); w.uses(2, V0, sym_int("prio"));
  w.add(ASSIGN, 0, SER); w.uses(3, V0 | M0, sym_int("prio"));
  for (int i = 1; i < 4; ++i) { w.nd[i].dest = &v; w.nd[i].rhs = rhs; }
  go(w);
}

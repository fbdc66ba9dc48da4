/*META
dict(
  srcs=['exec/*.cc', 'intfc/*.cc', 'expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  bounds={'quick': 'a List node with all eight conditions and one child of each of the types Empty, Assignment, Command, Update and List (without children), the child with all conditions, none, start and repeat only, or all but one; '
          'from each node state the child can be brought to (INACTIVE, WAITING, EXECUTING, FINISHING, FAILING after its own or its parent\'s exit, ITERATION_ENDED, FINISHED), every assignment of true, false, unknown to all conditions of both nodes; after that came to rest, '
          'every one further event (any condition takes any value; the command handle takes any value; command abort or update is acknowledged); at most 10 micro steps per run to quiescence (longer cycles of repeating nodes are cut)',
          'thorough': 'as quick with two further events'},
  assumptions=['an abort is acknowledged only after it was requested', 'histories in which a List node completes while a child is not at rest are left to P14'],
)
META*/
#include "exec.hh"
#include "NodeConstants.hh"
#ifdef TIER_THOROUGH
enum { EVENTS = 2 };
#else
enum { EVENTS = 1 };
#endif
// Which of the eight conditions the node has
enum { NM = 11 };
static int mask(int m) { return m == 0 ? 255 : m == 1 ? (1 << START) | (1 << REPEAT) : m == 2 ? 0 : 255 & ~(1 << (m - 3)); }
static T3 any() { T3 v; v.k = sym_bool("known"); v.v = sym_bool("value"); return v; }
static void settle(World &w, int leaf, int phase) {
  Nd &l = w.nd[leaf];
  if (phase == 0) { w.run(); return; }
  w.set(0, START, TR3); w.run();
  if (phase == 1) return;
  w.set(leaf, START, TR3); w.run();
  if (phase == 2) return;
  if (phase == 3) {  // on its way out through an exit
    w.set(leaf, EXIT, TR3); w.run();
    w.set(leaf, EXIT, F3); w.run();
    return;
  }
  if (phase == 4) {  // on its way out through the parent's exit
    w.set(0, EXIT, TR3); w.run();
    w.set(0, EXIT, F3); w.run();
    return;
  }
  if (l.type == UPD) { l.ack = true; l.upd->acknowledge(true); }
  w.set(leaf, END, TR3); w.run();
  if (phase == 5) return;
  if (l.type == CMD) { l.handle = COMMAND_SUCCESS; l.cmd->setCommandHandle(COMMAND_SUCCESS); w.run(); }
  if (phase == 6) return;
  w.set(leaf, REPEAT, F3); w.run();
}
static void event(World &w, int leaf) {
  // one thing happens: a condition changes, or the outside world answers
  Nd &l = w.nd[leaf];
  int extra = l.type == CMD ? 2 : l.type == UPD ? 1 : 0;
  int c = sym_choose("event", 16 + extra);
  if (c < 16) {
    int who = c < 8 ? 0 : leaf, k = c & 7;
    if (!w.nd[who].c[k]) return;
    w.set(who, k, any());
  } else if (l.type == UPD) { if (l.st == EXECUTING_STATE || l.st == FAILING_STATE) l.ack = true; l.upd->acknowledge(true); }
  else if (c == 16) {
    static int const h[] = {COMMAND_ACCEPTED, COMMAND_DENIED, COMMAND_FAILED, COMMAND_SUCCESS, COMMAND_RCVD_BY_SYSTEM, COMMAND_SENT_TO_SYSTEM, COMMAND_INTERFACE_ERROR};
    int v = h[sym_choose("handle", 7)];
    l.handle = v; l.cmd->setCommandHandle((CommandHandleValue)v);
  } else {  // an abort is acknowledged only when one is under way, or too late
    if (l.st == EXECUTING_STATE || l.st == FINISHING_STATE) return;
    if (l.st == FAILING_STATE) l.abt = true;
    l.cmd->acknowledgeAbort(true);
  }
  w.run();
}
static void go(int type) {
  World w;
  int phases = type == CMD ? 8 : 8;
  int m = sym_choose("conditions", NM);
  int phase = sym_choose("phase", phases);
  w.add(LISTN, -1, 255);
  int leaf = w.add(type, 0, mask(m));
  w.finish();
  settle(w, leaf, phase);
  sym_reach((std::string("st") + nodeStateName((NodeState)w.nd[leaf].st)+std::to_string(phase)).c_str());
  for (int i = 0; i <= leaf; ++i)
    for (int k = 0; k < NC; ++k)
      if (w.nd[i].c[k]) w.nd[i].c[k]->set(any());
  w.run();
  for (int i = 0; i < EVENTS; ++i) event(w, leaf);
}
SYM_TARGET(Empty, "") { go(EMPT); }
SYM_TARGET(Assign, "") { go(ASSIGN); }
SYM_TARGET(Command, "") { go(CMD); }
SYM_TARGET(Update, "") { go(UPD); }
SYM_TARGET(List, "") { go(LISTN); }

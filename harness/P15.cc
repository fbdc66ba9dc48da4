/*META
dict(
  srcs=['exec/*.cc', 'intfc/*.cc', 'expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  bounds={'quick': 'a List node with one Assignment node (all conditions of interest), two which assign the same variable, two which swap two variables, or two which assign elements of one array; all initial and assigned Integer values, known or unknown, all priorities; started in any combination, then every 2 events: one condition of one node, '
          'or the value to be assigned, takes any value; at most 14 micro steps per run to quiescence', 'thorough': 'as quick with 3 events'},
  assumptions=['values are Integers; the other variable types are checked in P10 and P11'],
)
META*/
#include "exec.hh"
#ifdef TIER_THOROUGH
enum { EVENTS = 3 };
#else
enum { EVENTS = 2 };
#endif
static T3 any() { T3 v; v.k = sym_bool("known"); v.v = sym_bool("value"); return v; }
static T3 anyKnown() { T3 v; v.k = true; v.v = sym_bool("value"); return v; }
enum { V0 = 1 << 16 };
enum { SE = 1 << START | 1 << END, SER = SE | 1 << REPEAT, SXE = SE | 1 << EXIT, ROOT = SE | 1 << EXIT | 1 << INV };
struct I3 { bool k; Integer v; };
static I3 anyInt() { I3 x; x.k = sym_bool("known"); x.v = sym_int("value"); return x; }
// An Integer expression the harness sets; it may be the value assigned
struct Rhs : GetValueImpl<Integer>, Notifier {
  I3 x{false, 0};
  bool isPropagationSource() const override { return true; }
  char const *getName() const override { return "rhs"; }
  char const *exprName() const override { return "Rhs"; }
  bool isKnown() const override { return isActive() && x.k; }
  bool getValue(Integer &r) const override { if (!isActive()) return false; r = x.v; return x.k; }
  void printSpecialized(std::ostream &) const override {}
};
// Assignment nodes and two variables (or two elements of one array): what these show after every step
struct AsWorld : World {
  IntegerVariable v[2] = {IntegerVariable("v0"), IntegerVariable("v1")};
  IntegerArrayVariable arr{"a"};
  bool elements = false;              // assign array elements
  I3 cur[2], saved[MAXN], rhs[MAXN];
  int dst[MAXN], from[MAXN];          // variable assigned; variable read, or -1 if a value the harness sets
  Rhs src[MAXN], idx[MAXN];
  int indexer = -1, index = 0;        // the node, if any, which makes the index of the element assigned 1
  int due[MAXN];                      // 1 execute, 2 retract, in this step
  int last[MAXN];
  int announced = 0, expected = 0;
  std::vector<std::pair<Expression const *, Value>> seen;
  AsWorld() {
    microCap = 14;
    for (int i = 0; i < MAXN; ++i) { due[i] = 0; last[i] = INACTIVE_STATE; }
    cur[0] = cur[1] = I3{false, 0};
    v[0].activate(); v[1].activate();
  }
  int assign(int mask, Integer prio, int d, int f = -1) {
    int i = add(ASSIGN, 0, mask);
    uses(i, V0 << (elements ? 0 : d), prio);
    dst[i] = d; from[i] = f; nd[i].rhs = f < 0 ? (Expression *)&src[i] : (Expression *)&v[f];
    if (elements) { idx[i].x = I3{true, d}; nd[i].dest = new MutableArrayReference(&arr, &idx[i]); }
    else nd[i].dest = &v[d];
    return i;
  }
  void afterMicro() override {
    for (int i = 0; i < n; ++i) {
      if (nd[i].type != ASSIGN || nd[i].st == last[i]) continue;
      if (nd[i].st == EXECUTING_STATE && i == indexer) { dst[i] = index; due[i] = 1; }
      else if (nd[i].st == EXECUTING_STATE) { if (indexer >= 0) dst[i] = index; saved[i] = cur[dst[i]]; rhs[i] = from[i] < 0 ? src[i].x : cur[from[i]]; due[i] = 1; }
      if (nd[i].st == FAILING_STATE) due[i] = 2;
      last[i] = nd[i].st;
    }
    World::afterMicro();
  }
  void onAssign(Expression const *d, Value const &w) override { ++announced; seen.push_back({d, w}); }
  void afterStep() override {
    int k[2] = {0, 0};
    for (int i = 0; i < n; ++i) if (due[i]) {
      if (i == indexer) { index = due[i] == 1 ? 1 : dst[i]; ++expected; due[i] = 0; continue; }
      cur[dst[i]] = due[i] == 1 ? rhs[i] : saved[i];
      ++expected; ++k[dst[i]];
      due[i] = 0;
    }
    CHECK(k[0] <= 1 && k[1] <= 1, "at most one assignment to a variable is carried out in a step");
    CHECK(announced == expected, "every assignment and retraction is announced once, and nothing else");
    for (int d = 0; d < 2; ++d) {
      Integer r = 0;
      bool kn = elements ? arr.isKnown() && arr.elementIsKnown(d) : v[d].getValue(r);
      if (elements && kn) { Array const *ap = nullptr; arr.getValuePointer(ap); kn = ap->getElement(d, r); }
      CHECK((kn == cur[d].k) & (!cur[d].k | (r == cur[d].v)), "the variable shows what the last assignment assigned, or what it was before when that was aborted");
    }
    for (auto const &p : seen) {
      Integer r = 0; bool kn = p.second.getValue(r);
      for (int i = 0; i < n; ++i)
        if (nd[i].type == ASSIGN && i != indexer && p.first == dynamic_cast<Expression const *>(nd[i].dest) && k[dst[i]] == 1) {
          CHECK((kn == cur[dst[i]].k) & (!kn | (r == cur[dst[i]].v)), "the value announced is the value the variable takes");
          break;
        }
    }
    seen.clear();
  }
};
static void event(AsWorld &w) {
  int c = sym_choose("event", 9 * w.n);
  int who = c % w.n, k = c / w.n;
  if (k == 8) { if (w.nd[who].type == ASSIGN && who != w.indexer) { w.src[who].x = anyInt(); w.src[who].publishChange(); w.run(); } return; }
  if (!w.nd[who].c[k]) return;
  w.set(who, k, any());
  w.run();
}
static void go(AsWorld &w) {
  for (int i = 0; i < MAXN; ++i) { w.src[i].x = anyInt(); w.src[i].activate(); }
  w.finish();
  for (int d = 0; d < 2; ++d) {
    w.cur[d] = anyInt();
    if (!w.elements) { if (w.cur[d].k) w.v[d].setValue(Value(w.cur[d].v)); else w.v[d].setUnknown(); }
  }
  if (w.elements) {
    IntegerArray init(2);
    for (int d = 0; d < 2; ++d) if (w.cur[d].k) init.setElement(d, w.cur[d].v);
    w.arr.activate(); w.arr.setValue(Value(init));
    for (int i = 1; i < w.n; ++i) w.idx[i].activate();
  }
  w.run();
  w.set(0, START, TR3); w.run();
  for (int i = 1; i < w.n; ++i) w.set(i, START, anyKnown());
  w.run();
  for (int i = 0; i < EVENTS; ++i) event(w);
}
SYM_TARGET(One, "") {
  AsWorld w; w.add(LISTN, -1, ROOT);
  w.assign(SER | 1 << EXIT | 1 << INV | 1 << POST, 0, 0);
  go(w);
}
SYM_TARGET(TwoSameVariable, "") {
  AsWorld w; w.add(LISTN, -1, ROOT);
  w.assign(SXE, sym_int("prio"), 0);
  w.assign(SER, sym_int("prio"), 0);
  go(w);
}
SYM_TARGET(Swap, "") {
  AsWorld w; w.add(LISTN, -1, ROOT);
  w.assign(SXE, 0, 0, 1);
  w.assign(SE, 0, 1, 0);
  go(w);
}
// The index of the element is itself assigned in the same step
SYM_TARGET(IndexChanges, "") {
  AsWorld w; w.add(LISTN, -1, ROOT);
  w.elements = true;
  int first = w.add(ASSIGN, 0, SE);
  IntegerVariable k("k"); Rhs one; one.x = I3{true, 1}; one.activate();
  w.uses(first, V0 << 2, 0); w.nd[first].rhs = &one; w.nd[first].dest = &k;
  w.indexer = first;
  w.assign(SXE | 1 << INV, 0, 0);
  w.nd[2].dest = new MutableArrayReference(&w.arr, &k);
  k.activate(); k.setValue(Value((Integer)0));
  go(w);
}
SYM_TARGET(Elements, "") {
  AsWorld w; w.add(LISTN, -1, ROOT);
  w.elements = true;
  w.assign(SXE, sym_int("prio"), 0);
  w.assign(SE, sym_int("prio"), sym_choose("second element", 2));
  go(w);
}

/*META
dict(
  fork=True,
  srcs=['intfc/*.cc', 'expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  bounds={'quick': 'one or two lookups (plain, or on change with a tolerance which is a variable) whose state name and Integer parameter are variables (two names, two parameter values, or unknown); Integer states (|value|, |tolerance| <= 10^9; one of two tolerances where two lookups share a state) and Real states (any value |v| <= 10^9 in the last event, one of two before); '
          'every sequence of 2 events: the interface reports any value or unknown for either state, the tolerance, the name or the parameter takes any value or becomes unknown, a lookup is left or entered, a new cycle begins; every value type through every update entry point for plain lookups',
          'thorough': 'as quick with 3 events (2 where several Real states or lookups are involved), three values and tolerances'},
  assumptions=['the interface answers lookupNow, and reports values of one type per state (or Integer values for a Real state)', 'the tolerance of a lookup has the type of its state',
               'value+tolerance does not overflow an Integer'],
)
META*/
#include "vars.hh"
#include "PlexilTypeTraits.hh"
#include "Lookup.hh"
#include "StateCache.hh"
#include "StateCacheEntry.hh"
#include "CachedValue.hh"
#include "LookupReceiver.hh"
#include "State.hh"
#include "ExprVec.hh"
#include "Dispatcher.hh"
#ifdef TIER_THOROUGH
enum { EVENTS = 3, NV = 3, NT = 3 };
#else
enum { EVENTS = 2, NV = 2, NT = 2 };
#endif
template <class T> struct Opt { bool k; T v; };
template <class T> static T num();
template <> Integer num<Integer>() { Integer i = sym_int("v"); sym_assume((i >= -1000000000) & (i <= 1000000000)); return i; }
// Reals: any value in the last event, one of three before it
static bool freeReal = false, allFree = false, fewTol = false;
template <> Real num<Real>() { static Real const vv[] = {10.5, 10.55, 0}; if (!freeReal) return vv[sym_choose("v0", NV)]; Real d = sym_double("v"); sym_assume((d >= -1e9) & (d <= 1e9)); return d; }
// Tolerances: any Integer; of the Reals three magnitudes
template <class T> static Opt<T> anyTol();
template <> Opt<Real> anyTol<Real>() { static Real const tt[] = {0.1, -50, 0}; Opt<Real> o; int c = sym_choose("tolerance", NT + 1); o.k = c < NT; o.v = c < NT ? tt[c] : 0; return o; }
template <class T> static Opt<T> any() { Opt<T> o; o.k = sym_bool("known"); o.v = num<T>(); return o; }
template <> Opt<Integer> anyTol<Integer>() { static Integer const tt[] = {3, -10, 0}; if (!fewTol) return any<Integer>(); Opt<Integer> o; int c = sym_choose("tolerance", NT + 1); o.k = c < NT; o.v = c < NT ? tt[c] : 0; return o; }
template <class T> struct VarOf; template <> struct VarOf<Integer> { typedef IntegerVariable type; }; template <> struct VarOf<Real> { typedef RealVariable type; };
template <class T> static bool eqv1(T a, T b) { return a == b; }

// The outside world: two states, what the interface would answer now, and the thresholds it was last told
template <class T> struct Iface : Dispatcher {
  Opt<T> now[2];
  Opt<T> cache[2];            // what was last delivered to the executive
  unsigned cycle[2] = {0, 0}; // in which cycle (0: never)
  bool has[2] = {false, false}; T hi[2], lo[2];
  int asked[2] = {0, 0};
  unsigned cyc = 1;
  State st[2];
  int idx(State const &s) {
    for (int i = 0; i < 2; ++i) if (s == st[i]) return i;
    CHECK(false, "the interface is asked about a state no lookup names");
    return 0;
  }
  void deliver(LookupReceiver *r, int i, Opt<T> v) {
    cache[i] = v; cycle[i] = cyc;
    if (v.k) r->update(v.v); else r->setUnknown();
  }
  void lookupNow(State const &s, LookupReceiver *r) override { int i = idx(s); ++asked[i]; deliver(r, i, now[i]); }
  void thr(State const &s, T h, T l) { int i = idx(s); has[i] = true; hi[i] = h; lo[i] = l; }
  template <class U> void thr(State const &, U, U) { CHECK(false, "thresholds of the wrong type"); }
  void setThresholds(State const &s, Real h, Real l) override { thr(s, h, l); }
  void setThresholds(State const &s, Integer h, Integer l) override { thr(s, h, l); }
  void clearThresholds(State const &s) override { has[idx(s)] = false; }
  void executeCommand(Command *) override {}
  void reportCommandArbitrationFailure(Command *) override {}
  void invokeAbort(Command *) override {}
  void executeUpdate(Update *) override {}
};

// One lookup and what it should show
template <class T> struct Look {
  StringVariable name{"name"}; IntegerVariable par{"par"};
  typename VarOf<T>::type tol{"tol"};
  bool change = false, withPar = false, active = false;
  int s = -1;             // state named, or -1
  Opt<T> t;               // tolerance
  Opt<T> shown{false, T()};
  std::unique_ptr<Expression> e;
  Counter c;
};
template <class T> struct Scene {
  Iface<T> w; bool byPar;
  Look<T> l[3]; int n = 0;
  unsigned base;
  int states;                 // how many the lookups may name
  Scene(bool byPar, int states = 2) : byPar(byPar), states(states) {
    throwOnErrors();
    g_dispatcher = &w;
    if (byPar) { w.st[0] = State("s", Value((Integer)1)); w.st[1] = State("s", Value((Integer)2)); }
    else { w.st[0] = State("a"); w.st[1] = State("b"); }
    for (int i = 0; i < 2; ++i) { w.now[i] = i < states ? any<T>() : Opt<T>{false, T()}; w.cache[i] = Opt<T>{false, T()}; }
  }
  ~Scene() {
    for (int i = 0; i < n; ++i) { if (l[i].active) l[i].e->deactivate(); l[i].e->removeListener(&l[i].c); }
    CHECK(!w.has[0] & !w.has[1], "no thresholds remain at the interface when no lookup does");
  }
  void nameIt(Look<T> &k, int s) {
    k.s = s;
    if (byPar) { if (s < 0) k.par.setUnknown(); else k.par.setValue(Value((Integer)(s + 1))); }
    else { if (s < 0) k.name.setUnknown(); else k.name.setValue(Value(String(s ? "b" : "a"))); }
  }
  void tolIt(Look<T> &k, Opt<T> t) { k.t = t; if (t.k) k.tol.setValue(Value(t.v)); else k.tol.setUnknown(); }
  void add(bool change, int s, Opt<T> t) {
    Look<T> &k = l[n++];
    k.change = change;
    k.name.activate(); k.par.activate(); k.tol.activate();
    ExprVec *ev = nullptr;
    if (byPar) { k.name.setValue(Value(String("s"))); ev = makeExprVec(1); ev->setArgument(0, &k.par, false); }
    nameIt(k, s); tolIt(k, t);
    ValueType vt = PlexilValueType<T>::value;
    k.e.reset(change ? makeLookupOnChange(&k.name, false, vt, &k.tol, false, ev) : makeLookup(&k.name, false, vt, ev));
    k.e->addListener(&k.c);
  }
  static T mag(T x) { return x < 0 ? -x : x; }
  // -1: within tolerance, 1: must be shown, 0: in the guard band either is fine
  int far(Look<T> &k, T v) {
    T t = mag(k.t.v);
    if ((v >= k.shown.v + t) | (v <= k.shown.v - t)) return 1;
    if (std::is_same<T, Real>::value) {
      Real eps = mag(v) * 2e-13;
      if (((Real)(k.shown.v + t) - (Real)v < eps) | ((Real)v - (Real)(k.shown.v - t) < eps)) return 0;
    }
    return -1;
  }
  void check(bool change[3], int was[3], Opt<T> before[3], char const *what) {
    bool need[2] = {false, false}, any[2] = {false, false}, allKnown[2] = {true, true}; T hi[2] = {T(), T()}, lo[2] = {T(), T()};
    for (int i = 0; i < n; ++i) {
      Look<T> &k = l[i];
      T v = T(); bool kn = k.e->getValue(v);
      CHECK(kn == k.e->isKnown(), "a lookup shows a value exactly when it is known");
      Value tv = k.e->toValue();
      T v2 = T(); bool kn2 = tv.isKnown() && tv.getValue(v2);
      CHECK((kn2 == kn) & (!kn | eqv1(v2, v)), "all readers show the same");
      if (!k.active || k.s < 0) { CHECK(!kn, "an inactive lookup, or one with an unknown state, is unknown"); k.shown.k = false; if (before) CHECK(!(before[i].k & k.active) | (k.c.n != was[i]), "listeners learn that a lookup became unknown"); continue; }
      Opt<T> cur = w.cache[k.s];
      CHECK(w.cycle[k.s] != 0, "a value was obtained");
      CHECK(kn == cur.k, "a lookup is known exactly when its state is");
      if (!k.change) CHECK(!kn | eqv1(v, cur.v), "a lookup shows the value last obtained for its state");
      else if (!k.t.k || !k.shown.k || change[i]) CHECK(!kn | eqv1(v, cur.v), "a change lookup shows the current value when it has no tolerance, or no value yet");
      else if (kn) {
        int f = far(k, cur.v);
        CHECK((f != 1) | eqv1(v, cur.v), "a change of at least the tolerance is shown");
        CHECK((f != -1) | eqv1(v, k.shown.v), "a change within the tolerance is not shown");
        CHECK(eqv1(v, cur.v) | eqv1(v, k.shown.v), "a value is shown that the state never had");
        if (f == -1 && before && !what) CHECK(k.c.n == was[i], "a change within the tolerance wakes nobody");
      }
      k.shown.k = kn; k.shown.v = v;
      if (before) CHECK(((before[i].k == kn) & (!kn | eqv1(before[i].v, v))) | (k.c.n != was[i]), "listeners learn of every change shown");
      if (k.change && k.t.k) {
        any[k.s] = true;
        T t = mag(k.t.v);
        if (kn) {
          T h = v + t, o = v - t;
          hi[k.s] = !need[k.s] || h < hi[k.s] ? h : hi[k.s]; lo[k.s] = !need[k.s] || o > lo[k.s] ? o : lo[k.s];
          need[k.s] = true;
        }
      }
    }
    for (int s = 0; s < 2; ++s) {
      if (need[s]) { CHECK(w.has[s], "the interface has thresholds for a state with a change lookup"); CHECK((w.hi[s] <= hi[s]) & (w.lo[s] >= lo[s]), "no lookup reacts to less than the interface was told to report"); }
      if (!any[s]) CHECK(!w.has[s], "no thresholds remain at the interface for a state without change lookups");
    }
  }
  void step(int op, bool last) {
    freeReal = last | allFree;
    bool change[3] = {false, false, false}; int was[3]; Opt<T> before[3];
    for (int i = 0; i < n; ++i) { was[i] = l[i].c.n; before[i] = l[i].shown; }
    char const *what = nullptr;
    int a0 = w.asked[0], a1 = w.asked[1];
    bool stale = false; int fresh = -1;
    if (op < 2) {                 // the interface reports a value
      w.now[op] = any<T>(); w.cache[op] = w.now[op]; w.cycle[op] = w.cyc;
      StateCache::instance().lookupReturn(w.st[op], w.now[op].k ? Value(w.now[op].v) : Value());
    } else if (op == 2) {
      StateCache::instance().incrementCycleCount(); ++w.cyc;
      for (int s = 0; s < states; ++s) w.now[s] = any<T>();
    } else {
      int i = (op - 3) / 4;
      Look<T> &k = l[i]; what = "x";
      switch ((op - 3) % 4) {
      case 0: {
        int s = sym_choose("state", 3) - 1;
        if (s >= 0 && s != k.s && k.active) { fresh = s; stale = w.cycle[s] != w.cyc; }
        if (s != k.s) change[i] = true;
        nameIt(k, s); break;
      }
      case 1: tolIt(k, anyTol<T>()); break;
      case 2:
        if (k.active) { k.active = false; k.e->deactivate(); k.shown.k = before[i].k = false; }
        else { enter(i, fresh, stale); change[i] = true; before[i].k = false; was[i] = -1; }
        break;
      default: break;
      }
    }
    if (fresh >= 0) CHECK(!stale | (w.asked[fresh] > (fresh ? a1 : a0)), "a lookup newly entered asks for the current value unless it was obtained in this cycle");
    check(change, was, before, what);
  }
  void enter(int i, int &fresh, bool &stale) {
    Look<T> &k = l[i];
    fresh = k.s; if (k.s >= 0) stale = w.cycle[k.s] != w.cyc;
    k.active = true; k.e->activate();
  }
  void start() {
    for (int i = 0; i < n; ++i) {
      int f = -1; bool st = false; enter(i, f, st);
      bool change[3] = {false, false, false}; change[i] = true;
      int was[3]; for (int j = 0; j < 3; ++j) was[j] = l[j].c.n;
      check(change, was, nullptr, "start");
    }
  }
};
static int pick(std::initializer_list<int> ops) { int i = sym_choose("event", (int)ops.size()); for (int o : ops) if (!i--) return o; return 0; }

template <class T> static void plain(bool byPar) {
  freeReal = allFree = true;
  Scene<T> w(byPar);
  w.add(false, sym_choose("state", 3) - 1, Opt<T>{false, T()});
  w.start();
  for (int e = 0; e < EVENTS + 1; ++e) w.step(pick({0, 1, 2, 3, 5}), e == EVENTS + 1 - 1);
  sym_reach("plain");
}
SYM_TARGET(plain_int, "plain") { plain<Integer>(false); }
SYM_TARGET(plain_parameter, "plain") { plain<Real>(true); }
template <class T> static void onChange() {
  Scene<T> w(false, 1);
  w.add(true, 0, anyTol<T>());
  w.start();
  for (int e = 0; e < EVENTS; ++e) w.step(pick({0, 2, 4, 5}), e == EVENTS - 1);
  sym_reach("change");
}
SYM_TARGET(change_int, "change") { onChange<Integer>(); }
SYM_TARGET(change_real, "change") { onChange<Real>(); }
template <class T> static void onChangeName(bool byPar) {
  int const N = std::is_same<T, Real>::value ? 2 : EVENTS;
  Scene<T> w(byPar);
  w.add(true, sym_choose("state", 3) - 1, anyTol<T>());
  w.start();
  for (int e = 0; e < N; ++e) w.step(pick({0, 1, 3, 4, 5}), e == N - 1);
  sym_reach("change");
}
SYM_TARGET(change_state_int, "change") { onChangeName<Integer>(false); }
SYM_TARGET(change_state_real, "change") { onChangeName<Real>(true); }
template <class T> static void two() {
  int const N = std::is_same<T, Real>::value ? 2 : EVENTS;
  fewTol = true;
  Scene<T> w(false, 1);
  w.add(true, 0, anyTol<T>());
  w.add(std::is_same<T, Real>::value || sym_choose("second", 2), 0, anyTol<T>());
  w.start();
  for (int e = 0; e < N; ++e) w.step(pick({0, 4, 5, 8, 9}), e == N - 1);
  sym_reach("two");
}
SYM_TARGET(two_int, "two") { two<Integer>(); }
SYM_TARGET(two_real, "two") { two<Real>(); }

// Plain lookups of every type, through every entry point of the interface
struct OneType : Dispatcher {
  M m; bool direct;
  void deliver(LookupReceiver *r) {
    if (!m.known) { if (direct) r->setUnknown(); else r->update(Value(m.type)); return; }
    if (!direct) { r->update(mkValue(m)); return; }
    switch (m.type) {
    case BOOLEAN_TYPE: r->update((Boolean)m.b); break;
    case INTEGER_TYPE: r->update((Integer)m.i); break;
    case REAL_TYPE: r->update((Real)m.d); break;
    case STRING_TYPE: { String s; mkValue(m).getValue(s); r->update(s); break; }
    case BOOLEAN_ARRAY_TYPE: { Boolean b[3]; for (int k = 0; k < m.len; ++k) b[k] = m.eb[k]; r->update(b, m.len); break; }
    case INTEGER_ARRAY_TYPE: { Integer b[3]; for (int k = 0; k < m.len; ++k) b[k] = m.ei[k]; r->update(b, m.len); break; }
    case REAL_ARRAY_TYPE: { Real b[3]; for (int k = 0; k < m.len; ++k) b[k] = m.ed[k]; r->update(b, m.len); break; }
    default: { String b[3]; for (int k = 0; k < m.len; ++k) b[k] = String(m.esl[k], m.es[k]); r->update(b, m.len); break; }
    }
  }
  void lookupNow(State const &, LookupReceiver *r) override { deliver(r); }
  void setThresholds(State const &, Real, Real) override {}
  void setThresholds(State const &, Integer, Integer) override {}
  void clearThresholds(State const &) override {}
  void executeCommand(Command *) override {}
  void reportCommandArbitrationFailure(Command *) override {}
  void invokeAbort(Command *) override {}
  void executeUpdate(Update *) override {}
};
static void allTypes(bool arrays) {
  throwOnErrors();
  OneType w; g_dispatcher = &w;
  ValueType t = arrays ? ALL_TYPES[5 + sym_choose("type", 4)] : ALL_TYPES[1 + sym_choose("type", 4)];
  StringVariable name("n"); name.activate(); name.setValue(Value(String("a")));
  Counter c;
  bool declared = sym_choose("declared", 2);
  std::unique_ptr<Expression> e(makeLookup(&name, false, declared ? t : UNKNOWN_TYPE, nullptr));
  e->addListener(&c);
  M was; 
  for (int k = 0; k < 2; ++k) {
    M m = genModel(t, 0, arrays ? 2 : 1);
    w.direct = sym_choose("direct", 2);
    if (w.direct && arrays) for (int j = 0; j < m.len; ++j) m.ek[j] = true;
    if (sym_choose("unknown", 2)) { m = M(); m.type = t; }
    w.m = m;
    int n = c.n;
    if (!k) e->activate(); else w.deliver(StateCache::instance().getLookupReceiver(State("a")));
    CHECK(e->isKnown() == m.known, "a lookup is known exactly when the value obtained is");
    CHECK(shows(e->toValue(), m), "a lookup shows the value obtained");
    if (m.known) {
      CHECK(e->valueType() == t, "a lookup has the type of the value obtained");
      Array const *ap;
      if (arrays) { CHECK(e->getValuePointer(ap) && shows(Value(*ap), m), "the array shown is the one obtained"); }
      else {
        if (t == BOOLEAN_TYPE) { Boolean x; CHECK(e->getValue(x) && x == m.b, "the Boolean shown is the one obtained"); }
        if (t == INTEGER_TYPE) { Integer x; Real r; CHECK(e->getValue(x) && x == m.i && e->getValue(r) && r == (Real)m.i, "the Integer shown is the one obtained"); }
        if (t == REAL_TYPE) { Real x; CHECK(e->getValue(x) && x == m.d, "the Real shown is the one obtained"); }
        if (t == STRING_TYPE) { String x; String const *p; CHECK(e->getValue(x) && e->getValuePointer(p) && x == *p && shows(Value(x), m), "the String shown is the one obtained"); }
      }
    }
    if (k) CHECK(sameModel(was, m) | (c.n != n), "listeners learn of every change shown");
    was = m;
  }
  e->deactivate();
  CHECK(!e->isKnown() && !e->toValue().isKnown(), "an inactive lookup is unknown");
  e->removeListener(&c);
  sym_reach("types");
}
SYM_TARGET(types_scalar, "types") { allTypes(false); }
SYM_TARGET(types_array, "types") { allTypes(true); }

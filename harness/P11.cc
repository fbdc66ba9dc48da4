/*META
dict(
  srcs=['expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  bounds={'quick': 'Boolean, Integer, Real and String array variables of maximum size 2 or none; from every array value (any pattern of unknown elements, arrays shorter than the maximum, unknown as a whole) with or without a saved array, every sequence of 2 operations '
          '(assign array, assign unknown, assign element, element unknown, save/restore array, save/restore element with the index changing in between, index change, leave and enter); element strings of length 1; every index from -1 to 3 for single accesses',
          'thorough': 'as quick with sequences of 3 operations'},
)
META*/
#include "vars.hh"
#ifdef TIER_THOROUGH
enum { STEPS = 3 };
#else
enum { STEPS = 2 };
#endif
enum { MAX = 2 };
struct El { bool known; int v; double d; };  // v: the Integer, the Boolean (0/1) or the character; d: the Real
static bool same(El const &a, El const &b) { return (a.v == b.v) & (a.d == b.d); }
struct A { bool known; int len; El e[MAX + 1]; };

template <class T> T conv(El const &e) { return (T)e.v; }
template <> Real conv<Real>(El const &e) { return e.d; }
template <> String conv<String>(El const &e) { return String(1, (char)e.v); }
template <> Boolean conv<Boolean>(El const &e) { return e.v & 1; }
template <class T> bool is(T const &x, El const &e) { return x == conv<T>(e); }

static El genEl(ValueType t) {
  El e; e.known = sym_bool("known"); e.v = 0; e.d = 0;
  if (t == REAL_TYPE) { e.d = sym_double("d"); sym_assume(!isNaN(e.d)); }
  else e.v = t == BOOLEAN_TYPE ? (int)sym_bool("b") : t == STRING_TYPE ? (int)sym_byte("c") : sym_int("v");
  return e;
}
static A genArr(ValueType t, int minlen, int maxlen) {
  A a; a.known = true; a.len = minlen + sym_choose("len", maxlen - minlen + 1);
  for (int i = 0; i <= MAX; ++i) a.e[i] = El{false, 0, 0};
  for (int i = 0; i < a.len; ++i) a.e[i] = genEl(t);
  return a;
}
template <class T> static Value arrVal(A const &a) {
  if (!a.known) return Value();
  ArrayImpl<T> x(a.len);
  for (int i = 0; i < a.len; ++i) { x.setElement(i, conv<T>(a.e[i])); if (!a.e[i].known) x.setElementUnknown(i); }
  return Value(x);
}
template <class T> static Value elVal(El const &e) { return e.known ? Value(conv<T>(e)) : Value(); }

template <class T> static void showsArr(ArrayVariable const *v, A const &a) {
  CHECK(v->isKnown() == a.known, "the array is known exactly when it was last assigned a known array");
  Array const *p = nullptr;
  bool k = v->getValuePointer(p);
  CHECK(k == a.known, "the array is known exactly when it was last assigned a known array");
  if (!k) return;
  CHECK((int)p->size() == a.len, "the array has its size");
  if ((int)p->size() != a.len) return;
  for (int i = 0; i < a.len; ++i) {
    T x{};
    bool ek = p->getElement(i, x);
    CHECK(ek == a.e[i].known, "each element is known exactly when last made known");
    if (ek) CHECK(is<T>(x, a.e[i]), "each element is what was last assigned to it");
    T y{};
    CHECK(v->elementIsKnown(i) == ek && v->getElement(i, y) == ek && (!ek || y == x), "the variable's element accessors agree");
  }
}
static bool differs(A const &a, A const &b) {
  if (a.known != b.known) return true;
  if (!a.known) return false;
  if (a.len != b.len) return true;
  bool d = false;
  for (int i = 0; i < a.len; ++i) d |= (a.e[i].known != b.e[i].known) | (a.e[i].known & !same(a.e[i], b.e[i]));
  return d;
}
static El at(A const &a, bool idxKnown, int idx) {
  El e{false, 0, 0};
  if (a.known && idxKnown && idx >= 0 && idx < a.len) e = a.e[idx];
  return e;
}

template <class T> static void run(ValueType t, ValueType at_) {
  int conf = sym_choose("conf", 4);   // limited, unlimited with initial array, limited and unlimited with a saved array
  int limited = conf == 0 || conf == 2;
  auto *var = new ArrayVariableImpl<T>("a", limited ? new Constant<Integer>(MAX) : nullptr, true);
  auto *idx = new IntegerVariable("i");
  auto *ref = new MutableArrayReference(var, idx);
  auto *other = new ArrayReference(var, idx);   // a condition reading the element
  A none{};
  A init = none;
  int hasInit = conf == 1;
  if (hasInit) {
    init = genArr(t, 1, MAX);
    Value iv = arrVal<T>(init);
    ArrayImpl<T> const *ip = nullptr;
    iv.getValuePointer(ip);
    var->setInitializer(new ArgExpr<ArrayImpl<T>>(true, *ip), true);
  }
  Counter l, lr;
  ((Expression *)var)->addListener(&l);
  ((Expression *)other)->addListener(&lr);
  showsArr<T>(var, none);
  var->activate(); idx->activate(); ref->activate(); other->activate();
  auto padded = [&](A a) { if (a.known && limited && a.len < MAX) { for (int i = a.len; i < MAX; ++i) a.e[i].known = false; a.len = MAX; } return a; };
  A fresh = none;
  if (hasInit) fresh = padded(init);
  else if (limited) { fresh.known = true; fresh.len = MAX; for (auto &e : fresh.e) e.known = false; }
  A cur = fresh;
  showsArr<T>(var, cur);
  bool ik = false; int iv = 0;
  auto setIdx = [&] { iv = sym_choose("idx", MAX); idx->setValue(Value((Integer)iv)); ik = true; };
  A sav = none; bool saved = false;
  El esav{}; bool esaved = false; int eidx = 0;
  if (conf >= 2) {
    A a = genArr(t, MAX, MAX); var->setValue(arrVal<T>(a)); cur = padded(a);
    var->saveCurrentValue(); sav = cur; saved = true;
    setIdx();
    showsArr<T>(var, cur);
  }
  for (int s = 0; s < STEPS; ++s) {
    A before = cur; bool ik0 = ik; int iv0 = iv; int n0 = l.n, r0 = lr.n;
    switch (sym_choose("op", 9)) {
    case 0: { A a = genArr(t, 0, MAX); var->setValue(arrVal<T>(a)); cur = padded(a); sym_reach("array"); break; }
    case 1: var->setUnknown(); cur.known = false; break;
    case 2: { // assign one element
      El e = genEl(t);
      if (ik && cur.known && iv >= cur.len) return;
      ref->setValue(elVal<T>(e));
      if (ik && cur.known) { cur.e[iv] = e; sym_reach("element"); }
      break; }
    case 3: if (ik && cur.known && iv >= cur.len) return; ref->setUnknown(); if (ik && cur.known) cur.e[iv].known = false; break;
    case 4: var->saveCurrentValue(); sav = cur; saved = true; break;
    case 5: if (!saved) return; var->restoreSavedValue(); cur = sav; sym_reach("restore"); break;
    case 6: { // an element assignment retracted: save, assign, index moves on, restore
      if (!ik || !cur.known || iv >= cur.len) return;
      ref->saveCurrentValue(); esav = cur.e[iv]; eidx = iv;
      El e = genEl(t);
      int when = sym_choose("move", 3);
      if (when == 1) setIdx();
      ref->setValue(elVal<T>(e)); cur.e[eidx] = e;
      showsArr<T>(var, cur);
      bool d0 = (e.known != esav.known) | (e.known & !same(e, esav));
      CHECK(!d0 | (l.n > n0), "assigning an element is announced");
      n0 = l.n; before = cur;
      if (when == 2) setIdx();
      Value sv = ref->getSavedValue();
      CHECK(sv.isKnown() == esav.known && sv == elVal<T>(esav), "the saved element");
      ref->restoreSavedValue(); cur.e[eidx] = esav; sym_reach("element_restore");
      break; }
    case 7: setIdx(); break;
    default:
      other->deactivate(); ref->deactivate(); idx->deactivate(); var->deactivate();
      showsArr<T>(var, none);
      before = none; n0 = l.n; r0 = lr.n; ik0 = ik = false;
      var->activate(); idx->activate(); ref->activate(); other->activate(); cur = fresh; saved = false; sym_reach("reenter");
      break;
    }
    showsArr<T>(var, cur);
    bool ch = differs(before, cur);
    CHECK(!ch | (l.n > n0), "every change of the array is announced");
    if (ch) sym_reach("changed");
    // what the reference shows
    if (!(ik && cur.known && iv >= cur.len)) {
      El e = at(cur, ik, iv), b = at(before, ik0, iv0);
      CHECK(other->isKnown() == e.known && ref->isKnown() == e.known, "a reference is known when its element is");
      T x{};
      bool k = other->getValue(x);
      CHECK(k == e.known, "a reference is known when its element is");
      if (k) CHECK(is<T>(x, e), "a reference shows its element");
      CHECK(other->toValue() == elVal<T>(e), "a reference shows its element");
      bool dch = (e.known != b.known) | (e.known & !same(e, b));
      CHECK(!dch | (lr.n > r0), "every change of the element is announced to users of the reference");
    }
  }
}

SYM_TARGET(booleans, "array,element,restore,element_restore,reenter,changed") { throwOnErrors(); run<Boolean>(BOOLEAN_TYPE, BOOLEAN_ARRAY_TYPE); }
SYM_TARGET(integers, "array,element,restore,element_restore,reenter,changed") { throwOnErrors(); run<Integer>(INTEGER_TYPE, INTEGER_ARRAY_TYPE); }
SYM_TARGET(reals, "array,element,restore,element_restore,reenter,changed") { throwOnErrors(); run<Real>(REAL_TYPE, REAL_ARRAY_TYPE); }
SYM_TARGET(strings, "array,element,restore,element_restore,reenter,changed") { throwOnErrors(); run<String>(STRING_TYPE, STRING_ARRAY_TYPE); }

// No access outside the array: it is refused as a plan error and changes nothing
SYM_TARGET(bounds, "refused,accepted") {
  throwOnErrors();
  auto *var = new IntegerArrayVariable("a", sym_choose("limited", 2) ? new Constant<Integer>(3) : nullptr, true);
  int len = sym_choose("len", 3);
  IntegerArray a(len);
  var->activate();
  var->setValue(Value(a));
  Array const *p; var->getValuePointer(p);
  int n = (int)p->size();
  int i = sym_int("index");
  ArgExpr<Integer> idx(true, i);
  MutableArrayReference ref(var, &idx);
  ref.activate();
  bool in = (i >= 0) & (i < n);
  sym_assume((i > -100000) & (i < 100000));
  int op = sym_choose("op", 5), r = 0;
  bool ok = true;
  try {
    switch (op) {
    case 0: ref.getValue(r); break;
    case 1: ref.setValue(Value((Integer)5)); break;
    case 2: ref.setUnknown(); break;
    case 3: ref.isKnown(); break;
    default: ref.toValue(); break;
    }
  } catch (PlanError const &) { ok = false; }
  if (op == 1 || op == 2) CHECK(ok | !in, "every assignment inside the array is accepted");
  else CHECK(ok == in, "exactly the readings inside the array are accepted");
  for (int k = 0; k < n; ++k) CHECK(!p->elementKnown(k) | ((op == 1) & (k == i)), "no other element is touched");
  var->getValuePointer(p);
  CHECK((int)p->size() == n, "the size is unchanged");
  if (ok) sym_reach("accepted"); else sym_reach("refused");
  // an array larger than the maximum is refused
  auto *v2 = new IntegerArrayVariable("b", new Constant<Integer>(2), true);
  v2->activate();
  IntegerArray big(3);
  try { v2->setValue(Value(big)); ok = true; } catch (PlanError const &) { ok = false; }
  CHECK(!ok, "an array larger than the declared maximum is refused");
  v2->getValuePointer(p);
  CHECK(p->size() == 2, "and not stored");
}

/*META
dict(
  srcs=['expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  bounds={'quick': 'from every reachable state (any current and any saved value), every sequence of 3 operations (assign a value, assign an expression, assign unknown, save, restore, leave, enter, nested enter/leave) on a Boolean, Integer, Real or String variable with a known, unknown or absent initial value, all values symbolic (strings of length 1)',
          'thorough': 'as quick with 4 operations'},
)
META*/
#include "vars.hh"
#ifdef TIER_THOROUGH
enum { STEPS = 4 };
#else
enum { STEPS = 3 };
#endif

struct V { bool known; int i; double d; bool b; char c; };  // the model of one value
static V fresh(ValueType t) {
  V v{};
  v.known = sym_bool("known");
  switch (t) {
  case BOOLEAN_TYPE: v.b = sym_bool("b"); break;
  case INTEGER_TYPE: v.i = sym_int("i"); break;
  case REAL_TYPE: v.d = sym_double("d"); sym_assume(!isNaN(v.d)); break;
  default: v.c = (char)sym_byte("c"); break;
  }
  return v;
}
static Value val(ValueType t, V const &v) {
  // v.known is concrete by the caller
  if (!v.known) return Value(t);
  switch (t) {
  case BOOLEAN_TYPE: return Value((Boolean)v.b);
  case INTEGER_TYPE: return Value((Integer)v.i);
  case REAL_TYPE: return Value((Real)v.d);
  default: return Value(String(1, v.c));
  }
}
static Expression *exprOf(ValueType t, V const &v) {
  switch (t) {
  case BOOLEAN_TYPE: return new ArgExpr<Boolean>(v.known, v.b);
  case INTEGER_TYPE: return new ArgExpr<Integer>(v.known, v.i);
  case REAL_TYPE: return new ArgExpr<Real>(v.known, v.d);
  default: return new ArgExpr<String>(v.known, String(1, v.c));
  }
}
static bool differ(ValueType t, V const &a, V const &b) {
  bool same = t == BOOLEAN_TYPE ? a.b == b.b : t == INTEGER_TYPE ? a.i == b.i : t == REAL_TYPE ? a.d == b.d : a.c == b.c;
  return (a.known != b.known) | (a.known & b.known & !same);
}
static void showsV(Expression const *e, ValueType t, V const &v, char const *what) {
  CHECK(e->isKnown() == v.known, what);
  Value x = e->toValue();
  CHECK(x.isKnown() == v.known, what);
  switch (t) {
  case BOOLEAN_TYPE: { Boolean r = false; bool k = e->getValue(r); CHECK((k == v.known) & (!v.known | (r == v.b)), what); break; }
  case INTEGER_TYPE: {
    Integer r = 0; bool k = e->getValue(r); CHECK((k == v.known) & (!v.known | (r == v.i)), what);
    Real q = 0; k = e->getValue(q); CHECK((k == v.known) & (!v.known | (q == (double)v.i)), what); break; }
  case REAL_TYPE: { Real r = 0; bool k = e->getValue(r); CHECK((k == v.known) & (!v.known | (r == v.d)), what); break; }
  default: {
    String r; bool k = e->getValue(r); CHECK(k == v.known, what);
    String const *p = nullptr; bool kp = e->getValuePointer(p); CHECK(kp == v.known, what);
    if (k) { CHECK(r.size() == 1 && r[0] == v.c, what); CHECK(p && *p == r, what); }
  }
  }
}

SYM_TARGET(lifecycle, "assign,restore,reenter,changed") {
  throwOnErrors();
  static const ValueType T[] = {BOOLEAN_TYPE, INTEGER_TYPE, REAL_TYPE, STRING_TYPE};
  ValueType t = T[sym_choose("type", 4)];
  Variable *var;
  switch (t) {
  case BOOLEAN_TYPE: var = new BooleanVariable("v"); break;
  case INTEGER_TYPE: var = new IntegerVariable("v"); break;
  case REAL_TYPE: var = new RealVariable("v"); break;
  default: var = new StringVariable("v"); break;
  }
  int hasInit = sym_choose("init", 2);
  V init{};
  if (hasInit) { init = fresh(t); var->setInitializer(exprOf(t, init), false); }
  Counter l;
  ((Expression *)var)->addListener(&l);
  CHECK(var->valueType() == t && var->isAssignable() && !var->isConstant() && var->getBaseVariable() == var, "a variable of its type");
  V none{}, cur{}, sav{};
  bool haveSaved = false;
  int active = 0;
  showsV(var, t, none, "unknown before it is first entered");
  var->activate(); active = 1; cur = init; cur.known &= (bool)hasInit;
  showsV(var, t, cur, "takes its initial value when entered");
  CHECK(l.n >= 1 || !cur.known, "initial value is announced");
  if (sym_choose("prefix", 2)) { // any saved value and any current one
    V v = fresh(t); var->setValue(val(t, v)); cur = v;
    var->saveCurrentValue(); sav = cur; haveSaved = true;
    v = fresh(t); var->setValue(val(t, v)); cur = v;
    showsV(var, t, cur, "the variable shows what was last assigned to it");
  }
  for (int s = 0; s < STEPS; ++s) {
    V before = cur;
    int n0 = l.n;
    switch (sym_choose("op", 7)) {
    case 0: {
      V v = fresh(t);
      var->setValue(val(t, v)); cur = v; sym_reach("assign"); break; }
    case 1: {
      V v = fresh(t); Expression *e = exprOf(t, v);
      switch (t) {
      case BOOLEAN_TYPE: static_cast<BooleanVariable *>(var)->setValue(*e); break;
      case INTEGER_TYPE: static_cast<IntegerVariable *>(var)->setValue(*e); break;
      case REAL_TYPE: static_cast<RealVariable *>(var)->setValue(*e); break;
      default: static_cast<StringVariable *>(var)->setValue(*e); break;
      }
      cur = v; break; }
    case 2: var->setUnknown(); cur.known = false; break;
    case 3: var->saveCurrentValue(); sav = cur; haveSaved = true; break;
    case 4:
      if (!haveSaved) return;
      var->restoreSavedValue(); cur = sav; sym_reach("restore"); break;
    case 5: { // leave and enter again
      var->deactivate();
      showsV(var, t, none, "unknown when its scope is left");
      Boolean rb; CHECK(t != BOOLEAN_TYPE || !var->getValue(rb), "no value");
      before = none; n0 = l.n;
      if (sym_choose("assign_inactive", 2)) { if (hasInit && sym_choose("newinit", 2)) { init = fresh(t); var->setInitializer(exprOf(t, init), false); } }
      CHECK(l.n == n0, "nothing to announce");
      var->activate(); cur = init; cur.known &= (bool)hasInit; haveSaved = false; sym_reach("reenter"); break; }
    default: // another user enters and leaves
      var->activate(); showsV(var, t, cur, "a second activation changes nothing"); var->deactivate(); break;
    }
    showsV(var, t, cur, "the variable shows what was last assigned to it");
    if (haveSaved) {
      Value sv = var->getSavedValue();
      CHECK(sv.isKnown() == sav.known, "the saved value is known as it was when saved");
      if (sav.known) CHECK(sv == val(t, sav), "the saved value");
    }
    bool ch = differ(t, before, cur);
    CHECK(!ch | (l.n > n0), "every change is announced to the listeners");
    if (ch) sym_reach("changed");
  }
}

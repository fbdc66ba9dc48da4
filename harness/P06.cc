/*META
dict(
  srcs=['expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  bounds='EQ and NE on every pair of values of the same type (or one Integer and one Real, or one without a type), known or unknown, strings and arrays of length 0..2 (quick) or 0..3 (thorough); the four orderings on '
         'every pair of Integers, Reals (NaN and infinities included), mixed Integer and Real, and strings of length 0..3; IsKnown on every value',
)
META*/
#include "expr.hh"
#include "Comparisons.hh"
#ifdef TIER_THOROUGH
enum { ML = 3 };
#else
enum { ML = 2 };
#endif

static M gen(ValueType t, int maxlen, bool nan) {
  M m = genModel(t, 0, maxlen, nan);
  m.known = t == UNKNOWN_TYPE ? false : (bool)sym_bool("known");
  return m;
}

SYM_TARGET(equality, "unknown,equal,different") {
  throwOnErrors();
  ValueType t = ALL_TYPES[sym_choose("type", 13)], u = t;
  switch (sym_choose("other", 3)) {
  case 1: if (t == INTEGER_TYPE) u = REAL_TYPE; else if (t == REAL_TYPE) u = INTEGER_TYPE; else return; break;
  case 2: if (t == UNKNOWN_TYPE) return; u = UNKNOWN_TYPE; break;
  }
  bool flip = sym_choose("flip", 2);
  M a = gen(t, ML, true), b = gen(u, ML, true);
  std::vector<Expression *> v1{mkExpr(a), mkExpr(b)}, v2{mkExpr(a), mkExpr(b)};
  if (flip) { std::swap(v1[0], v1[1]); std::swap(v2[0], v2[1]); }
  CHECK(Equal::instance()->checkArgTypes({t, u}) && NotEqual::instance()->checkArgTypes({t, u}), "comparable types are accepted");
  bool known = a.known & b.known;
  bool same = sameModel(a, b);
  Function *e = mkFn<Boolean>(Equal::instance(), v1), *n = mkFn<Boolean>(NotEqual::instance(), v2);
  bool junk = sym_bool("junk");
  if (known) {
    showsResult<Boolean>(e, true, same, junk);
    showsResult<Boolean>(n, true, !same, junk);
    if (same) sym_reach("equal"); else sym_reach("different");
  } else {
    showsResult<Boolean>(e, false, false, junk);
    showsResult<Boolean>(n, false, false, junk);
    sym_reach("unknown");
  }
}

// only values of comparable kinds may be compared
SYM_TARGET(kinds, "done") {
  ValueType t = ALL_TYPES[sym_choose("t", 13)], u = ALL_TYPES[sym_choose("u", 13)];
  bool num = (t == INTEGER_TYPE || t == REAL_TYPE) && (u == INTEGER_TYPE || u == REAL_TYPE);
  bool any = t == UNKNOWN_TYPE || u == UNKNOWN_TYPE;
  CHECK(Equal::instance()->checkArgTypes({t, u}) == (any || num || t == u), "EQ accepts comparable kinds only");
  CHECK(NotEqual::instance()->checkArgTypes({t, u}) == (any || num || t == u), "NE accepts comparable kinds only");
  bool ord = any || num || (t == STRING_TYPE && u == STRING_TYPE);
  CHECK(LessThan<Real>::instance()->checkArgTypes({t, u}) == ord && GreaterEqual<Integer>::instance()->checkArgTypes({t, u}) == ord &&
        GreaterThan<String>::instance()->checkArgTypes({t, u}) == ord && LessEqual<Real>::instance()->checkArgTypes({t, u}) == ord, "orderings accept numbers and strings only");
  for (int n = 0; n < 4; ++n) CHECK(Equal::instance()->checkArgCount(n) == (n == 2) && LessThan<Real>::instance()->checkArgCount(n) == (n == 2) && IsKnown::instance()->checkArgCount(n) == (n == 1), "argument count");
  sym_reach("done");
}

template <class T> static void ordering(M const &a, M const &b, bool lt, bool eq) {
  bool gt = !lt & !eq, junk = sym_bool("junk");
  bool nan = (a.type == REAL_TYPE && isNaN(a.d)) | (b.type == REAL_TYPE && isNaN(b.d));
  gt &= !nan;
  bool known = a.known & b.known;
  struct { Operator const *op; bool r; } ops[] = {{LessThan<T>::instance(), lt}, {LessEqual<T>::instance(), (bool)(lt | eq)}, {GreaterThan<T>::instance(), gt}, {GreaterEqual<T>::instance(), (bool)(gt | eq)}};
  auto &o = ops[sym_choose("op", 4)];
  std::vector<Expression *> v{mkExpr(a), mkExpr(b)};
  Function *f = mkFn<Boolean>(o.op, v);
  if (known) { showsResult<Boolean>(f, true, o.r, junk); sym_reach("known"); }
  else { showsResult<Boolean>(f, false, false, junk); sym_reach("unknown"); }
}
SYM_TARGET(order_int, "known,unknown") { throwOnErrors(); M a = gen(INTEGER_TYPE, 0, false), b = gen(INTEGER_TYPE, 0, false); ordering<Integer>(a, b, a.i < b.i, a.i == b.i); }
SYM_TARGET(order_real, "known,unknown") {
  throwOnErrors();
  int mix = sym_choose("mix", 3);
  M a = gen(mix == 1 ? INTEGER_TYPE : REAL_TYPE, 0, true), b = gen(mix == 2 ? INTEGER_TYPE : REAL_TYPE, 0, true);
  double x = mix == 1 ? (double)a.i : a.d, y = mix == 2 ? (double)b.i : b.d;
  ordering<Real>(a, b, x < y, x == y);
}
SYM_TARGET(order_string, "known,unknown") {
  throwOnErrors();
  M a = gen(STRING_TYPE, 3, false), b = gen(STRING_TYPE, 3, false);
  bool lt = false, eq = true;
  for (int k = 0; k < 3; ++k) {
    int x = k < a.len ? (int)(unsigned char)a.s[k] : -1, y = k < b.len ? (int)(unsigned char)b.s[k] : -1;
    lt |= eq & (x < y); eq &= x == y;
  }
  ordering<String>(a, b, lt, eq);
}
SYM_TARGET(is_known, "known,unknown") {
  throwOnErrors();
  M a = gen(ALL_TYPES[sym_choose("type", 13)], 1, true);
  std::vector<Expression *> v{mkExpr(a)};
  Function *f = mkFn<Boolean>(IsKnown::instance(), v);
  showsResult<Boolean>(f, true, a.known, sym_bool("junk"));
  if (a.known) sym_reach("known"); else sym_reach("unknown");
}

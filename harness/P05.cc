/*META
dict(
  srcs=['expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  bounds={'quick': 'NOT, and AND, OR and XOR of 1 to 6 arguments, every argument true, false or unknown; formulas of two levels (each operator over three arguments that are themselves operators of two)',
          'thorough': 'as quick with up to 8 arguments'},
)
META*/
#include "expr.hh"
#include "BooleanOperators.hh"
#ifdef TIER_THOROUGH
enum { MAXN = 8 };
#else
enum { MAXN = 6 };
#endif

// Kleene: 0 false, 1 unknown, 2 true
static int conj(int a, int b) { return a < b ? a : b; }
static int disj(int a, int b) { return a > b ? a : b; }
static int excl(int a, int b) { return (a == 1) | (b == 1) ? 1 : a == b ? 0 : 2; }
static int apply(int op, int a, int b) { return op == 0 ? conj(a, b) : op == 1 ? disj(a, b) : excl(a, b); }
static Operator const *opOf(int op) { return op == 0 ? (Operator const *)BooleanAnd::instance() : op == 1 ? (Operator const *)BooleanOr::instance() : (Operator const *)BooleanXor::instance(); }

static int arg(Expression *&e) {
  bool k = sym_bool("known"), v = sym_bool("value");
  e = new ArgExpr<Boolean>(k, v);
  return k ? (v ? 2 : 0) : 1;
}
static void expect(Function *f, int want) {
  bool junk = sym_bool("junk");
  showsResult<Boolean>(f, want != 1, want == 2, junk);
  if (want == 1) sym_reach("unknown");
  if (want == 2) sym_reach("true");
  if (want == 0) sym_reach("false");
}

SYM_TARGET(nary, "unknown,true,false") {
  throwOnErrors();
  int op = sym_choose("op", 3), n = 1 + sym_choose("n", MAXN);
  std::vector<Expression *> a(n);
  int want = 0;
  for (int i = 0; i < n; ++i) {
    int x = arg(a[i]);
    want = i ? apply(op, want, x) : x;
  }
  CHECK(opOf(op)->checkArgCount(n), "any number of arguments is accepted");
  Function *f = mkFn<Boolean>(opOf(op), a);
  expect(f, want);
}
SYM_TARGET(not_, "unknown,true,false") {
  throwOnErrors();
  std::vector<Expression *> a(1);
  int x = arg(a[0]);
  expect(mkFn<Boolean>(BooleanNot::instance(), a), 2 - x);
}
SYM_TARGET(nested, "unknown,true,false") {
  throwOnErrors();
  int outer = sym_choose("op", 3), inner = sym_choose("inner", 3);
  std::vector<Expression *> a(3);
  int want = 0;
  for (int i = 0; i < 3; ++i) {
    std::vector<Expression *> b(2);
    int x = arg(b[0]), y = arg(b[1]), z = apply(inner, x, y);
    if (i == 2) { b.resize(1); z = 2 - x; a[i] = mkFn<Boolean>(BooleanNot::instance(), b); }
    else a[i] = mkFn<Boolean>(opOf(inner), b);
    want = i ? apply(outer, want, z) : z;
  }
  expect(mkFn<Boolean>(opOf(outer), a), want);
}

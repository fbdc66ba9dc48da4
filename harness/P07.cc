/*META
dict(
  srcs=['expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  bounds={'quick': 'ADD, SUB, MUL, MIN, MAX of 1 to 5 arguments, DIV and MOD of 2, ABS, SQRT of 1; every Integer, every Real (infinities and NaN included), every mixture of Integer and Real arguments up to 3, every pattern of unknown arguments. '
                   'fmod is uninterpreted: MOD of Reals is shown to be fmod of its arguments',
          'thorough': 'as quick with up to 7 arguments'},
)
META*/
#include "expr.hh"
#include "ArithmeticOperators.hh"
#ifdef TIER_THOROUGH
enum { MAXN = 7 };
#else
enum { MAXN = 5 };
#endif

static void reach(bool known) { if (known) sym_reach("known"); else sym_reach("unknown"); }
typedef uint32_t u32;

SYM_TARGET(integer, "known,unknown") {
  throwOnErrors();
  int op = sym_choose("op", 5), n = 1 + sym_choose("n", MAXN);
  std::vector<Expression *> a(n);
  bool known = true;
  u32 r = 0;
  for (int i = 0; i < n; ++i) {
    bool k = sym_bool("known"); int v = sym_int("v");
    a[i] = new ArgExpr<Integer>(k, v);
    known &= k;
    if (!i) r = op == 1 && n == 1 ? 0u - (u32)v : (u32)v;
    else switch (op) {
      case 0: r += (u32)v; break;
      case 1: r -= (u32)v; break;
      case 2: r *= (u32)v; break;
      case 3: r = (int)r < v ? r : (u32)v; break;
      case 4: r = (int)r > v ? r : (u32)v; break;
    }
  }
  Operator const *o[] = {Addition<Integer>::instance(), Subtraction<Integer>::instance(), Multiplication<Integer>::instance(), Minimum<Integer>::instance(), Maximum<Integer>::instance()};
  Function *f = mkFn<Integer>(o[op], a);
  CHECK(o[op]->checkArgCount(n), "argument count accepted");
  CHECK(f->valueType() == INTEGER_TYPE, "Integer result");
  if (known) {
    showsResult<Integer>(f, true, (int)r, sym_int("junk"));
    Real x = 0;
    CHECK(f->getValue(x) && x == (Real)(int)r, "an Integer result read as Real");
  } else {
    showsResult<Integer>(f, false, 0, sym_int("junk"));
    Real x = 0;
    CHECK(!f->getValue(x), "unknown when read as Real");
  }
  reach(known);
}

static void realCase(bool mixed) {
  throwOnErrors();
  int op = sym_choose("op", 5), n = 1 + sym_choose("n", mixed ? 3 : MAXN);
  std::vector<Expression *> a(n);
  bool known = true;
  Real r = 0;
  for (int i = 0; i < n; ++i) {
    bool k = sym_bool("known");
    Real v;
    if (mixed && sym_choose("isint", 2)) { int x = sym_int("vi"); v = x; a[i] = new ArgExpr<Integer>(k, x); }
    else { v = sym_double("v"); a[i] = new ArgExpr<Real>(k, v); }
    // MIN and MAX of NaN have no meaning
    if (op >= 3) sym_assume(!isNaN(v));
    known &= k;
    if (!i) r = op == 1 && n == 1 ? -v : op == 0 && n >= 3 ? 0.0 + v : v;
    else switch (op) {
      case 0: r += v; break;
      case 1: r -= v; break;
      case 2: r *= v; break;
      case 3: r = r < v ? r : v; break;
      case 4: r = r > v ? r : v; break;
    }
  }
  Operator const *o[] = {Addition<Real>::instance(), Subtraction<Real>::instance(), Multiplication<Real>::instance(), Minimum<Real>::instance(), Maximum<Real>::instance()};
  Function *f = mkFn<Real>(o[op], a);
  CHECK(f->valueType() == REAL_TYPE, "Real result");
  if (known) showsResult<Real>(f, true, r, 1.5); else showsResult<Real>(f, false, 0.0, 1.5);
  reach(known);
}
SYM_TARGET(real, "known,unknown") { realCase(false); }
SYM_TARGET(mixed, "known,unknown") { realCase(true); }

// No argument at all: ADD is 0
SYM_TARGET(empty, "done") {
  throwOnErrors();
  std::vector<Expression *> none;
  showsResult<Integer>(mkFn<Integer>(Addition<Integer>::instance(), none), true, 0, sym_int("junk"));
  showsResult<Real>(mkFn<Real>(Addition<Real>::instance(), none), true, 0.0, 2.5);
  CHECK(!Subtraction<Integer>::instance()->checkArgCount(0) && !Multiplication<Real>::instance()->checkArgCount(0) && !Minimum<Integer>::instance()->checkArgCount(0) &&
        !Maximum<Real>::instance()->checkArgCount(0), "these need an argument");
  for (int n = 0; n < 5; ++n)
    CHECK(Division<Integer>::instance()->checkArgCount(n) == (n == 2) && Modulo<Real>::instance()->checkArgCount(n) == (n == 2) && AbsoluteValue<Integer>::instance()->checkArgCount(n) == (n == 1) &&
          SquareRoot<Real>::instance()->checkArgCount(n) == (n == 1), "argument counts");
  sym_reach("done");
}

SYM_TARGET(int_div, "known,unknown,zero,overflow") {
  throwOnErrors();
  bool mod = sym_choose("mod", 2);
  bool ka = sym_bool("ka"), kb = sym_bool("kb");
  int a = sym_int("a"), b = sym_int("b");
  std::vector<Expression *> v{new ArgExpr<Integer>(ka, a), new ArgExpr<Integer>(kb, b)};
  Function *f = mkFn<Integer>(mod ? (Operator const *)Modulo<Integer>::instance() : (Operator const *)Division<Integer>::instance(), v);
  int junk = sym_int("junk"), r = junk;
  bool k = f->getValue(r);
  CHECK(f->isKnown() == k, "isKnown agrees");
  if (!(ka & kb)) { CHECK(!k, "unknown argument gives unknown"); sym_reach("unknown"); return; }
  if (b == 0) { CHECK(!k, "division by zero is unknown"); sym_reach("zero"); return; }
  int64_t A = a, B = b;
  if (b == -1) { // avoids the one overflowing case of C
    if (mod) CHECK(k && r == 0, "remainder by -1 is 0");
    else if (a == INT32_MIN) { CHECK(!k, "a quotient no Integer can hold is unknown"); sym_reach("overflow"); }
    else CHECK(k && r == -a, "quotient by -1");
    return;
  }
  CHECK(k, "known otherwise");
  CHECK(r == (mod ? a % b : a / b), "quotient truncates toward zero, remainder has the sign of the dividend");
  (void)A; (void)B;
  sym_reach("known");
}
SYM_TARGET(real_div, "known,unknown,zero") {
  throwOnErrors();
  bool mod = sym_choose("mod", 2);
  bool ka = sym_bool("ka"), kb = sym_bool("kb");
  int mix = sym_choose("mix", 3);
  Real a, b;
  Expression *ea, *eb;
  if (mix == 1) { int i = sym_int("ai"); a = i; ea = new ArgExpr<Integer>(ka, i); } else { a = sym_double("a"); ea = new ArgExpr<Real>(ka, a); }
  if (mix == 2) { int i = sym_int("bi"); b = i; eb = new ArgExpr<Integer>(kb, i); } else { b = sym_double("b"); eb = new ArgExpr<Real>(kb, b); }
  std::vector<Expression *> v{ea, eb};
  Function *f = mkFn<Real>(mod ? (Operator const *)Modulo<Real>::instance() : (Operator const *)Division<Real>::instance(), v);
  bool known = ka & kb;
  if (known & (b == 0)) { showsResult<Real>(f, false, 0.0, 1.5); sym_reach("zero"); }
  else if (known) { showsResult<Real>(f, true, mod ? fmod(a, b) : a / b, 1.5); sym_reach("known"); }
  else { showsResult<Real>(f, false, 0.0, 1.5); sym_reach("unknown"); }
}
SYM_TARGET(abs_, "known,unknown") {
  throwOnErrors();
  bool k = sym_bool("k");
  if (sym_choose("real", 2)) {
    Real x = sym_double("x");
    std::vector<Expression *> v{new ArgExpr<Real>(k, x)};
    Function *f = mkFn<Real>(AbsoluteValue<Real>::instance(), v);
    if (k) showsResult<Real>(f, true, x < 0 ? -x : x, 1.5); else showsResult<Real>(f, false, 0.0, 1.5);
  } else {
    int x = sym_int("x");
    std::vector<Expression *> v{new ArgExpr<Integer>(k, x)};
    Function *f = mkFn<Integer>(AbsoluteValue<Integer>::instance(), v);
    if (k) showsResult<Integer>(f, true, (int)(x < 0 ? 0u - (u32)x : (u32)x), 7); else showsResult<Integer>(f, false, 0, 7);
  }
  reach(k);
}
SYM_TARGET(sqrt_, "known,unknown,negative") {
  throwOnErrors();
  bool k = sym_bool("k");
  Real x;
  Expression *e;
  if (sym_choose("int", 2)) { int i = sym_int("xi"); x = i; e = new ArgExpr<Integer>(k, i); } else { x = sym_double("x"); e = new ArgExpr<Real>(k, x); }
  std::vector<Expression *> v{e};
  Function *f = mkFn<Real>(SquareRoot<Real>::instance(), v);
  if (k & (x < 0)) { showsResult<Real>(f, false, 0.0, 1.5); sym_reach("negative"); }
  else if (k) { showsResult<Real>(f, true, sqrt(x), 1.5); sym_reach("known"); }
  else { showsResult<Real>(f, false, 0.0, 1.5); sym_reach("unknown"); }
}

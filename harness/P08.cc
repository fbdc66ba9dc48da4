/*META
dict(
  srcs=['expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  bounds='every Real (64-bit IEEE, infinities and NaN included) and every Integer argument of CEIL, FLOOR, ROUND, TRUNC (Integer and Real results) and REAL_TO_INT; no bound on the value',
)
META*/
#include "expr.hh"
#include "ConversionOperators.hh"

SYM_TARGET(to_integer, "known,unknown,range,nan") {
  throwOnErrors();
  int op = sym_choose("op", 4);
  bool k = sym_bool("k");
  Real x = sym_double("x");
  std::vector<Expression *> v{new ArgExpr<Real>(k, x)};
  Operator const *o[] = {Ceiling<Integer>::instance(), Floor<Integer>::instance(), Round<Integer>::instance(), Truncate<Integer>::instance()};
  Function *f = mkFn<Integer>(o[op], v);
  int r = 12345;
  bool known = f->getValue(r);
  CHECK(f->isKnown() == known, "isKnown agrees");
  CHECK(f->valueType() == INTEGER_TYPE, "type");
  if (!k) { CHECK(!known, "unknown gives unknown"); sym_reach("unknown"); return; }
  if (isNaN(x)) { CHECK(!known, "NaN has no integer"); sym_reach("nan"); return; }
  // the open interval of Reals that map into the Integer range
  bool in;
  switch (op) {
  case 0: in = (x > -2147483649.0) & (x <= 2147483647.0); break;
  case 1: in = (x >= -2147483648.0) & (x < 2147483648.0); break;
  case 2: in = (x > -2147483648.5) & (x < 2147483647.5); break;
  default: in = (x > -2147483649.0) & (x < 2147483648.0); break;
  }
  CHECK(known == in, "known exactly when the result fits an Integer");
  if (!known) { sym_reach("range"); return; }
  double n = r; // n and its neighbours and halves are exact
  bool right;
  switch (op) {
  case 0: right = (x > n - 1) & (x <= n); break;
  case 1: right = (x < n + 1) & (x >= n); break;
  case 2: right = (x <= n + 0.5) & (x >= n - 0.5) & ((x != n + 0.5) | (n < 0)) & ((x != n - 0.5) | (n > 0)); break;
  default: right = ((x >= 0) & (x < n + 1) & (x >= n)) | ((x <= 0) & (x > n - 1) & (x <= n)); break;
  }
  CHECK(right, "rounds to the right neighbour");
  sym_reach("known");
}
SYM_TARGET(to_real, "known,unknown") {
  throwOnErrors();
  int op = sym_choose("op", 4);
  bool k = sym_bool("k");
  Real x = sym_double("x");
  std::vector<Expression *> v{new ArgExpr<Real>(k, x)};
  Operator const *o[] = {Ceiling<Real>::instance(), Floor<Real>::instance(), Round<Real>::instance(), Truncate<Real>::instance()};
  Function *f = mkFn<Real>(o[op], v);
  CHECK(f->valueType() == REAL_TYPE, "type");
  if (k) { showsResult<Real>(f, true, op == 0 ? ceil(x) : op == 1 ? floor(x) : op == 2 ? round(x) : trunc(x), 0.25); sym_reach("known"); }
  else { showsResult<Real>(f, false, 0.0, 0.25); sym_reach("unknown"); }
}
// an Integer argument is its own result
SYM_TARGET(of_integer, "known,unknown") {
  throwOnErrors();
  int op = sym_choose("op", 5);
  bool k = sym_bool("k");
  int x = sym_int("x");
  std::vector<Expression *> v{new ArgExpr<Integer>(k, x)};
  Operator const *o[] = {Ceiling<Integer>::instance(), Floor<Integer>::instance(), Round<Integer>::instance(), Truncate<Integer>::instance(), RealToInteger::instance()};
  Function *f = mkFn<Integer>(o[op], v);
  if (k) { showsResult<Integer>(f, true, x, 77); sym_reach("known"); } else { showsResult<Integer>(f, false, 0, 77); sym_reach("unknown"); }
}
SYM_TARGET(real_to_int, "known,unknown,no") {
  throwOnErrors();
  bool k = sym_bool("k");
  Real x = sym_double("x");
  std::vector<Expression *> v{new ArgExpr<Real>(k, x)};
  Function *f = mkFn<Integer>(RealToInteger::instance(), v);
  int r = 5;
  bool known = f->getValue(r);
  CHECK(f->isKnown() == known, "isKnown agrees");
  if (!k) { CHECK(!known, "unknown gives unknown"); sym_reach("unknown"); return; }
  bool whole = (trunc(x) == x) & (x >= -2147483648.0) & (x <= 2147483647.0);
  CHECK(known == whole, "known exactly for whole numbers in range");
  if (known) { CHECK((double)r == x, "the same number"); sym_reach("known"); } else sym_reach("no");
}

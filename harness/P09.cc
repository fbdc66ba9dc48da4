/*META
dict(
  srcs=['expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  bounds='Concat of 0 to 6 strings of length 0..2 with symbolic bytes and any pattern of unknown arguments; STRLEN of strings of length 0..3; ArraySize, ArrayMaxSize, ALL_KNOWN, ANY_KNOWN of arrays of every element type, length 0..3, any pattern of unknown elements, known or unknown as a whole',
)
META*/
#include "expr.hh"
#include "StringOperators.hh"
#include "ArrayOperators.hh"

static void reach(bool known) { if (known) sym_reach("known"); else sym_reach("unknown"); }

SYM_TARGET(concat, "known,unknown") {
  throwOnErrors();
  int n = sym_choose("n", 7);
  std::vector<Expression *> a(n);
  bool known = true;
  char all[16]; int len = 0;
  for (int i = 0; i < n; ++i) {
    bool k = sym_bool("known");
    int l = n <= 3 ? sym_choose("len", 3) : 1 + (i % 2);
    String s;
    for (int j = 0; j < l; ++j) { char c = (char)sym_byte("c"); s += c; all[len++] = c; }
    a[i] = new ArgExpr<String>(k, s);
    known &= k;
  }
  CHECK(StringConcat::instance()->checkArgCount(n), "any number of strings");
  Function *f = mkFn<String>(StringConcat::instance(), a, true);
  CHECK(f->valueType() == STRING_TYPE, "type");
  // read twice: the cache of the first reading must not show
  for (int pass = 0; pass < 2; ++pass) {
    String s("junk");
    String const *p = nullptr;
    bool k = pass ? f->getValue(s) : f->getValuePointer(p);
    if (!pass && k) s = *p;
    CHECK(k == known, "known exactly when every argument is");
    if (!known) continue;
    CHECK((int)s.size() == len, "length");
    bool same = true;
    for (int i = 0; i < len; ++i) same &= s[i] == all[i];
    CHECK(same, "content in order");
  }
  CHECK(f->isKnown() == known, "isKnown agrees");
  Value v = f->toValue();
  CHECK(v.isKnown() == known, "toValue agrees");
  reach(known);
}
SYM_TARGET(strlen_, "known,unknown") {
  throwOnErrors();
  M m = genModel(STRING_TYPE, 0, 3);
  m.known = sym_bool("known");
  std::vector<Expression *> a{mkExpr(m)};
  Function *f = mkFn<Integer>(StringLength::instance(), a);
  if (m.known) showsResult<Integer>(f, true, m.len, 9); else showsResult<Integer>(f, false, 0, 9);
  reach(m.known);
}
SYM_TARGET(array, "known,unknown") {
  throwOnErrors();
  static const ValueType T[] = {BOOLEAN_ARRAY_TYPE, INTEGER_ARRAY_TYPE, REAL_ARRAY_TYPE, STRING_ARRAY_TYPE};
  M m = genModel(T[sym_choose("type", 4)], 0, 3);
  m.known = sym_bool("known");
  int op = sym_choose("op", 4);
  std::vector<Expression *> a{mkExpr(m)};
  bool all = true, any = false;
  for (int i = 0; i < m.len; ++i) all &= m.ek[i], any |= m.ek[i];
  if (op < 2) {
    Function *f = mkFn<Integer>(op ? (Operator const *)ArrayMaxSize::instance() : (Operator const *)ArraySize::instance(), a);
    if (m.known) showsResult<Integer>(f, true, m.len, 9); else showsResult<Integer>(f, false, 0, 9);
  } else {
    Function *f = mkFn<Boolean>(op == 2 ? (Operator const *)AllElementsKnown::instance() : (Operator const *)AnyElementsKnown::instance(), a);
    bool junk = sym_bool("junk");
    if (m.known) showsResult<Boolean>(f, true, op == 2 ? all : any, junk); else showsResult<Boolean>(f, false, false, junk);
  }
  reach(m.known);
}

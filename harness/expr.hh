// Argument expressions whose known-ness and value are symbolic.
#ifndef EXPR_HH
#define EXPR_HH
#include "gen.hh"
#include "Function.hh"
#include "CachedFunction.hh"
#include "GetValueImpl.hh"
#include <memory>

template <class T> struct ArgExpr : GetValueImpl<T> {
  bool known; T v;
  ArgExpr(bool k, T const &x) : known(k), v(x) {}
  char const *exprName() const override { return "arg"; }
  bool isKnown() const override { return known; }
  bool getValue(T &r) const override { if (!known) return false; r = v; return true; }
};
template <> struct ArgExpr<String> : GetValueImpl<String> {
  bool known; String v;
  ArgExpr(bool k, String const &x) : known(k), v(x) {}
  char const *exprName() const override { return "arg"; }
  bool isKnown() const override { return known; }
  bool getValue(String &r) const override { if (!known) return false; r = v; return true; }
  bool getValuePointer(String const *&p) const override { if (!known) return false; p = &v; return true; }
};
template <class T> struct ArgExpr<ArrayImpl<T>> : GetValueImpl<ArrayImpl<T>> {
  bool known; ArrayImpl<T> v;
  ArgExpr(bool k, ArrayImpl<T> const &x) : known(k), v(x) {}
  char const *exprName() const override { return "arg"; }
  bool isKnown() const override { return known; }
  bool getValuePointer(ArrayImpl<T> const *&p) const override { if (!known) return false; p = &v; return true; }
};
// An expression without a type of its own until it is known (as an undeclared Lookup)
struct UntypedUnknown : GetValueImpl<Boolean> {
  char const *exprName() const override { return "arg"; }
  ValueType valueType() const override { return UNKNOWN_TYPE; }
  bool isKnown() const override { return false; }
  bool getValue(Boolean &) const override { return false; }
  bool getValue(Integer &) const override { return false; }
  bool getValue(Real &) const override { return false; }
  bool getValue(String &) const override { return false; }
  bool getValuePointer(String const *&) const override { return false; }
  bool getValuePointer(Array const *&) const override { return false; }
  bool getValue(NodeState &) const override { return false; }
  bool getValue(NodeOutcome &) const override { return false; }
  bool getValue(FailureType &) const override { return false; }
  bool getValue(CommandHandleValue &) const override { return false; }
};

// An expression showing the model
static inline Expression *mkExpr(M const &m) {
  switch (m.type) {
  case BOOLEAN_TYPE: return new ArgExpr<Boolean>(m.known, m.b);
  case INTEGER_TYPE: return new ArgExpr<Integer>(m.known, m.i);
  case REAL_TYPE: return new ArgExpr<Real>(m.known, m.d);
  case STRING_TYPE: { String s; for (int k = 0; k < m.len; ++k) s += m.s[k]; return new ArgExpr<String>(m.known, s); }
  case NODE_STATE_TYPE: return new ArgExpr<NodeState>(m.known, (NodeState)m.i);
  case OUTCOME_TYPE: return new ArgExpr<NodeOutcome>(m.known, (NodeOutcome)m.i);
  case FAILURE_TYPE: return new ArgExpr<FailureType>(m.known, (FailureType)m.i);
  case COMMAND_HANDLE_TYPE: return new ArgExpr<CommandHandleValue>(m.known, (CommandHandleValue)m.i);
  case BOOLEAN_ARRAY_TYPE: { std::unique_ptr<Array> a(mkArray(m)); return new ArgExpr<BooleanArray>(m.known, *static_cast<BooleanArray *>(a.get())); }
  case INTEGER_ARRAY_TYPE: { std::unique_ptr<Array> a(mkArray(m)); return new ArgExpr<IntegerArray>(m.known, *static_cast<IntegerArray *>(a.get())); }
  case REAL_ARRAY_TYPE: { std::unique_ptr<Array> a(mkArray(m)); return new ArgExpr<RealArray>(m.known, *static_cast<RealArray *>(a.get())); }
  case STRING_ARRAY_TYPE: { std::unique_ptr<Array> a(mkArray(m)); return new ArgExpr<StringArray>(m.known, *static_cast<StringArray *>(a.get())); }
  default: return new UntypedUnknown;
  }
}

template <class R> static inline Function *mkFn(Operator const *op, std::vector<Expression *> const &args, bool cached = false) {
  Function *f = cached ? makeCachedFunction(op, args.size()) : makeFunction(op, args.size());
  for (size_t i = 0; i < args.size(); ++i) f->setArgument(i, args[i], true);
  f->activate();
  return f;
}

static inline bool sameBits(double a, double b) { return a == b || (a != a && b != b); }
template <class T> static inline bool eqv(T const &a, T const &b) { return a == b; }
template <> inline bool eqv<double>(double const &a, double const &b) { return (a == b) | ((a != a) & (b != b)); }

// What the function shows through every accessor is (known, v)
template <class R> static inline void showsResult(Function *f, bool known, R const &v, R const &junk) {
  R r = junk;
  bool k = f->getValue(r);
  CHECK(k == known, "the result is known exactly when it should be");
  CHECK(!known | eqv(r, v), "the result has the right value");
  CHECK(f->isKnown() == known, "isKnown agrees");
  Value val = f->toValue();
  CHECK(val.isKnown() == known, "toValue agrees on known");
  R r2 = junk;
  if (known) CHECK(val.getValue(r2) && eqv(r2, v), "toValue agrees on the value");
}
#endif

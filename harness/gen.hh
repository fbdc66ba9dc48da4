// Symbolic generators of PLEXIL values with an independent model of what was generated.
#ifndef GEN_HH
#define GEN_HH
#include "sym.h"
#include "Value.hh"
#include "ArrayImpl.hh"
#include "Error.hh"
#include "PlanError.hh"
#include <cmath>
#include <string>
#include <vector>
using namespace PLEXIL;

// Models: M is what a user of the language sees of a value.
struct M {
  ValueType type = UNKNOWN_TYPE;
  bool known = false;
  bool b = false;
  int i = 0;      // Integer, and enumerations
  double d = 0;
  int len = 0;    // string/array length (concrete)
  char s[4] = {0, 0, 0, 0};
  bool ek[3] = {false, false, false};
  bool eb[3]; int ei[3]; double ed[3]; char es[3]; int esl[3];
};

static inline bool isNaN(double d) { return d != d; }

static const ValueType ALL_TYPES[] = {UNKNOWN_TYPE, BOOLEAN_TYPE, INTEGER_TYPE, REAL_TYPE, STRING_TYPE, BOOLEAN_ARRAY_TYPE, INTEGER_ARRAY_TYPE,
                                      REAL_ARRAY_TYPE, STRING_ARRAY_TYPE, NODE_STATE_TYPE, OUTCOME_TYPE, FAILURE_TYPE, COMMAND_HANDLE_TYPE};

// A value of the given type, content symbolic.  maxlen bounds strings and arrays.
// "stale": array elements made unknown after having held a value are generated too.
static inline M genModel(ValueType t, int minlen, int maxlen, bool nan = false) {
  M m;
  m.type = t;
  m.known = t != UNKNOWN_TYPE;
  switch (t) {
  case BOOLEAN_TYPE: m.b = sym_bool("b"); break;
  case INTEGER_TYPE: m.i = sym_int("i"); break;
  case REAL_TYPE: m.d = sym_double("d"); if (!nan) sym_assume(!isNaN(m.d)); break;
  case STRING_TYPE:
    m.len = minlen + sym_choose("len", maxlen - minlen + 1);
    for (int k = 0; k < m.len; ++k) m.s[k] = (char)sym_byte("c");
    break;
  case BOOLEAN_ARRAY_TYPE: case INTEGER_ARRAY_TYPE: case REAL_ARRAY_TYPE: case STRING_ARRAY_TYPE:
    m.len = minlen + sym_choose("len", maxlen - minlen + 1);
    for (int k = 0; k < m.len; ++k) {
      m.ek[k] = sym_bool("ek");
      if (t == BOOLEAN_ARRAY_TYPE) m.eb[k] = sym_bool("eb");
      if (t == INTEGER_ARRAY_TYPE) m.ei[k] = sym_int("ei");
      if (t == REAL_ARRAY_TYPE) { m.ed[k] = sym_double("ed"); if (!nan) sym_assume(!isNaN(m.ed[k])); }
      if (t == STRING_ARRAY_TYPE) { m.esl[k] = sym_choose("esl", 2); m.es[k] = (char)sym_byte("es"); }
    }
    break;
  case NODE_STATE_TYPE: m.i = sym_range("st", INACTIVE_STATE, ITERATION_ENDED_STATE); break;
  case OUTCOME_TYPE: m.i = sym_range("oc", SUCCESS_OUTCOME, INTERRUPTED_OUTCOME); break;
  case FAILURE_TYPE: m.i = sym_range("fl", PRE_CONDITION_FAILED, PARENT_EXITED); break;
  case COMMAND_HANDLE_TYPE: m.i = sym_range("ch", COMMAND_SENT_TO_SYSTEM, COMMAND_INTERFACE_ERROR); break;
  default: break;
  }
  return m;
}

static inline Value typedUnknown(ValueType t) { return Value(t); }

static inline Array *mkArray(M const &m) {
  switch (m.type) {
  case BOOLEAN_ARRAY_TYPE: {
    auto *a = new BooleanArray(m.len);
    for (int k = 0; k < m.len; ++k) { a->setElement(k, m.eb[k]); if (!m.ek[k]) a->setElementUnknown(k); }
    return a;
  }
  case INTEGER_ARRAY_TYPE: {
    auto *a = new IntegerArray(m.len);
    for (int k = 0; k < m.len; ++k) { a->setElement(k, m.ei[k]); if (!m.ek[k]) a->setElementUnknown(k); }
    return a;
  }
  case REAL_ARRAY_TYPE: {
    auto *a = new RealArray(m.len);
    for (int k = 0; k < m.len; ++k) { a->setElement(k, m.ed[k]); if (!m.ek[k]) a->setElementUnknown(k); }
    return a;
  }
  default: {
    auto *a = new StringArray(m.len);
    for (int k = 0; k < m.len; ++k) { a->setElement(k, String(m.esl[k], m.es[k])); if (!m.ek[k]) a->setElementUnknown(k); }
    return a;
  }
  }
}

static inline Value mkValue(M const &m) {
  if (!m.known) return Value(m.type);
  switch (m.type) {
  case BOOLEAN_TYPE: return Value((Boolean)m.b);
  case INTEGER_TYPE: return Value((Integer)m.i);
  case REAL_TYPE: return Value((Real)m.d);
  case STRING_TYPE: { String s; for (int k = 0; k < m.len; ++k) s += m.s[k]; return Value(s); }
  case NODE_STATE_TYPE: return Value((NodeState)m.i);
  case OUTCOME_TYPE: return Value((NodeOutcome)m.i);
  case FAILURE_TYPE: return Value((FailureType)m.i);
  case COMMAND_HANDLE_TYPE: return Value((CommandHandleValue)m.i);
  case BOOLEAN_ARRAY_TYPE: case INTEGER_ARRAY_TYPE: case REAL_ARRAY_TYPE: case STRING_ARRAY_TYPE: {
    Array *a = mkArray(m);
    Value v(*a);
    delete a;
    return v;
  }
  default: return Value();
  }
}

// Does v show exactly the model's content through its accessors?
static inline bool shows(Value const &v, M const &m) {
  if (v.isKnown() != m.known) return false;
  if (!m.known) return true;
  if (v.valueType() != m.type) return false;
  switch (m.type) {
  case BOOLEAN_TYPE: { Boolean x; return v.getValue(x) && x == m.b; }
  case INTEGER_TYPE: { Integer x; Real r; return v.getValue(x) && x == m.i && v.getValue(r) && r == (Real)m.i; }
  case REAL_TYPE: { Real x; return v.getValue(x) && (x == m.d || (isNaN(x) && isNaN(m.d))); }
  case STRING_TYPE: {
    String x; String const *p;
    if (!v.getValue(x) || !v.getValuePointer(p) || (int)x.size() != m.len || *p != x) return false;
    for (int k = 0; k < m.len; ++k) if (x[k] != m.s[k]) return false;
    return true;
  }
  case NODE_STATE_TYPE: { NodeState x; return v.getValue(x) && (int)x == m.i; }
  case OUTCOME_TYPE: { NodeOutcome x; return v.getValue(x) && (int)x == m.i; }
  case FAILURE_TYPE: { FailureType x; return v.getValue(x) && (int)x == m.i; }
  case COMMAND_HANDLE_TYPE: { CommandHandleValue x; return v.getValue(x) && (int)x == m.i; }
  default: {
    Array const *a;
    if (!v.getValuePointer(a) || (int)a->size() != m.len) return false;
    for (int k = 0; k < m.len; ++k) {
      if (a->elementKnown(k) != m.ek[k]) return false;
      Value ev = a->getElementValue(k);
      if (ev.isKnown() != m.ek[k]) return false;
      if (m.type == BOOLEAN_ARRAY_TYPE) { Boolean x; if (a->getElement(k, x) != m.ek[k]) return false; if (m.ek[k] && x != m.eb[k]) return false; }
      if (m.type == INTEGER_ARRAY_TYPE) { Integer x; if (a->getElement(k, x) != m.ek[k]) return false; if (m.ek[k] && x != m.ei[k]) return false; }
      if (m.type == REAL_ARRAY_TYPE) { Real x; if (a->getElement(k, x) != m.ek[k]) return false; if (m.ek[k] && !(x == m.ed[k] || (isNaN(x) && isNaN(m.ed[k])))) return false; }
      if (m.type == STRING_ARRAY_TYPE) {
        String x;
        if (a->getElement(k, x) != m.ek[k]) return false;
        if (m.ek[k] && !((int)x.size() == m.esl[k] && (m.esl[k] == 0 || x[0] == m.es[k]))) return false;
      }
    }
    return true;
  }
  }
}

// Equality as a user of the language sees it
static inline bool sameModel(M const &a, M const &b) {
  if (a.known != b.known) return false;
  bool na = a.type == INTEGER_TYPE || a.type == REAL_TYPE, nb = b.type == INTEGER_TYPE || b.type == REAL_TYPE;
  if (na && nb) {
    if (!a.known) return true;
    if (a.type == INTEGER_TYPE && b.type == INTEGER_TYPE) return a.i == b.i;
    double x = a.type == INTEGER_TYPE ? (double)a.i : a.d, y = b.type == INTEGER_TYPE ? (double)b.i : b.d;
    return x == y;
  }
  if (a.type != b.type) return false;
  if (!a.known) return true;
  // no branches on the content: the solver sees one condition
  bool r = true;
  switch (a.type) {
  case BOOLEAN_TYPE: return a.b == b.b;
  case STRING_TYPE:
    if (a.len != b.len) return false;
    for (int k = 0; k < a.len; ++k) r &= a.s[k] == b.s[k];
    return r;
  case NODE_STATE_TYPE: case OUTCOME_TYPE: case FAILURE_TYPE: case COMMAND_HANDLE_TYPE: return a.i == b.i;
  default:
    if (a.len != b.len) return false;
    for (int k = 0; k < a.len; ++k) {
      r &= a.ek[k] == b.ek[k];
      bool same = true;
      if (a.type == BOOLEAN_ARRAY_TYPE) same = a.eb[k] == b.eb[k];
      if (a.type == INTEGER_ARRAY_TYPE) same = a.ei[k] == b.ei[k];
      if (a.type == REAL_ARRAY_TYPE) same = a.ed[k] == b.ed[k];
      if (a.type == STRING_ARRAY_TYPE) same = a.esl[k] == b.esl[k] && (a.esl[k] == 0 || a.es[k] == b.es[k]);
      r &= !a.ek[k] | same;
    }
    return r;
  }
}
static inline void throwOnErrors() { Error::doThrowExceptions(); PlanError::doThrowExceptions(); }
#endif

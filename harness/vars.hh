// Listeners and helpers for the variable properties
#ifndef VARS_HH
#define VARS_HH
#include "expr.hh"
#include "UserVariable.hh"
#include "ArrayVariable.hh"
#include "ArrayReference.hh"
#include "Alias.hh"
#include "Constant.hh"
#include "ExpressionListener.hh"
struct Counter : ExpressionListener {
  int n = 0;
  void notifyChanged() override { ++n; }
};
#endif

/*META
dict(
  srcs=['expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  bounds={'quick': 'two expressions of depth up to 3 over three shared variables (Boolean: NOT, AND, OR, XOR, EQ, NE, IsKnown, aliases, array references; Integer: ADD, comparisons; the variables possibly repeated), each with one or two listeners; '
          'every sequence of 2 steps: assigning one variable any known or unknown value, removing or adding a listener, leaving or entering one of the expressions; then assigning one variable',
          'thorough': 'as quick with sequences of 3 steps'},
)
META*/
#include "vars.hh"
#include "BooleanOperators.hh"
#include "Comparisons.hh"
#include "ArithmeticOperators.hh"
#include "ArrayOperators.hh"
#ifdef TIER_THOROUGH
enum { STEPS = 3 };
#else
enum { STEPS = 2 };
#endif

struct B3 { bool known, v; };
struct World {
  BooleanVariable *b[2]; IntegerVariable *i; BooleanArrayVariable *a;
  B3 vb[2]; bool ik; int iv; B3 va[2];
};
static B3 kand(B3 x, B3 y) { B3 r; r.v = x.v & y.v & x.known & y.known; r.known = (x.known & y.known) | (x.known & !x.v) | (y.known & !y.v); return r; }
static B3 kor(B3 x, B3 y) { B3 r; r.v = (x.known & x.v) | (y.known & y.v); r.known = (x.known & y.known) | r.v; return r; }
static B3 kxor(B3 x, B3 y) { B3 r; r.known = x.known & y.known; r.v = r.known & (x.v != y.v); return r; }

// An expression tree, described by numbers so that the model can evaluate it
struct Tree { int op; int l, r; };   // op: 0 var0, 1 var1, 2 alias of var1, 3 element a[i], 4 i<5 , 5 i+i==i , 6 NOT l, 7 AND, 8 OR, 9 XOR, 10 IsKnown l, 11 EQ l r, 12 alias of NOT var0
static Expression *leaf(World &w, int k) {
  switch (k) {
  case 0: return w.b[0];
  case 1: return w.b[1];
  case 2: return new Alias("al", w.b[1], false);
  case 3: return new ArrayReference(w.a, w.i);
  case 4: { auto *f = makeFunction(LessThan<Integer>::instance(), 2); f->setArgument(0, w.i, false); f->setArgument(1, new Constant<Integer>(5), true); return f; }
  case 5: { auto *s = makeFunction(Addition<Integer>::instance(), 2); s->setArgument(0, w.i, false); s->setArgument(1, w.i, false);
            auto *f = makeFunction(Equal::instance(), 2); f->setArgument(0, s, true); f->setArgument(1, w.i, false); return f; }
  default: { auto *s = makeFunction(BooleanNot::instance(), 1); s->setArgument(0, w.b[0], false); return new Alias("an", s, true); }
  }
}
static B3 leafV(World const &w, int k) {
  switch (k) {
  case 0: return w.vb[0];
  case 1: case 2: return w.vb[1];
  case 3: { B3 r{false, false}; if (w.ik) r = w.va[w.iv]; return r; }
  case 4: return B3{w.ik, w.iv < 5};
  case 5: return B3{w.ik, w.iv == 0};
  default: { B3 r = w.vb[0]; r.v = !r.v; return r; }
  }
}
static Expression *node(int op, Expression *l, Expression *r) {
  Function *f;
  switch (op) {
  case 0: return l;
  case 1: f = makeFunction(BooleanNot::instance(), 1); f->setArgument(0, l, true); return f;
  case 2: f = makeFunction(BooleanAnd::instance(), 2); break;
  case 3: f = makeFunction(BooleanOr::instance(), 2); break;
  case 4: f = makeFunction(BooleanXor::instance(), 3); f->setArgument(2, new Constant<Boolean>(true), true); break;
  case 5: f = makeFunction(IsKnown::instance(), 1); f->setArgument(0, l, true); return f;
  default: f = makeFunction(Equal::instance(), 2); break;
  }
  f->setArgument(0, l, true); f->setArgument(1, r, true);
  return f;
}
static B3 nodeV(int op, B3 l, B3 r) {
  switch (op) {
  case 0: return l;
  case 1: l.v = !l.v; return l;
  case 2: return kand(l, r);
  case 3: return kor(l, r);
  case 4: return kxor(kxor(l, r), B3{true, true});
  case 5: return B3{true, l.known};
  default: { B3 x = kxor(l, r); x.v = !x.v; return x; }
  }
}
static void checkV(Expression *e, B3 w) {
  bool r = false;
  bool k = e->getValue(r);
  CHECK(k == w.known, "the expression shows its value");
  CHECK(!k | (r == w.v), "the expression shows its value");
  CHECK(e->isKnown() == w.known, "isKnown agrees");
}

static void run(int shape) {
  throwOnErrors();
  World w;
  w.b[0] = new BooleanVariable("b0"); w.b[1] = new BooleanVariable("b1"); w.i = new IntegerVariable("i");
  w.a = new BooleanArrayVariable("a", new Constant<Integer>(2), true);
  // the node declaring the variables is active throughout
  for (int k = 0; k < 2; ++k) { w.b[k]->activate(); w.vb[k] = B3{false, false}; w.va[k] = B3{false, false}; }
  w.i->activate(); w.a->activate(); w.ik = false; w.iv = 0;
  int op[2], l[2], r[2], top[2];
  Expression *e[2];
  auto value = [&](int k) { return nodeV(top[k], nodeV(op[k], leafV(w, l[k]), leafV(w, r[k])), leafV(w, l[k])); };
  for (int k = 0; k < 2; ++k) {
    static const int RR[] = {0, 1, 3, 5};
    if (shape == 0) { top[k] = 0; op[k] = k ? 2 : sym_choose("op", 7); l[k] = k ? 0 : sym_choose("l", 7); r[k] = k ? 1 : RR[sym_choose("r", 4)]; }
    else { static const int L[] = {0, 2, 3}, R[] = {3, 6, 4}, TT[] = {1, 2, 6};
      top[k] = k ? 1 : TT[sym_choose("top", 3)]; op[k] = k ? 4 : 2 + sym_choose("op", 3); l[k] = k ? 3 : L[sym_choose("l", 3)]; r[k] = k ? 2 : R[sym_choose("r", 3)]; }
    bool useR = op[k] != 0 && op[k] != 1 && op[k] != 5;
    if (!useR && r[k]) return;
    Expression *mid = node(op[k], leaf(w, l[k]), useR ? leaf(w, r[k]) : nullptr);
    e[k] = top[k] == 0 ? mid : node(top[k], mid, leaf(w, l[k]));
  }
  Counter c[2][2];
  bool on[2][2] = {{true, false}, {true, true}};
  for (int k = 0; k < 2; ++k) { e[k]->addListener(&c[k][0]); e[k]->activate(); }
  e[1]->addListener(&c[1][1]);
  bool act[2] = {true, true};
  // any values to begin with
  for (int k = 0; k < 2; ++k) {
    B3 v{(bool)sym_bool("k0"), (bool)sym_bool("v0")};
    w.b[k]->setValue(v.known ? Value((Boolean)v.v) : Value()); w.vb[k] = v;
    if (shape == 0 && k == 0) { w.b[1]->setValue(Value((Boolean)true)); w.vb[1] = B3{true, true}; break; }
  }
  if (shape == 1 || l[0] == 3 || r[0] == 3) w.a->setElement(0, Value((Boolean)true)), w.va[0] = B3{true, true};
  checkV(e[0], value(0));
  for (int s = 0; s < STEPS; ++s) {
    B3 before[2] = {value(0), value(1)};
    int n[2][2];
    for (int k = 0; k < 2; ++k) for (int j = 0; j < 2; ++j) n[k][j] = c[k][j].n;
    bool cmp = true;
    switch (sym_choose("step", s == STEPS - 1 ? 3 : 7)) {   // the last step changes a value
    case 0: { int k = sym_choose("var", 2); B3 v{(bool)sym_bool("k"), (bool)sym_bool("v")};
              w.b[k]->setValue(v.known ? Value((Boolean)v.v) : Value((BOOLEAN_TYPE))); w.vb[k] = v; break; }
    case 1: { bool k = sym_bool("k"); int v = (l[0] == 4 || l[0] == 5 || (r[0] == 4 || r[0] == 5)) && l[0] != 3 && r[0] != 3 && l[1] != 3 ? sym_int("iv") : sym_choose("idx", 2);
              w.i->setValue(k ? Value((Integer)v) : Value()); w.ik = k; w.iv = v; break; }
    case 2: { int k = sym_choose("elt", 2); B3 v{(bool)sym_bool("k"), (bool)sym_bool("v")};
              if (v.known) w.a->setElement(k, Value((Boolean)v.v)); else w.a->setElementUnknown(k);
              w.va[k] = v; break; }
    case 3: e[1]->removeListener(&c[1][1]); on[1][1] = false; sym_reach("remove"); break;
    case 4: { int k = sym_choose("who", 2); e[k]->removeListener(&c[k][0]); on[k][0] = false; break; }
    case 5: { int k = sym_choose("who", 2); e[k]->addListener(&c[k][0]); on[k][0] = true; sym_reach("add"); break; }
    default: { int k = sym_choose("who", 2);
               if (act[k]) e[k]->deactivate(); else e[k]->activate();
               act[k] = !act[k]; cmp = false; sym_reach("activation"); break; }
    }
    for (int k = 0; k < 2; ++k) {
      if (!act[k]) continue;
      B3 now = value(k);
      checkV(e[k], now);
      bool ch = (before[k].known != now.known) | (now.known & before[k].known & (before[k].v != now.v));
      for (int j = 0; j < 2; ++j) {
        bool told = c[k][j].n > n[k][j];
        if (on[k][j] && cmp) CHECK(!ch | told, "a change of the expression's value is announced to each listener");
        if (!on[k][j]) CHECK(!told, "a removed listener is not called");
      }
      if (ch) sym_reach("changed");
    }
  }
  for (int k = 0; k < 2; ++k) for (int j = 0; j < 2; ++j) e[k]->removeListener(&c[k][j]);
  sym_reach("done");
}
SYM_TARGET(flat, "remove,add,activation,changed,done") { run(0); }
SYM_TARGET(nested, "remove,add,activation,changed,done") { run(1); }

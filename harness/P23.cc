/*META
dict(
  srcs=['intfc/*.cc', 'expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  bounds={'quick': 'pairs: names of length 0 to 2 (any bytes but NUL), 0 to 2 parameters of the types untyped, Boolean, Integer, Real, String (length up to 1), Integer array (length up to 1), known or unknown (with two parameters: Integer, String, untyped); triples: names of length 1, up to 1 parameter of types Integer, Real, String, or unknown; '
          'a map of up to 3 such states (one Integer parameter) and every following lookup', 'thorough': 'two parameters of types Boolean, Integer, Real; triples with up to 2 parameters, 4 states in the map'},
  assumptions=['Real NaN is outside the claim'],
)
META*/
#include "gen.hh"
#include "State.hh"
#include <map>
#include <set>
#ifdef TIER_THOROUGH
enum { TPAR = 2, MAPN = 4 };
#else
enum { TPAR = 1, MAPN = 3 };
#endif
#ifdef TIER_THOROUGH
static ValueType const T3[] = {BOOLEAN_TYPE, INTEGER_TYPE, REAL_TYPE};
#else
static ValueType const T3[] = {INTEGER_TYPE, STRING_TYPE, UNKNOWN_TYPE};
#endif
struct SM { std::string name; int n; M p[2]; };
static SM gen(int minName, int maxName, int maxPar, ValueType const *types, int nt) {
  SM s;
  int len = minName + sym_choose("name length", maxName - minName + 1);
  for (int i = 0; i < len; ++i) { unsigned char c = sym_byte("name"); sym_assume(c != 0); s.name.push_back((char)c); }
  s.n = sym_choose("parameters", maxPar + 1);
  for (int i = 0; i < s.n; ++i) {
    ValueType t = s.n == 2 && nt == 6 ? T3[sym_choose("type", 3)] : types[sym_choose("type", nt)];
    if (t == UNKNOWN_TYPE || sym_choose("known", 2)) s.p[i] = genModel(t, 0, 1);
    else s.p[i].type = t;
  }
  return s;
}
static State mk(SM const &s) {
  // by any of the ways to build one
  std::vector<Value> v; for (int i = 0; i < s.n; ++i) v.push_back(mkValue(s.p[i]));
  if (s.n == 0) return State(s.name);
  if (s.n == 1) return State(s.name, v[0]);
  return State(s.name, v[0], v[1]);
}
static State mk2(SM const &s) {
  State x(s.name, s.n); for (int i = 0; i < s.n; ++i) x.setParameter(i, mkValue(s.p[i]));
  State y(x), z("other", Value((Integer)5)); z = y; State w(std::move(y)); State q; q = std::move(w);
  return q;
}
static int sameM(SM const &a, SM const &b) {
  if (a.n != b.n || a.name.size() != b.name.size()) return 0;
  int r = 1;
  for (size_t i = 0; i < a.name.size(); ++i) r &= a.name[i] == b.name[i];
  for (int i = 0; i < a.n; ++i) r &= sameModel(a.p[i], b.p[i]);
  return r;
}
static ValueType const T6[] = {UNKNOWN_TYPE, BOOLEAN_TYPE, INTEGER_TYPE, REAL_TYPE, STRING_TYPE, INTEGER_ARRAY_TYPE}, T4[] = {UNKNOWN_TYPE, INTEGER_TYPE, REAL_TYPE, STRING_TYPE}, T1[] = {INTEGER_TYPE};
SYM_TARGET(pair, "equal,less,greater") {
  throwOnErrors();
  SM ma = gen(0, 2, 2, T6, 6), mb;
  mb = gen((int)ma.name.size(), (int)ma.name.size(), ma.n, T6, 6);   // same lengths: otherwise see shape
  State a = mk(ma), b = mk2(mb);
  bool eq = a == b, lt = a < b, gt = b < a;
  CHECK(eq == sameM(ma, mb), "two states are equal exactly when names and parameters are");
  CHECK((b == a) == eq, "equality is symmetric");
  CHECK((eq ^ lt ^ gt) & !(eq & lt & gt), "exactly one of less, equal, greater");
  CHECK((a != b) == !eq, "unequal is the opposite of equal");
  if (eq) sym_reach("equal"); else if (lt) sym_reach("less"); else sym_reach("greater");
}
SYM_TARGET(content, "built") {
  SM m = gen(0, 2, 2, T6, 6);
  State a = mk(m), b = mk2(m);
  CHECK(a == b, "a state is the same however it was built");
  CHECK(a.name().size() == m.name.size() && a.parameterCount() == (size_t)m.n, "a state keeps its name and number of parameters");
  for (int i = 0; i < m.n; ++i) {
    CHECK(shows(b.parameter(i), m.p[i]), "a state keeps its parameters");
    CHECK(b.isParameterKnown(i) == m.p[i].known, "a state keeps its parameters");
    CHECK(b.parameterType(i) == b.parameters()[i].valueType(), "a state tells the type of a parameter");
  }
  CHECK(!b.isParameterKnown(m.n) && b.parameterType(m.n) == UNKNOWN_TYPE && !b.parameter(m.n).isKnown(), "a parameter which is not there is unknown");
  if (m.n) {
    M other; other.type = INTEGER_TYPE; other.known = true; other.i = 42;
    b.setParameter(0, mkValue(other));
    CHECK(shows(b.parameter(0), other) && (m.n < 2 || shows(b.parameter(1), m.p[1])), "setting one parameter changes just that one");
    CHECK(shows(a.parameter(0), m.p[0]), "copies are independent");
  }
  sym_reach("built");
}
SYM_TARGET(triple, "chain") {
  throwOnErrors();
  SM m[3]; for (auto &x : m) x = gen(1, 1, TPAR, T4, 4);
  State a = mk(m[0]), b = mk(m[1]), c = mk(m[2]);
  bool ab = a < b, bc = b < c, eab = a == b, ebc = b == c, ac = a < c, eac = a == c;
  CHECK(!(ab && bc) || ac, "less is transitive");
  CHECK(!(eab && ebc) || eac, "equality is transitive");
  CHECK(!(eab && bc) || ac, "equals are interchangeable in less");
  CHECK(!(ab && ebc) || ac, "equals are interchangeable in less");
  sym_reach("chain");
}
// States of different shape: name lengths and parameter counts
SYM_TARGET(shape, "different") {
  throwOnErrors();
  SM ma = gen(0, 2, 2, T1, 1), mb = gen(0, 2, 2, T1, 1);
  State a = mk(ma), b = mk(mb);
  bool eq = a == b, lt = a < b, gt = b < a;
  CHECK(eq == sameM(ma, mb), "two states are equal exactly when names and parameters are");
  CHECK((eq ^ lt ^ gt) & !(eq & lt & gt), "exactly one of less, equal, greater");
  sym_reach("different");
}
SYM_TARGET(keys, "found,missing") {
  throwOnErrors();
  std::map<State, int> map; SM m[MAPN]; int who[MAPN]; int n = 0;
  for (int i = 0; i < MAPN; ++i) {
    m[i] = gen(1, 1, 1, T1, 1);
    int w = -1;
    for (int j = 0; j < n; ++j) { if (sameM(m[i], m[j])) { w = who[j]; break; } }
    auto r = map.emplace(mk(m[i]), i);
    who[n++] = w < 0 ? i : w;
    CHECK(r.second == (w < 0) && r.first->second == who[i], "states are kept apart exactly when they differ");
  }
  SM q = gen(1, 1, 1, T1, 1);
  int w = -1; for (int j = 0; j < n; ++j) if (sameM(q, m[j])) { w = who[j]; break; }
  auto it = map.find(mk2(q));
  CHECK((it != map.end()) == (w >= 0) && (w < 0 || it->second == w), "a state is found exactly when it was entered");
  sym_reach(w >= 0 ? "found" : "missing");
}

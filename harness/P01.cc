/*META
dict(
  srcs=['value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  targets={},
  bounds='pairs: all 13 value types, known and unknown; strings and arrays of length 0..2, string elements of length 0..1, all element-known masks; '
         'triples: representative types (untyped, Boolean, Integer, Real, String, Integer array), length <= 1; Reals exclude NaN',
  assumptions=['Real NaN is outside the claim (it is not a PLEXIL value the parser or the operators produce)'],
)
META*/
#include "gen.hh"

static void pairLaws(Value const &a, Value const &b, M const &ma, M const &mb) {
  bool eq = a == b, lt = a < b, gt = b < a;
  CHECK(eq == sameModel(ma, mb), "equal exactly when the contents are equal");
  CHECK((b == a) == eq, "equality is symmetric");
  CHECK((eq ^ lt ^ gt) & !(eq & lt & gt), "exactly one of less, equal, greater");
  CHECK(((a != b) == !eq) & ((a > b) == gt) & ((a <= b) == (lt | eq)) & ((a >= b) == (gt | eq)), "derived comparisons agree");
}

static M genAny(int minlen, int maxlen, ValueType const *types, int n) {
  ValueType t = types[sym_choose("type", n)];
  if (t != UNKNOWN_TYPE && sym_choose("typed_unknown", 2)) { M m; m.type = t; return m; }
  return genModel(t, minlen, maxlen);
}

#ifdef TIER_THOROUGH
enum { LEN = 3 };
#else
enum { LEN = 2 };
#endif

// Every pair of values of any two types
SYM_TARGET(pair, "equal,less,greater") {
  throwOnErrors();
  ValueType ta = ALL_TYPES[sym_choose("type", 13)], tb = ALL_TYPES[sym_choose("type", 13)];
  M ma, mb;
  ma.type = ta; mb.type = tb;
  bool sameKind = ta == tb;
  if (ta != UNKNOWN_TYPE && sym_choose("known", 2)) ma = genModel(ta, sameKind ? 0 : 1, sameKind ? LEN : 1);
  if (tb != UNKNOWN_TYPE && sym_choose("known", 2)) mb = genModel(tb, sameKind ? 0 : 1, sameKind ? LEN : 1);
  Value a = mkValue(ma), b = mkValue(mb);
  pairLaws(a, b, ma, mb);
  if (a == b) sym_reach("equal"); else if (a < b) sym_reach("less"); else sym_reach("greater");
}

// Transitivity
static const ValueType TRI[] = {UNKNOWN_TYPE, BOOLEAN_TYPE, INTEGER_TYPE, REAL_TYPE, STRING_TYPE, INTEGER_ARRAY_TYPE};
SYM_TARGET(triple, "chain") {
  throwOnErrors();
  M m[3];
  for (int k = 0; k < 3; ++k) m[k] = genAny(0, 1, TRI, 6);
  Value a = mkValue(m[0]), b = mkValue(m[1]), c = mkValue(m[2]);
  bool ab = a < b, bc = b < c, eab = a == b, ebc = b == c;
  bool ac = a < c, eac = a == c;
  CHECK(!(ab && bc) || ac, "less is transitive");
  CHECK(!(eab && ebc) || eac, "equality is transitive");
  CHECK(!(eab && bc) || ac, "equality is a congruence for less (left)");
  CHECK(!(ab && ebc) || ac, "equality is a congruence for less (right)");
  sym_reach("chain");
}

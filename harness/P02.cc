/*META
dict(
  srcs=['value/*.cc', 'intfc/State.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  targets={},
  bounds={'quick': 'every scalar value; strings of length 0..3; arrays of length 0..3 with every element and element-known mask symbolic (string elements of length 0..1); '
                   'arrays of lengths 7..9, 15..17, 127..129, 255..257 and 300 and strings of length 127..129, 255..257, 32768, 65535, 65536 with one symbolic position; states with 0..2 symbolic parameters',
          'thorough': 'as quick, with arrays of lengths up to 65536 and states with up to 3 parameters'},
)
META*/
#include "gen.hh"
#include "State.hh"
#include <cstring>

static bool serializable(ValueType t) { return t != NODE_STATE_TYPE && t != OUTCOME_TYPE && t != FAILURE_TYPE; }

static char g_buf[2000000];

// write, check the size and the byte after, read back into dst
template <class T> static void roundTrip(T const &v, T &dst, char const *what) {
  size_t n = v.serialSize();
  CHECK(n > 0 && n + 1 < sizeof g_buf, "size of a serializable object is positive");
  g_buf[n] = 0x5a;
  char *e = v.serialize(g_buf);
  CHECK(e == g_buf + n, "serialize writes exactly the announced number of bytes");
  CHECK(g_buf[n] == 0x5a, "nothing is written past the announced size");
  char const *r = dst.deserialize(g_buf);
  CHECK(r == g_buf + n, "deserialize consumes exactly what was written");
  CHECK(dst == v, "what is read back equals what was written");
  (void)what;
}

// a destination that may have held something else
static Value oldValue() {
  switch (sym_choose("old", 5)) {
  case 0: return Value();
  case 1: return Value((Integer)7);
  case 2: return Value(String("old"));
  case 3: { IntegerArray a(2, 9); return Value(a); }
  default: { StringArray a(1, "zz"); return Value(a); }
  }
}

SYM_TARGET(value, "unknown,known") {
  throwOnErrors();
  ValueType t = ALL_TYPES[sym_choose("type", 13)];
  M m;
  m.type = t;
  bool known = t != UNKNOWN_TYPE && sym_choose("known", 2);
  if (known) m = genModel(t, 0, 3);
  Value v = mkValue(m);
  if (known && !serializable(t)) {
    CHECK(v.serialSize() == 0 && v.serialize(g_buf) == nullptr, "what cannot be serialized says so");
    return;
  }
  Value dst = oldValue();
  if (!known) {
    CHECK(v.serialSize() == 1, "unknown takes one byte");
    CHECK(v.serialize(g_buf) == g_buf + 1, "unknown writes one byte");
    CHECK(dst.deserialize(g_buf) == g_buf + 1 && !dst.isKnown(), "unknown reads back unknown");
    sym_reach("unknown");
    return;
  }
  roundTrip(v, dst, "value");
  CHECK(shows(dst, m), "the accessors of what is read back show what was written");
  sym_reach("known");
}

// Typed entry points: the wrong type is refused
SYM_TARGET(typed, "refused,accepted") {
  throwOnErrors();
  static const ValueType T[] = {BOOLEAN_TYPE, INTEGER_TYPE, REAL_TYPE, STRING_TYPE, COMMAND_HANDLE_TYPE, BOOLEAN_ARRAY_TYPE, INTEGER_ARRAY_TYPE, REAL_ARRAY_TYPE, STRING_ARRAY_TYPE};
  ValueType t = T[sym_choose("type", 9)];
  M m = genModel(t, 0, 1);
  Value v = mkValue(m);
  CHECK(v.serialize(g_buf) == g_buf + v.serialSize(), "serialized");
  ValueType u = T[sym_choose("as", 9)];
  char const *r = nullptr;
  bool same = true;
  switch (u) {
  case BOOLEAN_TYPE: { Boolean x = false; r = deserialize(x, g_buf); if (r) same = x == m.b; break; }
  case INTEGER_TYPE: { Integer x = 0; r = deserialize(x, g_buf); if (r) same = x == m.i; break; }
  case REAL_TYPE: { Real x = 0; r = deserialize(x, g_buf); if (r) same = x == m.d; break; }
  case STRING_TYPE: { String x("q"); r = deserialize(x, g_buf); if (r) same = Value(x) == v; break; }
  case COMMAND_HANDLE_TYPE: { CommandHandleValue x = NO_COMMAND_HANDLE; r = deserialize(x, g_buf); if (r) same = (int)x == m.i; break; }
  case BOOLEAN_ARRAY_TYPE: { BooleanArray x(2, true); r = x.deserialize(g_buf); if (r) same = Value(x) == v; break; }
  case INTEGER_ARRAY_TYPE: { IntegerArray x(2, 5); r = x.deserialize(g_buf); if (r) same = Value(x) == v; break; }
  case REAL_ARRAY_TYPE: { RealArray x(2, 5); r = x.deserialize(g_buf); if (r) same = Value(x) == v; break; }
  default: { StringArray x(2, "o"); r = x.deserialize(g_buf); if (r) same = Value(x) == v; break; }
  }
  if (u == t) { CHECK(r == g_buf + v.serialSize() && same, "the right type reads back"); sym_reach("accepted"); }
  else { CHECK(r == nullptr, "the wrong type is refused"); sym_reach("refused"); }
}

static const int LENS[] = {7, 8, 9, 15, 16, 17, 127, 128, 129, 255, 256, 257, 300
#ifdef TIER_THOROUGH
  , 4095, 32767, 32768, 65535, 65536
#endif
};
// Long arrays: sizes of several bytes, bit vectors of several bytes
template <class T> static void longArray(T fill, T probe, bool probeKnown) {
  int n = LENS[sym_choose("len", sizeof LENS / sizeof *LENS)];
  int where = sym_choose("pos", 4);
  int pos = where == 0 ? 0 : where == 1 ? n / 2 : where == 2 ? n - 2 : n - 1;
  ArrayImpl<T> a((size_t)n, fill);
  for (int i = 2; i < n; i += 3) a.setElementUnknown(i); // a pattern of unknowns
  a.setElement(pos, probe);
  if (!probeKnown) a.setElementUnknown(pos);
  ArrayImpl<T> b((size_t)3, fill);
  roundTrip<Array>(a, b, "array");
  CHECK((int)b.size() == n, "length");
  T x;
  CHECK(b.getElement(pos, x) == probeKnown && (!probeKnown || x == probe), "element");
  sym_reach("read");
}
SYM_TARGET(long_bool, "read") { throwOnErrors(); bool k = sym_choose("known", 2); longArray<Boolean>(true, sym_bool("e"), k); }
SYM_TARGET(long_int, "read") { throwOnErrors(); bool k = sym_choose("known", 2); longArray<Integer>(-3, sym_int("e"), k); }
SYM_TARGET(long_real, "read") { throwOnErrors(); bool k = sym_choose("known", 2); double d = sym_double("e"); sym_assume(!isNaN(d)); longArray<Real>(2.5, d, k); }
SYM_TARGET(long_string, "read") {
  throwOnErrors();
  bool k = sym_choose("known", 2);
  String s;
  int n = sym_choose("elen", 3);
  for (int i = 0; i < n; ++i) s += (char)sym_byte("e");
  longArray<String>("ab", s, k);
}
SYM_TARGET(long_text, "read") {
  throwOnErrors();
  static const int L[] = {127, 128, 129, 255, 256, 257, 32768, 65535, 65536};
  int n = L[sym_choose("len", 9)];
  int where = sym_choose("pos", 3);
  int pos = where == 0 ? 0 : where == 1 ? n / 2 : n - 1;
  String s((size_t)n, 'x');
  s[pos] = (char)sym_byte("c");
  Value v(s), w = oldValue();
  roundTrip(v, w, "string");
  sym_reach("read");
}

SYM_TARGET(state, "read") {
  throwOnErrors();
  static const ValueType T[] = {UNKNOWN_TYPE, BOOLEAN_TYPE, INTEGER_TYPE, REAL_TYPE, STRING_TYPE, INTEGER_ARRAY_TYPE};
#ifdef TIER_THOROUGH
  int n = sym_choose("n", 4);
#else
  int n = sym_choose("n", 3);
#endif
  String name;
  int nl = sym_choose("namelen", 3);
  for (int i = 0; i < nl; ++i) name += (char)sym_byte("name");
  State s(name, (size_t)n);
  M m[3];
  for (int i = 0; i < n; ++i) {
    ValueType t = T[sym_choose("type", 6)];
    if (t != UNKNOWN_TYPE) m[i] = genModel(t, 0, 1);
    s.setParameter((size_t)i, mkValue(m[i]));
  }
  State d;
  if (sym_choose("olddst", 2)) { d = State("other", (size_t)2); d.setParameter(0, Value(String("p"))); d.setParameter(1, Value((Integer)1)); }
  roundTrip(s, d, "state");
  CHECK(d.name() == name && (int)d.parameterCount() == n, "name and count");
  for (int i = 0; i < n; ++i) CHECK(shows(d.parameters()[i], m[i]), "parameter");
  sym_reach("read");
}

SYM_TARGET(manyparams, "read") {
  throwOnErrors();
  static const int L[] = {127, 128, 255, 256, 257, 300};
  int n = L[sym_choose("n", 6)];
  State s(String("s"), (size_t)n);
  for (int i = 0; i < n; ++i) s.setParameter((size_t)i, Value((Integer)i));
  int i = sym_int("v");
  s.setParameter((size_t)(n - 1), Value((Integer)i));
  State d;
  roundTrip(s, d, "state");
  sym_reach("read");
}

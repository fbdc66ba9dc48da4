// Runtime of the symbolic engine: expression DAG, shadow memory, path
// condition, Z3 lowering, path exploration.  See DESIGN.md "The engine".
#include <execinfo.h>
#include "sym.h"
#include <z3.h>
#include <algorithm>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <set>
#include <string>
#include <functional>
#include <atomic>
#include <algorithm>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op {
  OP_ADD = 1, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR,
  OP_AND, OP_OR, OP_XOR,
  OP_FADD = 20, OP_FSUB, OP_FMUL, OP_FDIV, OP_FREM, OP_FMIN, OP_FMAX, OP_FCOPYSIGN,
  OP_ZEXT = 40, OP_SEXT, OP_TRUNC, OP_FPTOUI, OP_FPTOSI, OP_UITOFP, OP_SITOFP, OP_FPTRUNC, OP_FPEXT,
  OP_FNEG = 60, OP_FABS, OP_FSQRT, OP_FFLOOR, OP_FCEIL, OP_FTRUNC, OP_FRINT, OP_FROUND,
  OP_BSWAP, OP_CTPOP, OP_CTLZ, OP_CTTZ, OP_ABS,
  OP_SMIN = 80, OP_SMAX, OP_UMIN, OP_UMAX,
  // internal
  OP_CONST = 100, OP_VAR, OP_EXTRACT, OP_CONCAT, OP_ICMP, OP_FCMP, OP_ITE, OP_FCLASS, OP_OVF,
};
enum { EQ = 32, NE, UGT, UGE, ULT, ULE, SGT, SGE, SLT, SLE };

struct FnInfo { void *fn; const char *name; u64 idx; };

struct Ex {
  uint16_t op;
  u8 bits;
  u8 fp; // depends on a floating point operation
  u32 id;
  u64 imm;
  u64 val;
  Ex *a, *b, *c;
  u64 h1, h2; // structural hash, the same in every path and worker
};

extern "C" {
Ex *__sy_args[96];
void *__sy_argtag;
Ex *__sy_rets[16];
void *__sy_rettag;
}

static bool g_active = false;
static bool g_formatExact = false;
static std::vector<FnInfo *> g_fns;
static std::unordered_map<void *, FnInfo *> g_fnByPtr;
static u8 *g_hit; // shared: functions that handled symbolic data
static FILE *g_dbg = nullptr;

// ------------------------------------------------------------------ child state
struct Event {
  enum Kind { BR, VAL, SW, ASSUME } k;
  Ex *cond;   // BR/ASSUME: 1 bit; VAL/SW: the value
  u64 taken;  // concrete
  const u64 *cases; u32 n;
  const char *where;
};
struct Asrt { Ex *cond; u32 pos; const char *label; };

static std::vector<Event> g_pc;
static std::vector<Asrt> g_asserts;
static std::map<std::string, u32> g_reached;
static std::map<std::string, u32> g_assertCount; // label -> times evaluated
static std::map<std::string, u64> g_inputs; // assignment for this run
struct Var { std::string name; u32 bits; u64 val; Ex *e; u64 hash; };
static std::vector<Var> g_vars;
static std::map<std::string, int> g_varCount;
static u64 g_ops, g_concs, g_dropped, g_nodes;
static std::string g_notes;
static u32 g_bound; static u64 g_boundHash; static bool g_diverged;
static u64 g_hash = 1469598103934665603ull;
static std::unordered_set<u64> g_known; // (id<<1|taken) already in the path condition
static std::vector<std::string> g_unmodelled;

[[noreturn]] static void finishPath(const char *status, const std::string &detail);
[[noreturn]] static void engineError(const char *fmt, ...) {
  g_active = false;
  if (getenv("SY_BT")) { void *fr[40]; int n = backtrace(fr, 40); backtrace_symbols_fd(fr, n, 2); }
  char buf[1000];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  finishPath("engine-error", buf);
}
static void unmodelled(const std::string &s) {
  for (auto &x : g_unmodelled) if (x == s) return;
  g_unmodelled.push_back(s);
}

static inline u64 mask(unsigned bits) { return bits >= 64 ? ~0ull : ((1ull << bits) - 1); }
static inline int64_t sx(u64 v, unsigned bits) {
  if (bits >= 64) return (int64_t)v;
  v &= mask(bits);
  u64 m = 1ull << (bits - 1);
  return (int64_t)((v ^ m) - m);
}
static double toD(u64 v, unsigned bits) {
  if (bits == 32) { float f; u32 x = (u32)v; memcpy(&f, &x, 4); return f; }
  double d; memcpy(&d, &v, 8); return d;
}
static u64 fromD(double d, unsigned bits) {
  if (bits == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; }
  u64 v; memcpy(&v, &d, 8); return v;
}

// ------------------------------------------------------------------ nodes
struct KeyHash {
  size_t operator()(const Ex *e) const {
    u64 h = e->op * 0x9E3779B97F4A7C15ull;
    auto m = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
    m(e->bits); m(e->imm); m((u64)e->a); m((u64)e->b); m((u64)e->c);
    return h;
  }
};
struct KeyEq {
  bool operator()(const Ex *x, const Ex *y) const {
    return x->op == y->op && x->bits == y->bits && x->imm == y->imm && x->a == y->a && x->b == y->b && x->c == y->c;
  }
};
static std::unordered_set<Ex *, KeyHash, KeyEq> g_tab;
static char *g_arena, *g_arenaEnd;
static bool g_batch = false; // this worker may run another path after this one
static sigjmp_buf g_loop;
static bool g_finishing = false;
static std::vector<char *> g_arenas;

static bool isC(Ex *e) { return e->op == OP_CONST; }

static u64 evalIcmp(u64 p, u64 a, u64 b, unsigned w) {
  int64_t x = sx(a, w), y = sx(b, w);
  switch (p) {
  case EQ: return a == b; case NE: return a != b; case UGT: return a > b; case UGE: return a >= b;
  case ULT: return a < b; case ULE: return a <= b; case SGT: return x > y; case SGE: return x >= y;
  case SLT: return x < y; case SLE: return x <= y;
  }
  return 0;
}
static u64 evalFcmp(u64 p, u64 a, u64 b, unsigned w) {
  double x = toD(a, w), y = toD(b, w);
  bool uno = std::isnan(x) || std::isnan(y);
  bool r = false;
  if ((p & 8) && uno) return 1;
  if (uno) return 0;
  if ((p & 1) && x == y) r = true;
  if ((p & 2) && x > y) r = true;
  if ((p & 4) && x < y) r = true;
  return r;
}

// Concrete evaluation of an operation; ok=false when it is not computed here
static u64 evalOp(unsigned op, unsigned bits, u64 imm, Ex *a, Ex *b, Ex *c, bool &ok) {
  ok = true;
  u64 x = a ? a->val : 0, y = b ? b->val : 0;
  unsigned w = a ? a->bits : bits;
  switch (op) {
  case OP_ADD: return (x + y) & mask(bits);
  case OP_SUB: return (x - y) & mask(bits);
  case OP_MUL: return (x * y) & mask(bits);
  case OP_UDIV: if (!y) { ok = false; return 0; } return x / y;
  case OP_UREM: if (!y) { ok = false; return 0; } return x % y;
  case OP_SDIV: case OP_SREM: {
    int64_t s = sx(x, bits), t = sx(y, bits);
    if (!t) { ok = false; return 0; }
    if (t == -1) return op == OP_SDIV ? (0 - (u64)s) & mask(bits) : 0;
    return (u64)(op == OP_SDIV ? s / t : s % t) & mask(bits);
  }
  case OP_SHL: return y >= bits ? 0 : (x << y) & mask(bits);
  case OP_LSHR: return y >= bits ? 0 : x >> y;
  case OP_ASHR: return (u64)(sx(x, bits) >> (y >= bits ? bits - 1 : y)) & mask(bits);
  case OP_AND: return x & y;
  case OP_OR: return x | y;
  case OP_XOR: return x ^ y;
  case OP_ZEXT: return x;
  case OP_SEXT: return (u64)sx(x, w) & mask(bits);
  case OP_EXTRACT: return (x >> imm) & mask(bits);
  case OP_CONCAT: return ((x << b->bits) | y) & mask(bits);
  case OP_ICMP: return evalIcmp(imm, x, y, w);
  case OP_FCMP: return evalFcmp(imm, x, y, w);
  case OP_ITE: return x ? y : c->val;
  case OP_SMIN: return sx(x, bits) < sx(y, bits) ? x : y;
  case OP_SMAX: return sx(x, bits) > sx(y, bits) ? x : y;
  case OP_UMIN: return x < y ? x : y;
  case OP_UMAX: return x > y ? x : y;
  case OP_FADD: case OP_FSUB: case OP_FMUL: case OP_FDIV: {
    double p = toD(x, bits), q = toD(y, bits), r;
    if (bits == 32) { float fp_ = (float)p, fq = (float)q, fr = op == OP_FADD ? fp_ + fq : op == OP_FSUB ? fp_ - fq : op == OP_FMUL ? fp_ * fq : fp_ / fq; r = fr; }
    else r = op == OP_FADD ? p + q : op == OP_FSUB ? p - q : op == OP_FMUL ? p * q : p / q;
    return fromD(r, bits);
  }
  case OP_FREM: return bits == 32 ? fromD(fmodf((float)toD(x, 32), (float)toD(y, 32)), 32) : fromD(fmod(toD(x, 64), toD(y, 64)), 64);
  case OP_FNEG: return x ^ (1ull << (bits - 1));
  case OP_FABS: return x & ~(1ull << (bits - 1));
  case OP_FSQRT: return bits == 32 ? fromD(sqrtf((float)toD(x, 32)), 32) : fromD(sqrt(toD(x, 64)), 64);
  case OP_FFLOOR: return fromD(floor(toD(x, bits)), bits);
  case OP_FCEIL: return fromD(ceil(toD(x, bits)), bits);
  case OP_FTRUNC: return fromD(trunc(toD(x, bits)), bits);
  case OP_FRINT: return fromD(nearbyint(toD(x, bits)), bits);
  case OP_FROUND: return fromD(round(toD(x, bits)), bits);
  case OP_FCOPYSIGN: { u64 s = 1ull << (bits - 1); return (x & ~s) | (y & s); }
  case OP_SITOFP: return bits == 32 ? fromD((float)sx(x, w), 32) : fromD((double)sx(x, w), 64);
  case OP_UITOFP: return bits == 32 ? fromD((float)x, 32) : fromD((double)x, 64);
  case OP_FPTRUNC: case OP_FPEXT: return fromD(toD(x, w), bits);
  case OP_FPTOSI: {
    double d = toD(x, w);
    unsigned cw = bits <= 32 ? 32 : 64;
    if (!(d > (cw == 32 ? -2147483649.0 : -9223372036854777856.0) && d < (cw == 32 ? 2147483648.0 : 9223372036854775808.0)))
      return (cw == 32 ? 0x80000000ull : 0x8000000000000000ull) & mask(bits);
    return (u64)(int64_t)d & mask(bits);
  }
  case OP_FPTOUI: {
    double d = toD(x, w);
    if (bits <= 32) {
      if (!(d > -9223372036854777856.0 && d < 9223372036854775808.0)) return 0;
      return (u64)(int64_t)d & mask(bits);
    }
    if (d > -1.0 && d < 18446744073709551616.0) return (u64)d;
    ok = false; return 0;
  }
  case OP_FCLASS: {
    double d = toD(x, w);
    u64 m = 0;
    bool neg = (x >> (w - 1)) & 1;
    switch (std::fpclassify(bits == 0 ? 0 : (w == 32 ? (double)(float)d : d))) {
    case FP_NAN: m = 3; break;
    case FP_INFINITE: m = neg ? 4 : 512; break;
    case FP_NORMAL: m = neg ? 8 : 256; break;
    case FP_SUBNORMAL: m = neg ? 16 : 128; break;
    case FP_ZERO: m = neg ? 32 : 64; break;
    }
    if (w == 32 && d != 0 && fabs(d) < 1.17549435e-38) m = neg ? 16 : 128;
    return (imm & m) != 0;
  }
  case OP_OVF: {
    __int128 p, q;
    bool sg = !(imm & 1);
    if (sg) { p = sx(x, w); q = sx(y, w); } else { p = x; q = y; }
    __int128 r = imm < 2 ? p + q : imm < 4 ? p - q : p * q;
    if (sg) return r < -((__int128)1 << (w - 1)) || r >= ((__int128)1 << (w - 1));
    return r < 0 || r >= ((__int128)1 << w);
  }
  case OP_BSWAP: { u64 r = 0; for (unsigned i = 0; i < bits / 8; ++i) r |= ((x >> (8 * i)) & 0xff) << (bits - 8 - 8 * i); return r; }
  case OP_CTPOP: return __builtin_popcountll(x);
  case OP_CTLZ: return x ? (u64)__builtin_clzll(x) - (64 - bits) : bits;
  case OP_CTTZ: return x ? (u64)__builtin_ctzll(x) : bits;
  }
  ok = false;
  return 0;
}

static Ex *raw(unsigned op, unsigned bits, u64 imm, Ex *a, Ex *b, Ex *c, u64 val) {
  Ex k{(uint16_t)op, (u8)bits, 0, 0, imm, 0, a, b, c, 0, 0};
  auto it = g_tab.find(&k);
  if (it != g_tab.end()) return *it;
  if (g_arena + sizeof(Ex) > g_arenaEnd) {
    size_t sz = 1 << 17;
    g_arena = (char *)malloc(sz);
    g_arenas.push_back(g_arena);
    g_arenaEnd = g_arena + sz;
  }
  Ex *e = (Ex *)g_arena;
  g_arena += sizeof(Ex);
  *e = k;
  e->val = val & mask(bits);
  e->id = (u32)g_nodes++;
  e->fp = (a && a->fp) || (b && b->fp) || (c && c->fp) || (op >= OP_FADD && op <= OP_FCOPYSIGN) || (op >= OP_FPTOUI && op <= OP_FPEXT) ||
          (op >= OP_FSQRT && op <= OP_FROUND) || op == OP_FCMP || op == OP_FCLASS;
  {
    u64 x = op == OP_VAR ? g_vars[imm].hash : imm;
    u64 p = 0x243F6A8885A308D3ull, q = 0x13198A2E03707344ull;
    auto m = [&](u64 v) {
      p = (p ^ v) * 0xff51afd7ed558ccdull; p ^= p >> 32;
      q = (q + v) * 0xc4ceb9fe1a85ec53ull; q ^= q >> 29;
    };
    m(op | (u64)bits << 16); m(x);
    for (Ex *z : {a, b, c}) { m(z ? z->h1 : 1); m(z ? z->h2 : 2); }
    e->h1 = p; e->h2 = q;
  }
  g_tab.insert(e);
  if (g_nodes > 20000000) engineError("expression budget exceeded");
  return e;
}
static Ex *K(u64 v, unsigned bits) { return raw(OP_CONST, bits, v & mask(bits), 0, 0, 0, v); }
static Ex *mk(unsigned op, unsigned bits, u64 imm, Ex *a, Ex *b = nullptr, Ex *c = nullptr);
static Ex *extract(Ex *x, unsigned lo, unsigned n);
static Ex *zext(Ex *x, unsigned bits) { return x->bits == bits ? x : mk(OP_ZEXT, bits, 0, x); }
static Ex *notE(Ex *e) { return mk(OP_XOR, 1, 0, e, K(1, 1)); }

static Ex *extract(Ex *x, unsigned lo, unsigned n) {
  if (lo == 0 && n == x->bits) return x;
  switch (x->op) {
  case OP_CONST: return K(x->imm >> lo, n);
  case OP_EXTRACT: return extract(x->a, lo + x->imm, n);
  case OP_CONCAT: {
    unsigned lb = x->b->bits;
    if (lo + n <= lb) return extract(x->b, lo, n);
    if (lo >= lb) return extract(x->a, lo - lb, n);
    break;
  }
  case OP_ZEXT:
    if (lo + n <= x->a->bits) return extract(x->a, lo, n);
    if (lo >= x->a->bits) return K(0, n);
    return zext(extract(x->a, lo, x->a->bits - lo), n);
  case OP_SEXT:
    if (lo + n <= x->a->bits) return extract(x->a, lo, n);
    break;
  case OP_AND: case OP_OR: case OP_XOR:
    if (isC(x->a) || isC(x->b)) return mk(x->op, n, 0, extract(x->a, lo, n), extract(x->b, lo, n));
    break;
  case OP_ITE:
    if (isC(x->b) || isC(x->c)) return mk(OP_ITE, n, 0, x->a, extract(x->b, lo, n), extract(x->c, lo, n));
    break;
  }
  return raw(OP_EXTRACT, n, lo, x, 0, 0, x->val >> lo);
}

static Ex *concat(Ex *hi, Ex *lo) {
  unsigned n = hi->bits + lo->bits;
  if (isC(hi) && isC(lo)) return K((hi->imm << lo->bits) | lo->imm, n);
  if (hi->op == OP_EXTRACT && lo->op == OP_EXTRACT && hi->a == lo->a && hi->imm == lo->imm + lo->bits) return extract(hi->a, lo->imm, n);
  if (hi->op == OP_EXTRACT && hi->a == lo && hi->imm == lo->bits) return extract(hi->a, 0, n);
  if (isC(hi) && hi->imm == 0) return zext(lo, n);
  // (extract_hi : (extract_lo : rest))
  if (lo->op == OP_CONCAT && hi->op == OP_EXTRACT && lo->a->op == OP_EXTRACT && lo->a->a == hi->a && hi->imm == lo->a->imm + lo->a->bits)
    return concat(extract(hi->a, lo->a->imm, hi->bits + lo->a->bits), lo->b);
  if (lo->op == OP_ZEXT && isC(hi)) { /* keep */ }
  return raw(OP_CONCAT, n, 0, hi, lo, 0, (hi->val << lo->bits) | lo->val);
}

static Ex *mk(unsigned op, unsigned bits, u64 imm, Ex *a, Ex *b, Ex *c) {
  bool allC = (!a || isC(a)) && (!b || isC(b)) && (!c || isC(c));
  bool ok;
  u64 v = evalOp(op, bits, imm, a, b, c, ok);
  if (!ok) v = 0;
  if (allC && ok) return K(v, bits);
  // commutative: constant on the right
  if ((op == OP_ADD || op == OP_MUL || op == OP_AND || op == OP_OR || op == OP_XOR) && isC(a)) std::swap(a, b);
  switch (op) {
  case OP_ADD: if (isC(b) && b->imm == 0) return a;
    if (isC(b) && a->op == OP_ADD && isC(a->b)) return mk(OP_ADD, bits, 0, a->a, K(a->b->imm + b->imm, bits));
    break;
  case OP_SUB: if (isC(b)) return mk(OP_ADD, bits, 0, a, K(0 - b->imm, bits)); if (a == b) return K(0, bits); break;
  case OP_MUL: if (isC(b)) { if (b->imm == 0) return b; if (b->imm == 1) return a; } break;
  case OP_UDIV: case OP_SDIV: if (isC(b) && b->imm == 1 && bits > 1) return a; break;
  case OP_AND:
    if (a == b) return a;
    if (bits == 1 && ((b->op == OP_XOR && b->a == a && isC(b->b)) || (a->op == OP_XOR && a->a == b && isC(a->b)))) return K(0, 1);
    if (isC(b)) {
      if (b->imm == 0) return b;
      if (b->imm == mask(bits)) return a;
      if (((b->imm + 1) & b->imm) == 0) { unsigned n = __builtin_popcountll(b->imm); return zext(extract(a, 0, n), bits); }
      if (a->op == OP_ITE && isC(a->b) && isC(a->c)) return mk(OP_ITE, bits, 0, a->a, K(a->b->imm & b->imm, bits), K(a->c->imm & b->imm, bits));
    }
    break;
  case OP_OR:
    if (a == b) return a;
    if (bits == 1 && ((b->op == OP_XOR && b->a == a && isC(b->b)) || (a->op == OP_XOR && a->a == b && isC(a->b)))) return K(1, 1);
    if (isC(b)) { if (b->imm == 0) return a; if (b->imm == mask(bits)) return b; }
    for (int k = 0; k < 2; ++k) {
      Ex *p = k ? b : a, *q = k ? a : b; // p = (hi : 0_m), q fits in m bits
      if (p->op == OP_CONCAT && isC(p->b) && p->b->imm == 0 && q->op == OP_ZEXT && q->a->bits <= p->b->bits)
        return concat(p->a, zext(q->a, p->b->bits));
      if (p->op == OP_ZEXT && p->a->op == OP_CONCAT && isC(p->a->b) && p->a->b->imm == 0 && q->op == OP_ZEXT && q->a->bits <= p->a->b->bits)
        return zext(concat(p->a->a, zext(q->a, p->a->b->bits)), bits);
    }
    break;
  case OP_XOR:
    if (a == b) return K(0, bits);
    if (isC(b)) {
      if (b->imm == 0) return a;
      if (a->op == OP_XOR && isC(a->b)) return mk(OP_XOR, bits, 0, a->a, K(a->b->imm ^ b->imm, bits));
      if (bits == 1 && a->op == OP_ICMP) {
        static const u8 inv[] = {NE, EQ, ULE, ULT, UGE, UGT, SLE, SLT, SGE, SGT};
        return mk(OP_ICMP, 1, inv[a->imm - 32], a->a, a->b);
      }
      if (a->op == OP_ITE && isC(a->b) && isC(a->c)) return mk(OP_ITE, bits, 0, a->a, K(a->b->imm ^ b->imm, bits), K(a->c->imm ^ b->imm, bits));
    }
    break;
  case OP_SHL:
    if (isC(b)) {
      if (b->imm == 0) return a;
      if (b->imm >= bits) return K(0, bits);
      return concat(extract(a, 0, bits - b->imm), K(0, b->imm));
    }
    break;
  case OP_LSHR:
    if (isC(b)) {
      if (b->imm == 0) return a;
      if (b->imm >= bits) return K(0, bits);
      return zext(extract(a, b->imm, bits - b->imm), bits);
    }
    break;
  case OP_ASHR: if (isC(b) && b->imm == 0) return a; break;
  case OP_ZEXT:
    if (a->bits == bits) return a;
    if (a->op == OP_ZEXT) return zext(a->a, bits);
    break;
  case OP_SEXT: if (a->bits == bits) return a; if (a->op == OP_ZEXT && a->a->bits < a->bits) return zext(a->a, bits); break;
  case OP_ICMP: {
    unsigned w = a->bits;
    if (isC(a) && !isC(b)) {
      static const u8 sw[] = {EQ, NE, ULT, ULE, UGT, UGE, SLT, SLE, SGT, SGE};
      return mk(OP_ICMP, 1, sw[imm - 32], b, a);
    }
    if (a == b) return K(imm == EQ || imm == UGE || imm == ULE || imm == SGE || imm == SLE, 1);
    if (isC(b)) {
      if (w == 1 && (imm == EQ || imm == NE)) return ((imm == EQ) == (b->imm == 1)) ? a : notE(a);
      if (a->op == OP_ITE && isC(a->b) && isC(a->c)) {
        u64 p = evalIcmp(imm, a->b->imm, b->imm, w), q = evalIcmp(imm, a->c->imm, b->imm, w);
        if (p == q) return K(p, 1);
        return p ? a->a : notE(a->a);
      }
      if (a->op == OP_ZEXT && imm <= ULE) {
        unsigned iw = a->a->bits;
        if (b->imm > mask(iw)) return K(imm == NE || imm == ULT || imm == ULE, 1);
        return mk(OP_ICMP, 1, imm, a->a, K(b->imm, iw));
      }
      if (a->op == OP_ZEXT && imm >= SGT && a->a->bits < w) {
        // zext is non-negative
        if (sx(b->imm, w) < 0) return K(imm == SGT || imm == SGE, 1);
        return mk(OP_ICMP, 1, imm - 4, a, b);
      }
      if (a->op == OP_XOR && isC(a->b) && (imm == EQ || imm == NE)) return mk(OP_ICMP, 1, imm, a->a, K(a->b->imm ^ b->imm, w));
      if (a->op == OP_ADD && isC(a->b) && (imm == EQ || imm == NE)) return mk(OP_ICMP, 1, imm, a->a, K(b->imm - a->b->imm, w));
      if (a->op == OP_SEXT && (imm == EQ || imm == NE)) {
        unsigned iw = a->a->bits;
        if (((u64)sx(b->imm, iw) & mask(w)) != b->imm) return K(imm == NE, 1);
        return mk(OP_ICMP, 1, imm, a->a, K(b->imm, iw));
      }
      if (imm == ULT && b->imm == 1) return mk(OP_ICMP, 1, EQ, a, K(0, w));
      if (imm == UGE && b->imm == 0) return K(1, 1);
      if (imm == ULT && b->imm == 0) return K(0, 1);
    }
    if (w == 1 && imm == NE) return mk(OP_XOR, 1, 0, a, b);
    break;
  }
  case OP_FCMP: {
    auto nonNaN = [](Ex *e) { return isC(e) && !std::isnan(toD(e->imm, e->bits)); };
    if (imm == 7 && isC(a)) std::swap(a, b);
    if (imm == 8) return notE(mk(OP_FCMP, 1, 7, a, b));
    if (imm == 7 && nonNaN(b)) return mk(OP_FCMP, 1, 7, a, a);
    if (a == b && imm != 7) {
      bool eq = (imm & 1) != 0; // the predicate accepts equal operands
      if (imm & 8) return eq ? K(1, 1) : notE(mk(OP_FCMP, 1, 7, a, a));
      return eq ? mk(OP_FCMP, 1, 7, a, a) : K(0, 1);
    }
    if (imm & 8) return notE(mk(OP_FCMP, 1, imm ^ 15, a, b)); // one polarity only
    if ((imm == 1 || imm == 6) && !isC(b) && b->id < a->id) std::swap(a, b);
    break;
  }
  case OP_FADD: case OP_FMUL: if (!isC(b) && (isC(a) || b->id < a->id)) std::swap(a, b); break;
  case OP_ITE:
    if (isC(a)) return a->imm ? b : c;
    if (b == c) return b;
    if (bits == 1 && isC(b) && isC(c)) return b->imm ? a : notE(a);
    if (a->op == OP_XOR && a->bits == 1 && isC(a->b)) return mk(OP_ITE, bits, 0, a->a, c, b);
    if (bits == 1 && isC(c) && c->imm == 0) return mk(OP_AND, 1, 0, a, b);
    if (bits == 1 && isC(b) && b->imm == 1) return mk(OP_OR, 1, 0, a, c);
    break;
  case OP_EXTRACT: return extract(a, imm, bits);
  case OP_CONCAT: return concat(a, b);
  }
  return raw(op, bits, imm, a, b, c, v);
}

static Ex *lift(Ex *s, u64 v, unsigned bits) { return s ? s : K(v, bits); }

static inline void hit(FnInfo *fi) { ++g_ops; if (fi && g_hit) g_hit[fi->idx] = 1; }

static Ex *checked(Ex *r, u64 native, FnInfo *fi, const char *what) {
  if ((r->val ^ native) & mask(r->bits)) {
    // floating point NaNs may differ in payload
    if (r->fp && (r->bits == 64 || r->bits == 32) && std::isnan(toD(r->val, r->bits)) && std::isnan(toD(native, r->bits))) { if (isC(r)) return nullptr; r->val = native & mask(r->bits); return r; }
    engineError("self-check: %s op=%d bits=%d expr value %llx native %llx in %s", what, r->op, r->bits, (unsigned long long)r->val,
                (unsigned long long)native, fi ? fi->name : "?");
  }
  return isC(r) ? nullptr : r;
}

// ------------------------------------------------------------------ path condition
static void pushEvent(Event ev) {
  g_hash = (g_hash ^ (u64)ev.k) * 1099511628211ull;
  g_hash = (g_hash ^ ev.taken) * 1099511628211ull;
  g_pc.push_back(ev);
  if (g_pc.size() == g_bound && g_hash != g_boundHash) {
    g_diverged = true;
    g_active = false;
    if (getenv("SY_TRACE")) { // debugging aid: what was run instead
      fprintf(stderr, "RUN %u %llx\n", g_bound, (unsigned long long)g_boundHash);
      for (auto &e : g_pc) fprintf(stderr, "  %d %llx %s\n", (int)e.k, (unsigned long long)e.taken, e.where);
    }
    engineError("divergence: the run did not follow the predicted path prefix (event %u in %s)", g_bound, ev.where);
  }
  if (g_pc.size() > 200000) engineError("path too long (event budget) in %s", ev.where);
}
static Ex *asBool(Ex *e) { return e->bits == 1 ? e : mk(OP_ICMP, 1, NE, e, K(0, e->bits)); }

static void branchOn(Ex *cond, bool taken, const char *where, Event::Kind k = Event::BR) {
  if (isC(cond)) return;
  if ((cond->val != 0) != taken) engineError("branch self-check failed in %s", where);
  Ex *n = cond;
  bool pol = taken;
  if (n->op == OP_XOR && n->bits == 1 && isC(n->b)) { n = n->a; pol = !pol; }
  if (!g_known.insert(((u64)n->id << 1) | pol).second) return;
  if (n->op == OP_ICMP && n->imm == NE) { Ex *m = mk(OP_ICMP, 1, EQ, n->a, n->b); g_known.insert(((u64)m->id << 1) | !pol); }
  if (n->op == OP_ICMP && n->imm == EQ) { Ex *m = mk(OP_ICMP, 1, NE, n->a, n->b); g_known.insert(((u64)m->id << 1) | !pol); }
  pushEvent({k, cond, (u64)taken, nullptr, 0, where});
}
static std::unordered_map<Ex *, u64> g_fixed; // expressions concretized on this path
static void concretize(Ex *e, u64 v, const char *where) {
  if (isC(e)) return;
  if (e->val != (v & mask(e->bits))) engineError("concretize self-check in %s: %llx vs %llx", where, (unsigned long long)e->val, (unsigned long long)v);
  if (e->bits == 1) { branchOn(e, e->val, where); return; }
  if (!g_fixed.emplace(e, e->val).second) return;
  if (e->op == OP_ITE && isC(e->b) && isC(e->c)) { branchOn(e->a, e->a->val, where); return; }
  if (e->op == OP_ZEXT || e->op == OP_SEXT) { concretize(e->a, e->a->val, where); return; }
  if (e->op == OP_ADD) {
    // leave out constant terms: the base of an address differs between runs
    std::vector<Ex *> todo{e};
    Ex *sum = nullptr;
    bool cut = false;
    while (!todo.empty()) {
      Ex *x = todo.back(); todo.pop_back();
      if (x->op == OP_ADD) { todo.push_back(x->b); todo.push_back(x->a); }
      else if (isC(x)) cut = true;
      else sum = sum ? mk(OP_ADD, e->bits, 0, sum, x) : x;
    }
    if (cut && sum && !isC(sum)) { concretize(sum, sum->val, where); return; }
  }
  ++g_concs;
  pushEvent({Event::VAL, e, e->val, nullptr, 0, where});
}

// ------------------------------------------------------------------ shadow memory
struct Page { Ex *b[256]; };
static std::unordered_map<u64, Page *> g_mem;
static u64 g_lastPg = ~0ull; static Page *g_last = nullptr;
static inline Page *page(u64 p) {
  u64 k = p >> 8;
  if (k == g_lastPg) return g_last;
  auto it = g_mem.find(k);
  if (it == g_mem.end()) return nullptr;
  g_lastPg = k; g_last = it->second;
  return g_last;
}
static inline Ex *getB(u64 p) { Page *pg = page(p); return pg ? pg->b[p & 255] : nullptr; }
static void setB(u64 p, Ex *e) {
  Page *pg = page(p);
  if (!pg) {
    if (!e) return;
    pg = new Page();
    memset(pg, 0, sizeof *pg);
    g_mem[p >> 8] = pg;
    g_lastPg = p >> 8; g_last = pg;
  }
  pg->b[p & 255] = e;
}
static bool anySym(u64 p, u64 n) {
  for (u64 i = 0; i < n;) {
    u64 q = p + i;
    Page *pg = page(q);
    if (!pg) { i += 256 - (q & 255); continue; }
    if (pg->b[q & 255]) return true;
    ++i;
  }
  return false;
}
static void clearRange(u64 p, u64 n) {
  if (g_mem.empty()) return;
  for (u64 i = 0; i < n;) {
    u64 q = p + i;
    Page *pg = page(q);
    if (!pg) { i += 256 - (q & 255); continue; }
    pg->b[q & 255] = nullptr;
    ++i;
  }
}
static Ex *loadRange(u64 p, unsigned size) {
  bool any = false;
  Ex *b[8];
  for (unsigned i = 0; i < size; ++i) {
    b[i] = getB(p + i);
    if (b[i]) {
      if (b[i]->val != *(u8 *)(p + i)) { setB(p + i, nullptr); b[i] = nullptr; } // stale: overwritten natively
      else any = true;
    }
  }
  if (!any) return nullptr;
  Ex *r = nullptr;
  for (unsigned i = 0; i < size; ++i) {
    Ex *x = b[i] ? b[i] : K(*(u8 *)(p + i), 8);
    r = r ? concat(x, r) : x;
  }
  return r;
}
static void storeRange(u64 p, unsigned size, Ex *e) {
  if (e->bits < size * 8) e = zext(e, size * 8);
  for (unsigned i = 0; i < size; ++i) {
    Ex *x = extract(e, 8 * i, 8);
    setB(p + i, isC(x) ? nullptr : x);
  }
}

// ------------------------------------------------------------------ instrumentation entry points
extern "C" {

void __sy_register(FnInfo **tab, u64 n) {
  for (u64 i = 0; i < n; ++i) {
    tab[i]->idx = g_fns.size();
    g_fns.push_back(tab[i]);
    g_fnByPtr[tab[i]->fn] = tab[i];
  }
}

Ex *__sy_bin(u32 op, u32 bits, Ex *a, u64 av, Ex *b, u64 bv, u64 native, FnInfo *fi) {
  if ((!a && !b) || !g_active) return nullptr;
  hit(fi);
  Ex *x = lift(a, av, bits), *y = lift(b, bv, bits);
  if (op > 1000) { // trap condition of a division, before it executes
    op -= 1000;
    Ex *z = mk(OP_ICMP, 1, EQ, y, K(0, bits));
    branchOn(z, z->val, fi->name);
    if (op == OP_SDIV || op == OP_SREM) {
      Ex *o = mk(OP_AND, 1, 0, mk(OP_ICMP, 1, EQ, x, K(1ull << (bits - 1), bits)), mk(OP_ICMP, 1, EQ, y, K(~0ull, bits)));
      branchOn(o, o->val, fi->name);
    }
    return nullptr;
  }
  if ((op == OP_FMIN || op == OP_FMAX)) { if (a) concretize(a, av, fi->name); if (b) concretize(b, bv, fi->name); return nullptr; }
  return checked(mk(op, bits, 0, x, y), native, fi, "bin");
}
Ex *__sy_icmp(u32 pred, u32 bits, Ex *a, u64 av, Ex *b, u64 bv, u8 native, FnInfo *fi) {
  if ((!a && !b) || !g_active) return nullptr;
  hit(fi);
  return checked(mk(OP_ICMP, 1, pred, lift(a, av, bits), lift(b, bv, bits)), native, fi, "icmp");
}
Ex *__sy_fcmp(u32 pred, u32 bits, Ex *a, u64 av, Ex *b, u64 bv, u8 native, FnInfo *fi) {
  if ((!a && !b) || !g_active) return nullptr;
  hit(fi);
  return checked(mk(OP_FCMP, 1, pred, lift(a, av, bits), lift(b, bv, bits)), native, fi, "fcmp");
}
Ex *__sy_cast(u32 op, u32 fb, u32 tb, Ex *s, u64 v, u64 native, FnInfo *fi) {
  if (!s || !g_active) return nullptr;
  hit(fi);
  if (op == OP_TRUNC) return checked(extract(s, 0, tb), native, fi, "trunc");
  if (op == OP_FPTOUI && tb > 32) { // the defined range only
    Ex *in = mk(OP_AND, 1, 0, mk(OP_FCMP, 1, 2, s, K(fromD(-1.0, fb), fb)), mk(OP_FCMP, 1, 4, s, K(fromD(18446744073709551616.0, fb), fb)));
    branchOn(in, in->val, fi->name);
    if (!in->val) { concretize(s, v, fi->name); return nullptr; }
  }
  return checked(mk(op, tb, 0, s), native, fi, "cast");
}
Ex *__sy_un(u32 op, u32 bits, Ex *s, u64 v, u64 native, FnInfo *fi) {
  if (!s || !g_active) return nullptr;
  hit(fi);
  Ex *r;
  switch (op) {
  case OP_ABS: r = mk(OP_ITE, bits, 0, mk(OP_ICMP, 1, SLT, s, K(0, bits)), mk(OP_SUB, bits, 0, K(0, bits), s), s); break;
  case OP_BSWAP:
    r = nullptr;
    for (unsigned i = 0; i < bits / 8; ++i) { Ex *x = extract(s, 8 * i, 8); r = r ? concat(r, x) : x; }
    break;
  case OP_CTPOP: r = K(0, bits); for (unsigned i = 0; i < bits; ++i) r = mk(OP_ADD, bits, 0, r, zext(extract(s, i, 1), bits)); break;
  case OP_CTLZ: r = K(bits, bits); for (unsigned i = 0; i < bits; ++i) r = mk(OP_ITE, bits, 0, extract(s, i, 1), K(bits - 1 - i, bits), r); break;
  case OP_CTTZ: r = K(bits, bits); for (int i = (int)bits - 1; i >= 0; --i) r = mk(OP_ITE, bits, 0, extract(s, i, 1), K(i, bits), r); break;
  default: r = mk(op, bits, 0, s);
  }
  return checked(r, native, fi, "un");
}
Ex *__sy_select(u32 bits, Ex *sc, u8 c, Ex *st, u64 tv, Ex *sf, u64 fv, FnInfo *fi) {
  if (!g_active) return nullptr;
  if (!sc) return c ? st : sf;
  hit(fi);
  Ex *r = mk(OP_ITE, bits, 0, sc, lift(st, tv, bits), lift(sf, fv, bits));
  return isC(r) ? nullptr : r;
}
void __sy_branch(Ex *s, u8 taken, FnInfo *fi) {
  if (!s || !g_active) return;
  hit(fi);
  branchOn(s, taken, fi->name);
}
void __sy_switch(Ex *s, u64 v, u32 bits, u32 n, const u64 *cases, FnInfo *fi) {
  if (!s || !g_active || isC(s)) return;
  hit(fi);
  if (s->val != (v & mask(bits))) engineError("switch self-check in %s", fi->name);
  if (bits == 1) { branchOn(s, v, fi->name); return; }
  if (g_fixed.count(s)) return;
  // same decision as a chain of equality tests; recorded as one multiway event
  bool isCase = false;
  for (u32 i = 0; i < n; ++i) if (cases[i] == s->val) isCase = true;
  if (isCase) { g_fixed.emplace(s, s->val); }
  pushEvent({Event::SW, s, isCase ? s->val : ~0ull - 7, cases, n, fi->name});
}
Ex *__sy_load(void *p, u64 size, u64 native, u32 bits) {
  if (!g_active || g_mem.empty()) return nullptr;
  if (bits == 0) {
    for (u64 i = 0; i < size; ++i) { Ex *e = loadRange((u64)p + i, 1); if (e) concretize(e, e->val, "wide load"); }
    return nullptr;
  }
  Ex *e = loadRange((u64)p, (unsigned)size);
  if (!e || isC(e)) return nullptr;
  if (e->bits > bits) e = extract(e, 0, bits);
  if (isC(e)) return nullptr;
  if ((e->val ^ native) & mask(bits)) engineError("load self-check: %llx vs %llx", (unsigned long long)e->val, (unsigned long long)native);
  return e;
}
void __sy_store(void *p, u64 size, Ex *s, u32 bits) {
  if (!g_active) return;
  if (!s || bits == 0) { clearRange((u64)p, size); return; }
  storeRange((u64)p, (unsigned)size, s);
}
void __sy_conc(Ex *s, u64 v, FnInfo *fi, const char *why) {
  if (!s || !g_active) return;
  hit(fi);
  concretize(s, v, why);
}
void __sy_memcpy(void *d, void *s, u64 n) {
  if (!g_active || g_mem.empty() || d == s) return;
  if (!anySym((u64)s, n)) { clearRange((u64)d, n); return; }
  std::vector<Ex *> t(n);
  for (u64 i = 0; i < n; ++i) {
    Ex *e = getB((u64)s + i);
    if (e && e->val != *((u8 *)s + i)) e = nullptr;
    t[i] = e;
  }
  for (u64 i = 0; i < n; ++i) setB((u64)d + i, t[i]);
}
void __sy_memset(void *d, Ex *v, u8 val, u64 n) {
  if (!g_active) return;
  if (!v) { clearRange((u64)d, n); return; }
  if (v->bits > 8) v = extract(v, 0, 8);
  if (isC(v)) v = nullptr;
  for (u64 i = 0; i < n; ++i) setB((u64)d + i, v);
}
void __sy_clear(void *p, u64 n) { if (g_active) clearRange((u64)p, n); }
void __sy_byval(void *d, void *s, u64 n) {
  if (!s) { __sy_clear(d, n); return; }
  __sy_memcpy(d, s, n);
}
void __sy_free(void *p) {
  if (!g_active || !p || g_mem.empty()) return;
  // the extent is not known here: shadows of freed memory are dropped lazily (value check) or by the next store
}
static bool formatSink(const char *n) {
  return strstr(n, "num_put") || strstr(n, "_ZNSolsE") || strstr(n, "_M_insertI") || strstr(n, "__ostream_insert");
}
static bool isPrintf(const char *n) { return !strcmp(n, "snprintf") || !strcmp(n, "vsnprintf") || !strcmp(n, "fprintf") || !strcmp(n, "printf"); }
// an indirect external callee is a virtual call into a C++ library facet (num_put from ostream::_M_insert)
void __sy_precall(void *callee, const char *name, u32 n, u64 *vals) {
  if (!g_active) return;
  if (g_fnByPtr.count(callee)) return;
  if (formatSink(name) || isPrintf(name) || (!strcmp(name, "<indirect>") && !g_formatExact)) {
    if (!g_formatExact) {
      ++g_dropped;
      return;
    }
  }
  for (u32 i = 0; i < n; ++i)
    if (__sy_args[i]) { concretize(__sy_args[i], vals[i], name); }
}
void __sy_extptr(void *callee, const char *name, void *p, FnInfo *fi) {
  if (!g_active || g_mem.empty() || !p) return;
  if (g_fnByPtr.count(callee)) return;
  if (!anySym((u64)p, 16)) return;
  bool any = false;
  for (int i = 0; i < 16; ++i) if (loadRange((u64)p + i, 1)) any = true;
  if (!any) return;
  if (formatSink(name) || !strncmp(name, "sym_", 4)) return;
  unmodelled(std::string("external call ") + name + " from " + fi->name + " is passed symbolic memory");
}
Ex *__sy_ovf(u32 k, u32 bits, Ex *a, u64 av, Ex *b, u64 bv, u8 native, FnInfo *fi) {
  if ((!a && !b) || !g_active) return nullptr;
  hit(fi);
  return checked(mk(OP_OVF, 1, k, lift(a, av, bits), lift(b, bv, bits)), native, fi, "ovf");
}
Ex *__sy_isfpclass(u32 m, u32 bits, Ex *a, u64 av, u8 native, FnInfo *fi) {
  if (!a || !g_active) return nullptr;
  hit(fi);
  return checked(mk(OP_FCLASS, 1, m, a), native, fi, "fpclass");
}
} // extern "C"

// ------------------------------------------------------------------ Z3 lowering
static Z3_context Z;
static std::vector<Z3_ast> zBV, zFP, zB;
static Z3_ast bv(Ex *e);
static Z3_ast fpt(Ex *e);
static Z3_ast bo(Ex *e);
static Z3_sort fpSort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z); }
static Z3_ast bvK(u64 v, unsigned w) { return Z3_mk_unsigned_int64(Z, v & mask(w), Z3_mk_bv_sort(Z, w)); }
static u64 g_keepCount;
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); ++g_keepCount; return a; }
static Z3_ast icmp(u64 p, Z3_ast x, Z3_ast y) {
  switch (p) {
  case EQ: return Z3_mk_eq(Z, x, y);
  case NE: return Z3_mk_not(Z, Z3_mk_eq(Z, x, y));
  case UGT: return Z3_mk_bvugt(Z, x, y); case UGE: return Z3_mk_bvuge(Z, x, y);
  case ULT: return Z3_mk_bvult(Z, x, y); case ULE: return Z3_mk_bvule(Z, x, y);
  case SGT: return Z3_mk_bvsgt(Z, x, y); case SGE: return Z3_mk_bvsge(Z, x, y);
  case SLT: return Z3_mk_bvslt(Z, x, y); default: return Z3_mk_bvsle(Z, x, y);
  }
}
static void ensure(Ex *e) {
  if (zBV.size() <= e->id) { size_t n = g_nodes + 16; zBV.resize(n); zFP.resize(n); zB.resize(n); }
}
static Z3_ast bo(Ex *e) { // 1-bit as Bool
  ensure(e);
  if (zB[e->id]) return zB[e->id];
  Z3_ast r;
  switch (e->op) {
  case OP_CONST: r = e->imm ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
  case OP_ICMP: r = e->a->bits == 1 && (e->imm == EQ || e->imm == NE) ? (e->imm == EQ ? Z3_mk_eq(Z, bo(e->a), bo(e->b)) : Z3_mk_xor(Z, bo(e->a), bo(e->b)))
                                                                      : icmp(e->imm, bv(e->a), bv(e->b)); break;
  case OP_FCMP: {
    Z3_ast x = fpt(e->a), y = fpt(e->b);
    Z3_ast un2[2] = {Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y)};
    Z3_ast uno = Z3_mk_or(Z, 2, un2);
    u64 q = e->imm & 7;
    Z3_ast o;
    switch (q) {
    case 0: o = Z3_mk_false(Z); break;
    case 1: o = Z3_mk_fpa_eq(Z, x, y); break;
    case 2: o = Z3_mk_fpa_gt(Z, x, y); break;
    case 3: o = Z3_mk_fpa_geq(Z, x, y); break;
    case 4: o = Z3_mk_fpa_lt(Z, x, y); break;
    case 5: o = Z3_mk_fpa_leq(Z, x, y); break;
    case 6: { Z3_ast t2[2] = {Z3_mk_fpa_lt(Z, x, y), Z3_mk_fpa_gt(Z, x, y)}; o = Z3_mk_or(Z, 2, t2); break; }
    default: o = Z3_mk_not(Z, uno); break;
    }
    if (e->imm & 8) { Z3_ast t[2] = {uno, o}; o = Z3_mk_or(Z, 2, t); }
    r = o;
    break;
  }
  case OP_FCLASS: {
    Z3_ast x = fpt(e->a);
    std::vector<Z3_ast> t;
    u64 m = e->imm;
    auto sgn = [&](Z3_ast c, bool neg) { Z3_ast q[2] = {c, neg ? Z3_mk_fpa_is_negative(Z, x) : Z3_mk_fpa_is_positive(Z, x)}; t.push_back(Z3_mk_and(Z, 2, q)); };
    if (m & 3) t.push_back(Z3_mk_fpa_is_nan(Z, x));
    if (m & 4) sgn(Z3_mk_fpa_is_infinite(Z, x), true);
    if (m & 8) sgn(Z3_mk_fpa_is_normal(Z, x), true);
    if (m & 16) sgn(Z3_mk_fpa_is_subnormal(Z, x), true);
    if (m & 32) sgn(Z3_mk_fpa_is_zero(Z, x), true);
    if (m & 64) sgn(Z3_mk_fpa_is_zero(Z, x), false);
    if (m & 128) sgn(Z3_mk_fpa_is_subnormal(Z, x), false);
    if (m & 256) sgn(Z3_mk_fpa_is_normal(Z, x), false);
    if (m & 512) sgn(Z3_mk_fpa_is_infinite(Z, x), false);
    r = t.empty() ? Z3_mk_false(Z) : Z3_mk_or(Z, t.size(), t.data());
    break;
  }
  case OP_OVF: {
    unsigned w = e->a->bits;
    bool sg = !(e->imm & 1);
    unsigned x = e->imm < 4 ? 1 : w;
    if (!sg && e->imm == 3) { r = Z3_mk_bvult(Z, bv(e->a), bv(e->b)); break; }
    Z3_ast p = sg ? Z3_mk_sign_ext(Z, x, bv(e->a)) : Z3_mk_zero_ext(Z, x, bv(e->a));
    Z3_ast q = sg ? Z3_mk_sign_ext(Z, x, bv(e->b)) : Z3_mk_zero_ext(Z, x, bv(e->b));
    Z3_ast s = e->imm < 2 ? Z3_mk_bvadd(Z, p, q) : e->imm < 4 ? Z3_mk_bvsub(Z, p, q) : Z3_mk_bvmul(Z, p, q);
    Z3_ast lo = Z3_mk_extract(Z, w - 1, 0, s);
    Z3_ast back = sg ? Z3_mk_sign_ext(Z, x, lo) : Z3_mk_zero_ext(Z, x, lo);
    r = Z3_mk_not(Z, Z3_mk_eq(Z, back, s));
    break;
  }
  case OP_AND: { Z3_ast t[2] = {bo(e->a), bo(e->b)}; r = Z3_mk_and(Z, 2, t); break; }
  case OP_OR: { Z3_ast t[2] = {bo(e->a), bo(e->b)}; r = Z3_mk_or(Z, 2, t); break; }
  case OP_XOR: r = isC(e->b) ? (e->b->imm ? Z3_mk_not(Z, bo(e->a)) : bo(e->a)) : Z3_mk_xor(Z, bo(e->a), bo(e->b)); break;
  case OP_ITE: r = Z3_mk_ite(Z, bo(e->a), bo(e->b), bo(e->c)); break;
  default: r = Z3_mk_eq(Z, bv(e), bvK(1, 1)); break;
  }
  return zB[e->id] = keep(r);
}
static bool fpNode(Ex *e) {
  switch (e->op) {
  case OP_FADD: case OP_FSUB: case OP_FMUL: case OP_FDIV: case OP_FREM: case OP_FSQRT: case OP_FFLOOR: case OP_FCEIL: case OP_FTRUNC: case OP_FRINT: case OP_FROUND:
  case OP_UITOFP: case OP_SITOFP: case OP_FPTRUNC: case OP_FPEXT: return true;
  }
  return false;
}
static Z3_ast fpt(Ex *e) {
  ensure(e);
  if (zFP[e->id]) return zFP[e->id];
  Z3_ast r;
  Z3_ast rne = Z3_mk_fpa_rne(Z);
  Z3_sort S = fpSort(e->bits);
  switch (e->op) {
  case OP_FADD: r = Z3_mk_fpa_add(Z, rne, fpt(e->a), fpt(e->b)); break;
  case OP_FSUB: r = Z3_mk_fpa_sub(Z, rne, fpt(e->a), fpt(e->b)); break;
  case OP_FMUL: r = Z3_mk_fpa_mul(Z, rne, fpt(e->a), fpt(e->b)); break;
  case OP_FDIV: r = Z3_mk_fpa_div(Z, rne, fpt(e->a), fpt(e->b)); break;
  case OP_FREM: { // uninterpreted: equal arguments give equal results, nothing else is claimed
    Z3_sort bs = Z3_mk_bv_sort(Z, e->bits), ds[2] = {bs, bs};
    Z3_ast av[2] = {bv(e->a), bv(e->b)};
    r = Z3_mk_fpa_to_fp_bv(Z, Z3_mk_app(Z, Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, e->bits == 32 ? "fmodf" : "fmod"), 2, ds, bs), 2, av), S);
    break;
  }
  case OP_FSQRT: r = Z3_mk_fpa_sqrt(Z, rne, fpt(e->a)); break;
  case OP_FFLOOR: r = Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtn(Z), fpt(e->a)); break;
  case OP_FCEIL: r = Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtp(Z), fpt(e->a)); break;
  case OP_FTRUNC: r = Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtz(Z), fpt(e->a)); break;
  case OP_FRINT: r = Z3_mk_fpa_round_to_integral(Z, rne, fpt(e->a)); break;
  case OP_FROUND: r = Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rna(Z), fpt(e->a)); break;
  case OP_FNEG: r = Z3_mk_fpa_neg(Z, fpt(e->a)); break;
  case OP_FABS: r = Z3_mk_fpa_abs(Z, fpt(e->a)); break;
  case OP_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(Z, rne, bv(e->a), S); break;
  case OP_SITOFP: r = Z3_mk_fpa_to_fp_signed(Z, rne, bv(e->a), S); break;
  case OP_FPTRUNC: case OP_FPEXT: r = Z3_mk_fpa_to_fp_float(Z, rne, fpt(e->a), S); break;
  case OP_CONST: r = Z3_simplify(Z, Z3_mk_fpa_to_fp_bv(Z, bvK(e->imm, e->bits), S)); break;
  case OP_ITE: r = (e->b->fp || e->c->fp) ? Z3_mk_ite(Z, bo(e->a), fpt(e->b), fpt(e->c)) : Z3_mk_fpa_to_fp_bv(Z, bv(e), S); break;
  default: r = Z3_mk_fpa_to_fp_bv(Z, bv(e), S); break;
  }
  return zFP[e->id] = keep(r);
}
static Z3_ast bv(Ex *e) {
  ensure(e);
  if (zBV[e->id]) return zBV[e->id];
  Z3_ast r;
  unsigned w = e->bits;
  if (fpNode(e)) return zBV[e->id] = keep(Z3_mk_fpa_to_ieee_bv(Z, fpt(e)));
  switch (e->op) {
  case OP_CONST: r = bvK(e->imm, w); break;
  case OP_VAR: r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, g_vars[e->imm].name.c_str()), Z3_mk_bv_sort(Z, w)); break;
  case OP_ADD: r = Z3_mk_bvadd(Z, bv(e->a), bv(e->b)); break;
  case OP_SUB: r = Z3_mk_bvsub(Z, bv(e->a), bv(e->b)); break;
  case OP_MUL: r = Z3_mk_bvmul(Z, bv(e->a), bv(e->b)); break;
  case OP_UDIV: r = Z3_mk_bvudiv(Z, bv(e->a), bv(e->b)); break;
  case OP_SDIV: r = Z3_mk_bvsdiv(Z, bv(e->a), bv(e->b)); break;
  case OP_UREM: r = Z3_mk_bvurem(Z, bv(e->a), bv(e->b)); break;
  case OP_SREM: r = Z3_mk_bvsrem(Z, bv(e->a), bv(e->b)); break;
  case OP_SHL: r = Z3_mk_bvshl(Z, bv(e->a), bv(e->b)); break;
  case OP_LSHR: r = Z3_mk_bvlshr(Z, bv(e->a), bv(e->b)); break;
  case OP_ASHR: r = Z3_mk_bvashr(Z, bv(e->a), bv(e->b)); break;
  case OP_ZEXT: r = Z3_mk_zero_ext(Z, w - e->a->bits, bv(e->a)); break;
  case OP_SEXT: r = Z3_mk_sign_ext(Z, w - e->a->bits, bv(e->a)); break;
  case OP_EXTRACT: r = Z3_mk_extract(Z, e->imm + w - 1, e->imm, bv(e->a)); break;
  case OP_CONCAT: r = Z3_mk_concat(Z, bv(e->a), bv(e->b)); break;
  case OP_FNEG: r = Z3_mk_bvxor(Z, bv(e->a), bvK(1ull << (w - 1), w)); break;
  case OP_FABS: r = Z3_mk_bvand(Z, bv(e->a), bvK(~(1ull << (w - 1)), w)); break;
  case OP_FCOPYSIGN: {
    u64 s = 1ull << (w - 1);
    r = Z3_mk_bvor(Z, Z3_mk_bvand(Z, bv(e->a), bvK(~s, w)), Z3_mk_bvand(Z, bv(e->b), bvK(s, w)));
    break;
  }
  case OP_SMIN: r = Z3_mk_ite(Z, Z3_mk_bvslt(Z, bv(e->a), bv(e->b)), bv(e->a), bv(e->b)); break;
  case OP_SMAX: r = Z3_mk_ite(Z, Z3_mk_bvsgt(Z, bv(e->a), bv(e->b)), bv(e->a), bv(e->b)); break;
  case OP_UMIN: r = Z3_mk_ite(Z, Z3_mk_bvult(Z, bv(e->a), bv(e->b)), bv(e->a), bv(e->b)); break;
  case OP_UMAX: r = Z3_mk_ite(Z, Z3_mk_bvugt(Z, bv(e->a), bv(e->b)), bv(e->a), bv(e->b)); break;
  case OP_FPTOSI: case OP_FPTOUI: {
    // x86-64: cvttsd2si of 32 or 64 bits; the "integer indefinite" value when out of range
    unsigned fw = e->a->bits;
    unsigned cw = e->op == OP_FPTOSI ? (w <= 32 ? 32 : 64) : 64;
    Z3_ast x = fpt(e->a);
    if (e->op == OP_FPTOUI && w > 32) { r = Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), x, w); break; }
    double hi = cw == 32 ? 2147483648.0 : 9223372036854775808.0;
    double lo = cw == 32 ? -2147483649.0 : -9223372036854777856.0;
    if (fw == 32) lo = cw == 32 ? -2147483904.0 : -9223373136366403584.0;
    Z3_ast t[2] = {Z3_mk_fpa_lt(Z, x, fpt(K(fromD(hi, fw), fw))), Z3_mk_fpa_gt(Z, x, fpt(K(fromD(lo, fw), fw)))};
    Z3_ast in = Z3_mk_and(Z, 2, t);
    Z3_ast cv = Z3_mk_ite(Z, in, Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), x, cw), bvK(1ull << (cw - 1), cw));
    r = w == cw ? cv : Z3_mk_extract(Z, w - 1, 0, cv);
    break;
  }
  case OP_AND: case OP_OR: case OP_XOR:
    if (w == 1) { r = Z3_mk_ite(Z, bo(e), bvK(1, 1), bvK(0, 1)); break; }
    r = e->op == OP_AND ? Z3_mk_bvand(Z, bv(e->a), bv(e->b)) : e->op == OP_OR ? Z3_mk_bvor(Z, bv(e->a), bv(e->b)) : Z3_mk_bvxor(Z, bv(e->a), bv(e->b));
    break;
  case OP_ITE: r = Z3_mk_ite(Z, bo(e->a), bv(e->b), bv(e->c)); break;
  case OP_ICMP: case OP_FCMP: case OP_FCLASS: case OP_OVF: r = Z3_mk_ite(Z, bo(e), bvK(1, 1), bvK(0, 1)); break;
  default: fprintf(stderr, "bv: op %d\n", e->op); _exit(99);
  }
  return zBV[e->id] = keep(r);
}

static volatile sig_atomic_t g_inTarget;
// ------------------------------------------------------------------ messages child -> parent
static int g_out = -1;
static std::string g_msg;
static void put(const std::string &s) { g_msg += s; g_msg += '\n'; }
static void flushMsg() {
  size_t o = 0;
  while (o < g_msg.size()) {
    ssize_t r = write(g_out, g_msg.data() + o, g_msg.size() - o);
    if (r < 0) { if (errno == EINTR) continue; break; }
    o += (size_t)r;
  }
  g_msg.clear();
}
static std::string esc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) { if (c == '\n') r += ' '; else if (c == '\\' || c == '"') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r;
}
static std::string inputsStr(const std::map<std::string, u64> &m) {
  std::string s;
  char b[40];
  for (auto &kv : m) { snprintf(b, sizeof b, "=%llx ", (unsigned long long)kv.second); s += kv.first + b; }
  return s;
}

static u64 g_nq, g_nsat, g_nunsat, g_nunk, g_nassertq, g_nsolved;
static double g_solve;
static double g_queryTimeout = 60;
static u64 g_maxEnum = 600;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static Z3_solver S;
static std::string g_inconclusive;

// ------------------------------------------------------------------ queries
// A query is the part of the path condition that shares inputs (transitively) with the formula
// asked about; the inputs outside that part keep the values of the current run.  Verdicts are kept,
// keyed by a 128-bit structural hash of the exact set of formulas, for all workers of a run.
struct H128 { u64 a, b; bool operator<(const H128 &o) const { return a != o.a ? a < o.a : b < o.b; } bool operator==(const H128 &o) const { return a == o.a && b == o.b; } };
static H128 hmix(H128 h, u64 x) {
  h.a = (h.a ^ (x + 0x9E3779B97F4A7C15ull)) * 0xff51afd7ed558ccdull; h.a ^= h.a >> 32;
  h.b = (h.b + (x ^ 0xC2B2AE3D27D4EB4Full)) * 0xc4ceb9fe1a85ec53ull; h.b ^= h.b >> 29;
  return h;
}
static H128 hEx(Ex *e) { return {e->h1, e->h2}; }

struct F { // a formula of a query
  H128 h;
  std::vector<u32> vars;
  bool fp;
  std::function<Z3_ast()> build;
};
static std::vector<u32> g_stamp; static u32 g_stampN;
static void varsOf(Ex *e, std::vector<u32> &out) {
  if (g_stamp.size() < g_nodes + 1) g_stamp.resize(g_nodes + 1, 0);
  ++g_stampN;
  std::vector<Ex *> st{e};
  while (!st.empty()) {
    Ex *x = st.back(); st.pop_back();
    if (!x || x->op == OP_CONST || g_stamp[x->id] == g_stampN) continue;
    g_stamp[x->id] = g_stampN;
    if (x->op == OP_VAR) { out.push_back((u32)x->imm); continue; }
    st.push_back(x->a); st.push_back(x->b); st.push_back(x->c);
  }
}

struct Slot { std::atomic<u64> k1; u64 k2; std::atomic<u64> state; }; // state: 0 free, 1 being written, else 2+offset
struct Cache { std::atomic<u64> top; std::atomic<u64> hits, misses; char pad[40]; };
static Cache *g_cache; static Slot *g_slots; static char *g_blob;
static const u64 NSLOT = 1u << 20, BLOBSZ = 1ull << 30;
static void cacheInit() {
  char *p = (char *)mmap(nullptr, sizeof(Cache) + NSLOT * sizeof(Slot) + BLOBSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) return;
  g_cache = (Cache *)p;
  g_slots = (Slot *)(p + sizeof(Cache));
  g_blob = p + sizeof(Cache) + NSLOT * sizeof(Slot);
}
struct Res { Z3_lbool r; std::vector<std::pair<u64, u64>> vals; u64 want; };
static bool cacheGet(H128 k, Res &r) {
  if (!g_cache) return false;
  for (u64 i = k.a % NSLOT, n = 0; n < 32; ++n, i = (i + 1) % NSLOT) {
    u64 s = g_slots[i].state.load(std::memory_order_acquire);
    if (s == 0) return false;
    if (s == 1) continue;
    if (g_slots[i].k1.load(std::memory_order_relaxed) == k.a && g_slots[i].k2 == k.b) {
      u64 *b = (u64 *)(g_blob + (s - 2));
      r.r = b[0] ? Z3_L_TRUE : Z3_L_FALSE;
      r.want = b[1];
      for (u64 j = 0; j < b[2]; ++j) r.vals.push_back({b[3 + 2 * j], b[4 + 2 * j]});
      return true;
    }
  }
  return false;
}
static void cachePut(H128 k, const Res &r) {
  if (!g_cache) return;
  u64 need = 8 * (3 + 2 * r.vals.size());
  for (u64 i = k.a % NSLOT, n = 0; n < 32; ++n, i = (i + 1) % NSLOT) {
    u64 z = 0;
    if (!g_slots[i].state.compare_exchange_strong(z, 1)) continue;
    u64 off = g_cache->top.fetch_add(need);
    if (off + need > BLOBSZ) return; // full; slot stays unusable
    u64 *b = (u64 *)(g_blob + off);
    b[0] = r.r == Z3_L_TRUE; b[1] = r.want; b[2] = r.vals.size();
    for (size_t j = 0; j < r.vals.size(); ++j) { b[3 + 2 * j] = r.vals[j].first; b[4 + 2 * j] = r.vals[j].second; }
    g_slots[i].k2 = k.b;
    g_slots[i].k1.store(k.a, std::memory_order_relaxed);
    g_slots[i].state.store(off + 2, std::memory_order_release);
    return;
  }
}

static void zInit() {
  if (Z) return;
  Z3_config cfg = Z3_mk_config();
  char tb[32]; snprintf(tb, sizeof tb, "%d", (int)(g_queryTimeout * 1000));
  Z3_set_param_value(cfg, "timeout", tb);
  Z3_set_param_value(cfg, "model", "true");
  Z = Z3_mk_context(cfg);
  Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "Z3 error %s\n", Z3_get_error_msg(c, e)); _exit(98); });
}
static void zReset() {
  if (Z) Z3_del_context(Z);
  Z = nullptr; g_keepCount = 0;
}

// path condition components
static std::vector<u32> g_uf;
static std::vector<std::vector<u32>> g_comp; // root var -> indices of prefix formulas
static std::vector<F> g_prefix;
static u32 uf(u32 x) { while (g_uf[x] != x) x = g_uf[x] = g_uf[g_uf[x]]; return x; }
static void addPrefix(F f) {
  if (f.vars.empty()) return;
  u32 r = uf(f.vars[0]);
  for (u32 v : f.vars) {
    u32 q = uf(v);
    if (q == r) continue;
    if (g_comp[q].size() > g_comp[r].size()) std::swap(q, r);
    g_comp[r].insert(g_comp[r].end(), g_comp[q].begin(), g_comp[q].end());
    std::vector<u32>().swap(g_comp[q]);
    g_uf[q] = r;
  }
  g_comp[r].push_back((u32)g_prefix.size());
  g_prefix.push_back(std::move(f));
}
// Is (path condition so far) and all of ex satisfiable?  On yes, m: the inputs of a run that does it.
static Z3_lbool query(std::vector<F *> ex, std::map<std::string, u64> *m, Ex *want = nullptr, u64 *wantVal = nullptr) {
  std::set<u32> roots;
  for (F *f : ex) for (u32 v : f->vars) roots.insert(uf(v));
  std::vector<F *> fs(ex);
  for (u32 r : roots) for (u32 i : g_comp[r]) fs.push_back(&g_prefix[i]);
  std::sort(fs.begin(), fs.end(), [](F *x, F *y) { return x->h < y->h; });
  fs.erase(std::unique(fs.begin(), fs.end(), [](F *x, F *y) { return x->h == y->h; }), fs.end());
  H128 k{0x1234567, 0x89abcdef};
  bool fp = false;
  for (F *f : fs) { k = hmix(hmix(k, f->h.a), f->h.b); fp |= f->fp; }
  if (want) k = hmix(hmix(k, want->h1), want->h2);
  Res res{Z3_L_UNDEF, {}, 0};
  ++g_nq;
  if (!cacheGet(k, res)) {
    double t0 = now();
    zInit();
    std::set<u32> vs;
    for (F *f : fs) vs.insert(f->vars.begin(), f->vars.end());
    if (fp || (want && want->fp)) {
      Z3_tactic t = nullptr;
      for (const char *n : {"simplify", "propagate-values", "fpa2bv", "propagate-values", "simplify", "ackermannize_bv", "bit-blast", "sat"}) {
        Z3_tactic x = Z3_mk_tactic(Z, n);
        Z3_tactic_inc_ref(Z, x);
        if (t) { Z3_tactic y = Z3_tactic_and_then(Z, t, x); Z3_tactic_inc_ref(Z, y); Z3_tactic_dec_ref(Z, t); Z3_tactic_dec_ref(Z, x); t = y; } else t = x;
      }
      S = Z3_mk_solver_from_tactic(Z, t);
      Z3_solver_inc_ref(Z, S);
      Z3_tactic_dec_ref(Z, t);
    } else {
      S = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
      Z3_solver_inc_ref(Z, S);
    }
    for (F *f : fs) { Z3_ast a = f->build(); Z3_inc_ref(Z, a); Z3_solver_assert(Z, S, a); Z3_dec_ref(Z, a); }
    res.r = Z3_solver_check(Z, S);
    ++g_nsolved;
    if (res.r == Z3_L_TRUE) {
      Z3_model mo = Z3_solver_get_model(Z, S);
      Z3_model_inc_ref(Z, mo);
      for (u32 i : vs) {
        u64 val = g_vars[i].val;
        Z3_ast c = bv(g_vars[i].e);
        Z3_ast in = Z3_model_get_const_interp(Z, mo, Z3_get_app_decl(Z, Z3_to_app(Z, c)));
        uint64_t x;
        if (in && Z3_get_numeral_uint64(Z, in, &x)) val = x;
        res.vals.push_back({g_vars[i].hash, val});
      }
      if (getenv("SY_CHECK")) { // debugging aid: does our reading of the model satisfy the query?
        std::vector<Z3_ast> from, to;
        size_t q = 0;
        for (u32 i : vs) { from.push_back(bv(g_vars[i].e)); Z3_ast n = bvK(res.vals[q++].second, g_vars[i].bits); Z3_inc_ref(Z, n); to.push_back(n); }
        for (F *f : fs) {
          Z3_ast a = f->build(); Z3_inc_ref(Z, a);
          Z3_ast o = Z3_simplify(Z, Z3_substitute(Z, a, (unsigned)from.size(), from.data(), to.data()));
          if (getenv("SY_DUMP") || Z3_get_bool_value(Z, o) != Z3_L_TRUE) {
            fprintf(stderr, "BADMODEL %s\n", Z3_ast_to_string(Z, a));
            fprintf(stderr, "MODEL %s\n", Z3_model_to_string(Z, mo));
          }
        }
      }
      if (want) {
        // the variables the model leaves free take the value of the current run
        Z3_ast out;
        std::vector<Z3_ast> from, to;
        for (u32 i : vs) from.push_back(bv(g_vars[i].e));
        for (auto &p : res.vals) { (void)p; }
        size_t q = 0;
        for (u32 i : vs) { Z3_ast n = bvK(res.vals[q++].second, g_vars[i].bits); Z3_inc_ref(Z, n); to.push_back(n); }
        out = Z3_substitute(Z, bv(want), (unsigned)from.size(), from.data(), to.data());
        Z3_inc_ref(Z, out);
        Z3_ast sm = Z3_simplify(Z, out);
        Z3_inc_ref(Z, sm);
        uint64_t x = 0;
        if (!Z3_get_numeral_uint64(Z, sm, &x)) { g_inconclusive = "model eval"; res.r = Z3_L_UNDEF; }
        res.want = x;
        Z3_dec_ref(Z, sm); Z3_dec_ref(Z, out);
        for (auto n : to) Z3_dec_ref(Z, n);
      }
      Z3_model_dec_ref(Z, mo);
    }
    Z3_solver_dec_ref(Z, S);
    g_solve += now() - t0;
    if (res.r != Z3_L_UNDEF) cachePut(k, res);
  }
  if (res.r == Z3_L_TRUE) ++g_nsat; else if (res.r == Z3_L_FALSE) ++g_nunsat; else { ++g_nunk; if (g_inconclusive.empty()) g_inconclusive = "solver timeout/unknown"; }
  if (res.r == Z3_L_TRUE) {
    if (wantVal) *wantVal = res.want;
    if (m) {
      std::unordered_map<u64, u64> mv(res.vals.begin(), res.vals.end());
      for (auto &v : g_vars) { auto it = mv.find(v.hash); (*m)[v.name] = it == mv.end() ? v.val : it->second; }
    }
  }
  return res.r;
}
static Z3_ast eventFormula(const Event &ev) {
  switch (ev.k) {
  case Event::BR: case Event::ASSUME: return ev.taken ? bo(ev.cond) : Z3_mk_not(Z, bo(ev.cond));
  case Event::VAL: return Z3_mk_eq(Z, bv(ev.cond), bvK(ev.taken, ev.cond->bits));
  case Event::SW: {
    bool isCase = false;
    for (u32 i = 0; i < ev.n; ++i) if (ev.cases[i] == ev.taken) isCase = true;
    if (isCase) return Z3_mk_eq(Z, bv(ev.cond), bvK(ev.taken, ev.cond->bits));
    std::vector<Z3_ast> t;
    for (u32 i = 0; i < ev.n; ++i) t.push_back(keep(Z3_mk_not(Z, keep(Z3_mk_eq(Z, bv(ev.cond), keep(bvK(ev.cases[i], ev.cond->bits)))))));
    if (t.empty()) return Z3_mk_true(Z);
    return Z3_mk_and(Z, t.size(), t.data());
  }
  }
  return nullptr;
}
static F fEvent(const Event &ev, bool neg) {
  F f;
  f.h = hmix(hmix(hEx(ev.cond), (ev.k == Event::ASSUME ? Event::BR : ev.k) * 2 + neg), ev.taken);
  if (ev.k == Event::SW) for (u32 i = 0; i < ev.n; ++i) f.h = hmix(f.h, ev.cases[i]);
  f.fp = ev.cond->fp;
  varsOf(ev.cond, f.vars);
  f.build = [ev, neg] { return neg ? Z3_mk_not(Z, keep(eventFormula(ev))) : eventFormula(ev); };
  return f;
}
static F fNotAll(std::vector<Ex *> es) {
  F f;
  f.h = {7, 11};
  f.fp = false;
  std::set<u32> vs;
  for (Ex *e : es) { f.h = hmix(hmix(f.h, e->h1), e->h2); f.fp |= e->fp; std::vector<u32> v; varsOf(e, v); vs.insert(v.begin(), v.end()); }
  f.vars.assign(vs.begin(), vs.end());
  f.build = [es] {
    std::vector<Z3_ast> n;
    for (Ex *e : es) n.push_back(keep(Z3_mk_not(Z, bo(e))));
    return n.size() == 1 ? n[0] : Z3_mk_or(Z, (unsigned)n.size(), n.data());
  };
  return f;
}
static u64 stepHash(u64 h, u64 k, u64 taken) {
  h = (h ^ k) * 1099511628211ull;
  return (h ^ taken) * 1099511628211ull;
}
static void emitAlt(u32 bound, u64 hash, const std::map<std::string, u64> &m) {
  char b[64];
  if (getenv("SY_TRACE")) {
    fprintf(stderr, "ALT %u %llx from %s\n", bound, (unsigned long long)hash, inputsStr(m).c_str());
    for (u32 i = 0; i < bound; ++i) fprintf(stderr, "  %d %llx %s\n", (int)g_pc[i].k, (unsigned long long)g_pc[i].taken, g_pc[i].where);
  }
  put(std::string("SPLIT ") + (g_pc[bound - 1].where ? g_pc[bound - 1].where : "?"));
  snprintf(b, sizeof b, "ALT %u %llx ", bound, (unsigned long long)hash);
  put(b + inputsStr(m));
}

static void solvePhase() {
  bool need = g_pc.size() > g_bound;
  for (auto &a : g_asserts) if (a.pos >= g_bound) need = true;
  if (!need) return;
  g_stamp.clear(); g_stampN = 0;
  g_prefix.clear(); g_prefix.reserve(g_pc.size() + 1);
  g_uf.resize(g_vars.size()); g_comp.assign(g_vars.size(), {});
  for (u32 i = 0; i < g_uf.size(); ++i) g_uf[i] = i;
  u64 h = 1469598103934665603ull;
  size_t ai = 0;
  auto doAsserts = [&](u32 pos) {
    // assertions made after exactly pos events: one query for "some one fails"; if sat, report which
    size_t b = ai;
    while (ai < g_asserts.size() && g_asserts[ai].pos <= pos) ++ai;
    if (pos < g_bound || b == ai) return;
    std::vector<Ex *> es;
    for (size_t k = b; k < ai; ++k) es.push_back(g_asserts[k].cond);
    F f = fNotAll(es);
    ++g_nassertq;
    if (query({&f}, nullptr) != Z3_L_TRUE) return;
    for (size_t k = b; k < ai; ++k) {
      F g = fNotAll({g_asserts[k].cond});
      std::map<std::string, u64> m;
      if (query({&g}, &m) == Z3_L_TRUE) put(std::string("FAIL ") + g_asserts[k].label + "\t" + inputsStr(m));
    }
  };
  for (u32 i = 0; i < g_pc.size(); ++i) {
    doAsserts(i);
    Event &ev = g_pc[i];
    if (i >= g_bound) {
      if (ev.k == Event::BR || (ev.k == Event::ASSUME && !ev.taken)) {
        F f = fEvent(ev, true);
        std::map<std::string, u64> m;
        if (query({&f}, &m) == Z3_L_TRUE) emitAlt(i + 1, stepHash(h, ev.k, !ev.taken), m);
      } else if (ev.k == Event::VAL) {
        std::vector<F> ex;
        ex.push_back(fEvent(ev, true));
        for (u64 n = 0;;) {
          std::vector<F *> p;
          for (auto &f : ex) p.push_back(&f);
          std::map<std::string, u64> m;
          u64 val = 0;
          if (query(p, &m, ev.cond, &val) != Z3_L_TRUE) break;
          if (++n > g_maxEnum) { g_inconclusive = std::string("too many values for a concretized expression in ") + ev.where; break; }
          emitAlt(i + 1, stepHash(h, ev.k, val), m);
          Event e2 = ev;
          e2.taken = val;
          ex.push_back(fEvent(e2, true));
        }
      } else if (ev.k == Event::SW) {
        std::set<u64> alts(ev.cases, ev.cases + ev.n);
        alts.insert(~0ull - 7);
        for (u64 a : alts) {
          if (a == ev.taken) continue;
          Event e2 = ev;
          e2.taken = a;
          F f = fEvent(e2, false);
          std::map<std::string, u64> m;
          if (query({&f}, &m) == Z3_L_TRUE) emitAlt(i + 1, stepHash(h, ev.k, a), m);
        }
      }
    }
    h = stepHash(h, ev.k, ev.taken);
    addPrefix(fEvent(ev, false));
  }
  doAsserts((u32)g_pc.size());
}

static void resetPath() {
  g_pc.clear(); g_asserts.clear(); g_reached.clear(); g_assertCount.clear(); g_vars.clear(); g_varCount.clear();
  g_ops = g_concs = g_dropped = g_nodes = 0;
  g_notes.clear(); g_diverged = false; g_hash = 1469598103934665603ull;
  g_known.clear(); g_unmodelled.clear(); g_tab.clear(); g_fixed.clear();
  for (auto &kv : g_mem) delete kv.second;
  g_mem.clear(); g_lastPg = ~0ull; g_last = nullptr;
  for (char *a : g_arenas) free(a);
  g_arenas.clear(); g_arena = g_arenaEnd = nullptr;
  g_nsolved = g_nq = g_nsat = g_nunsat = g_nunk = g_nassertq = 0; g_solve = 0;
  g_inconclusive.clear(); g_finishing = false; g_formatExact = false;
    // Z3 terms of this path
  if (Z) for (auto *zv : {&zBV, &zFP, &zB}) { for (Z3_ast a : *zv) if (a) Z3_dec_ref(Z, a); zv->clear(); }
  if (g_keepCount > 200000) zReset();
  memset(__sy_args, 0, sizeof __sy_args); __sy_argtag = nullptr; memset(__sy_rets, 0, sizeof __sy_rets); __sy_rettag = nullptr;
}

static bool g_inSolve = false;
[[noreturn]] static void finishPath(const char *status, const std::string &detail) {
  g_active = false;
  if (g_finishing) { fprintf(stderr, "nested finish: %s %s\n", status, detail.c_str()); _exit(97); }
  g_finishing = true;
  g_inTarget = 0;
  { struct itimerval it = {}; setitimer(ITIMER_REAL, &it, nullptr); }
  std::map<std::string, u64> cur;
  for (auto &v : g_vars) cur[v.name] = v.val;
  put(std::string("STATUS ") + status + "\t" + esc(detail));
  put("INPUTS " + inputsStr(cur));
  if (strcmp(status, "engine-error") != 0 && strcmp(status, "hang") != 0) solvePhase();
  char b[400];
  for (auto &kv : g_reached) put("REACH " + kv.first);
  for (auto &kv : g_assertCount) { snprintf(b, sizeof b, "ASRT %u ", kv.second); put(b + kv.first); }
  for (auto &u : g_unmodelled) put("UNMOD " + u);
  if (!g_inconclusive.empty()) put("INC " + g_inconclusive);
  if (!g_notes.empty()) put("NOTE " + esc(g_notes));
  snprintf(b, sizeof b, "STAT %llu %llu %llu %llu %llu %f %llu %llu %llu %llu %llu %llu", (unsigned long long)g_nq, (unsigned long long)g_nsat, (unsigned long long)g_nunsat,
           (unsigned long long)g_nunk, (unsigned long long)g_nassertq, g_solve, (unsigned long long)g_pc.size(), (unsigned long long)g_ops, (unsigned long long)g_concs,
           (unsigned long long)g_dropped, (unsigned long long)g_nodes, (unsigned long long)g_nsolved);
  put(b);
  bool reusable = g_batch && (!strcmp(status, "ok") || !strcmp(status, "infeasible"));
  put(reusable ? "END again" : "END");
  flushMsg();
  if (!reusable) _exit(0);
  siglongjmp(g_loop, 1);
}

// ------------------------------------------------------------------ harness API
static Ex *newVar(const char *name, unsigned bits, u64 *val) {
  std::string n = name;
  for (char &c : n) if (c == ' ' || c == '=' || c == '\t' || c == '\n') c = '_';
  n += "#" + std::to_string(g_varCount[n]++);
  auto it = g_inputs.find(n);
  u64 v = it == g_inputs.end() ? 0 : it->second & mask(bits);
  *val = v;
  u64 h = 1469598103934665603ull;
  for (unsigned char c : n) h = (h ^ c) * 1099511628211ull;
  h = (h ^ bits) * 1099511628211ull; h ^= h >> 31; h *= 0x9E3779B97F4A7C15ull;
  g_vars.push_back({n, bits, v, nullptr, h});
  Ex *e = raw(OP_VAR, bits, g_vars.size() - 1, 0, 0, 0, v);
  g_vars.back().e = e;
  return e;
}
static void retSh(void *fn, Ex *e) { __sy_rets[0] = (e && isC(e)) ? nullptr : e; __sy_rettag = fn; }
static Ex *argSh(unsigned i) { return __sy_argtag ? __sy_args[i] : nullptr; }

extern "C" {
int32_t sym_int(const char *name) { u64 v; Ex *e = newVar(name, 32, &v); retSh((void *)sym_int, e); return (int32_t)v; }
int64_t sym_long(const char *name) { u64 v; Ex *e = newVar(name, 64, &v); retSh((void *)sym_long, e); return (int64_t)v; }
uint8_t sym_byte(const char *name) { u64 v; Ex *e = newVar(name, 8, &v); retSh((void *)sym_byte, e); return (uint8_t)v; }
bool sym_bool(const char *name) { u64 v; Ex *e = newVar(name, 1, &v); retSh((void *)sym_bool, e); return v; }
double sym_double(const char *name) { u64 v; Ex *e = newVar(name, 64, &v); retSh((void *)sym_double, e); return toD(v, 64); }
static void assumeE(Ex *c, bool v) {
  if (!c || isC(c)) { if (!v) finishPath("infeasible", ""); return; }
  branchOn(c, v, "assume", v ? Event::ASSUME : Event::ASSUME);
  if (!v) finishPath("infeasible", "");
}
int32_t sym_range(const char *name, int32_t lo, int32_t hi) {
  u64 v;
  Ex *e = newVar(name, 32, &v);
  Ex *c = mk(OP_AND, 1, 0, mk(OP_ICMP, 1, SGE, e, K((u32)lo, 32)), mk(OP_ICMP, 1, SLE, e, K((u32)hi, 32)));
  assumeE(c, c->val);
  retSh((void *)sym_range, e);
  return (int32_t)v;
}
int32_t sym_choose(const char *name, int32_t n) {
  u64 v;
  Ex *e = newVar(name, 32, &v);
  Ex *c = mk(OP_ICMP, 1, ULT, e, K((u32)n, 32));
  assumeE(c, c->val);
  concretize(e, v, "choose");
  retSh((void *)sym_choose, nullptr);
  return (int32_t)v;
}
void sym_bytes(void *p, size_t n, const char *name) {
  for (size_t i = 0; i < n; ++i) {
    u64 v;
    Ex *e = newVar(name, 8, &v);
    ((u8 *)p)[i] = (u8)v;
    setB((u64)p + i, e);
  }
}
void sym_assume(bool c) {
  Ex *s = argSh(0);
  __sy_argtag = nullptr;
  assumeE(s ? asBool(s) : nullptr, c);
}
void sym_assert(bool c, const char *label) {
  Ex *s = argSh(0);
  __sy_argtag = nullptr;
  if (!g_active) return;
  ++g_assertCount[label];
  if (!c) { finishPath("assert", label); }
  if (!s) return;
  s = asBool(s);
  if (isC(s)) return;
  if (g_known.count(((u64)s->id << 1) | 1)) return;
  g_asserts.push_back({s, (u32)g_pc.size(), label});
}
void sym_reach(const char *label) { ++g_reached[label]; }
int64_t sym_enum(int64_t v) {
  Ex *s = argSh(0);
  __sy_argtag = nullptr;
  if (s) concretize(s, (u64)v, "enum");
  retSh((void *)sym_enum, nullptr);
  return v;
}
void sym_format_exact(bool on) { g_formatExact = on; }
void sym_note(const char *fmt, ...) {
  bool a = g_active;
  g_active = false;
  char buf[600];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (g_notes.size() < 4000) { if (!g_notes.empty()) g_notes += "; "; g_notes += buf; }
  g_active = a;
  __sy_argtag = nullptr;
}
bool sym_is_replay(void) { retSh((void *)sym_is_replay, nullptr); return false; }
}

// ------------------------------------------------------------------ parent
struct Target { std::string name; sym_fn f; std::string needs; int flags; };
static std::vector<Target> &targets() { static std::vector<Target> t; return t; }
extern "C" void sym_register_target(const char *name, sym_fn f, const char *needs, int flags) {
  targets().push_back({name, f, needs ? needs : "", flags});
}

struct Job { u32 bound; u64 hash; std::string in; bool retry; int tries = 0; };
struct Child { pid_t pid; int fd, to; std::string buf; Job job; double t0; bool busy; u64 done; };
struct Viol { std::string kind, detail; std::map<std::string, u64> in; };

static sigjmp_buf g_jmp;
static volatile int g_sig;
static void onSig(int s) {
  if (!g_inTarget) { signal(s, SIG_DFL); raise(s); return; }
  g_sig = s;
  g_inTarget = 0;
  siglongjmp(g_jmp, 1);
}
static std::map<std::string, u64> parseInputs(const std::string &s) {
  std::map<std::string, u64> m;
  size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find(' ', i);
    if (e == std::string::npos) e = s.size();
    size_t q = s.rfind('=', e);
    if (q != std::string::npos && q > i && q < e) m[s.substr(i, q - i)] = strtoull(s.c_str() + q + 1, nullptr, 16);
    i = e + 1;
  }
  return m;
}

static double g_hangSecs = 20;
static void runPath(Target &t) {
  struct itimerval it = {};
  it.it_value.tv_sec = (long)g_hangSecs;
  if (sigsetjmp(g_jmp, 1) == 0) {
    g_inTarget = 1;
    setitimer(ITIMER_REAL, &it, nullptr);
    g_active = true;
    std::string what;
    bool exc = false;
    try {
      t.f();
    } catch (std::exception &e) {
      g_active = false; exc = true;
      int st; char *dn = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
      what = std::string(dn ? dn : "exception") + ": " + e.what();
    } catch (...) {
      g_active = false; exc = true;
      std::type_info *ti = abi::__cxa_current_exception_type();
      int st; char *dn = ti ? abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st) : nullptr;
      what = dn ? dn : "unknown exception";
    }
    g_active = false;
    g_inTarget = 0;
    if (exc) finishPath("exception", what);
    finishPath("ok", "");
  }
  g_active = false;
  setitimer(ITIMER_REAL, &(it = {}), nullptr);
  if (g_sig == SIGALRM) finishPath("hang", "no result in time");
  finishPath("crash", strsignal(g_sig));
}
// A worker reads jobs ("bound hash inputs\n") from fd in, runs them, answers on g_out.
static void runWorker(Target &t, int in, bool batch) {
  struct rlimit rl = {6ull << 30, 6ull << 30};
  setrlimit(RLIMIT_AS, &rl);
  rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  static char stk[1 << 16];
  stack_t ss = {};
  ss.ss_sp = stk; ss.ss_size = sizeof stk;
  sigaltstack(&ss, nullptr);
  struct sigaction sa = {};
  sa.sa_handler = onSig;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
  static std::string buf;
  g_batch = batch;
  sigsetjmp(g_loop, 1);
  resetPath();
  for (;;) {
    size_t e = buf.find('\n');
    if (e != std::string::npos) {
      std::string l = buf.substr(0, e);
      buf.erase(0, e + 1);
      unsigned b; unsigned long long h; int n = 0;
      sscanf(l.c_str(), "%u %llx %n", &b, &h, &n);
      g_bound = b; g_boundHash = h;
      g_inputs = parseInputs(l.substr(n));
      runPath(t);
    }
    char tmp[65536];
    ssize_t r = read(in, tmp, sizeof tmp);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) _exit(0);
    buf.append(tmp, (size_t)r);
  }
}

static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
static std::string jin(const std::map<std::string, u64> &m) {
  std::string r = "{";
  bool f = true;
  char b[40];
  for (auto &kv : m) { snprintf(b, sizeof b, ":\"%llx\"", (unsigned long long)kv.second); r += (f ? "" : ",") + jstr(kv.first) + b; f = false; }
  return r + "}";
}

int main(int argc, char **argv) {
  std::string tname, out = "-";
  int jobs = 8;
  u64 maxPaths = 200000;
  double maxTime = 600;
  u64 maxViol = 12;
  bool list = false, verbose = false;
  u64 sampleN = 64;
  u64 batch = 200;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--target") tname = nx();
    else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--max-paths") maxPaths = strtoull(nx().c_str(), 0, 10);
    else if (a == "--time") maxTime = atof(nx().c_str());
    else if (a == "--query-timeout") g_queryTimeout = atof(nx().c_str());
    else if (a == "--out") out = nx();
    else if (a == "--list") list = true;
    else if (a == "--batch") batch = strtoull(nx().c_str(), 0, 10);
    else if (a == "--hang") g_hangSecs = atof(nx().c_str());
    else if (a == "--samples") sampleN = strtoull(nx().c_str(), 0, 10);
    else if (a == "-v") verbose = true;
  }
  if (list) { for (auto &t : targets()) printf("%s\n", t.name.c_str()); return 0; }
  Target *T = nullptr;
  for (auto &t : targets()) if (t.name == tname) T = &t;
  if (!T) { fprintf(stderr, "no target %s\n", tname.c_str()); return 3; }
  g_hit = (u8 *)mmap(nullptr, g_fns.size() + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  signal(SIGPIPE, SIG_IGN);
  cacheInit();
  double t0 = now();
  std::deque<Job> Q;
  Q.push_back({0, 0, "", false});
  signal(SIGCHLD, SIG_DFL);
  std::vector<Child> ch;
  u64 paths = 0, okPaths = 0, infeasible = 0, pathsWithAssert = 0;
  u64 nq = 0, ns = 0, nu = 0, nk = 0, na = 0, ops = 0, concs = 0, dropped = 0, maxev = 0, events = 0;
  double solve = 0; u64 solved = 0;
  std::map<std::string, u64> reach, asrt, unmod, incs, splits;
  std::map<std::string, u64> stat;
  std::vector<Viol> viols;
  std::map<std::string, u64> violSeen;
  std::vector<std::pair<std::string, std::map<std::string, u64>>> samples;
  std::vector<std::string> notes;
  bool stop = false;
  auto addViol = [&](const std::string &kind, const std::string &detail, const std::map<std::string, u64> &in) {
    if (violSeen[kind + detail]++ < 3 && viols.size() < maxViol) viols.push_back({kind, detail, in});
    if (verbose) fprintf(stderr, "VIOL %s %s %s\n", kind.c_str(), detail.c_str(), inputsStr(in).c_str());
  };
  u64 retried = 0;
  auto nBusy = [&] { size_t n = 0; for (auto &c : ch) n += c.busy; return n; };
  auto reap = [&](size_t i) {
    close(ch[i].to);
    close(ch[i].fd);
    int st = 0;
    waitpid(ch[i].pid, &st, 0);
    ch.erase(ch.begin() + (long)i);
    return st;
  };
  while (!Q.empty() || nBusy()) {
    if (!stop && now() - t0 > maxTime) { incs["time budget exceeded"]++; stop = true; Q.clear(); for (auto &c : ch) kill(c.pid, SIGKILL); }
    if (!stop && paths >= maxPaths && !Q.empty()) { incs["path budget exceeded"]++; stop = true; Q.clear(); }
    if (!stop && viols.size() >= maxViol) { stop = true; Q.clear(); }
    while (!stop && !Q.empty() && (int)nBusy() < jobs && paths + nBusy() < maxPaths) {
      Job j = std::move(Q.front());
      Q.pop_front();
      Child *w = nullptr;
      if (!j.retry) for (auto &c : ch) if (!c.busy) w = &c;
      if (!w) {
        for (size_t i = ch.size(); i-- > 0;) if (!ch[i].busy && (int)ch.size() >= jobs) reap(i);
        int p[2], q[2];
        if (pipe(p) || pipe(q)) { perror("pipe"); return 3; }
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 3; }
        if (pid == 0) {
          close(p[0]); close(q[1]);
          for (auto &c : ch) { close(c.fd); close(c.to); }
          g_out = p[1];
          if (!verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); }
          runWorker(*T, q[0], batch > 1 && !j.retry);
          _exit(96);
        }
        close(p[1]); close(q[0]);
        ch.push_back({pid, p[0], q[1], "", {}, 0, false, 0});
        w = &ch.back();
      }
      char hb[64];
      snprintf(hb, sizeof hb, "%u %llx ", j.bound, (unsigned long long)j.hash);
      std::string m = hb + j.in + "\n";
      for (size_t o = 0; o < m.size();) { ssize_t r = write(w->to, m.data() + o, m.size() - o); if (r <= 0) break; o += (size_t)r; }
      w->job = std::move(j);
      w->busy = true;
      w->t0 = now();
    }
    if (!nBusy()) { if (Q.empty() || stop) break; continue; }
    std::vector<struct pollfd> pf;
    for (auto &c : ch) pf.push_back({c.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 500);
    for (size_t i = ch.size(); i-- > 0;) {
      Child &c = ch[i];
      if (c.busy && now() - c.t0 > g_hangSecs + g_queryTimeout * 4 + 60) { kill(c.pid, SIGKILL); }
      if (!(pf[i].revents & (POLLIN | POLLHUP | POLLERR))) continue;
      char buf[65536];
      ssize_t r = read(c.fd, buf, sizeof buf);
      if (r < 0 && errno == EINTR) continue;
      bool dead = r <= 0;
      if (r > 0) c.buf.append(buf, (size_t)r);
      bool ended = false, again = false;
      size_t bl = c.buf.size();
      if (bl >= 4 && !c.buf.compare(bl - 4, 4, "END\n") && (bl == 4 || c.buf[bl - 5] == '\n')) ended = true;
      if (bl >= 10 && !c.buf.compare(bl - 10, 10, "END again\n") && (bl == 10 || c.buf[bl - 11] == '\n')) ended = again = true;
      if (!ended && !dead) continue;
      if (!c.busy) { if (dead) reap(i); continue; }
      Job job = std::move(c.job);
      std::string msg;
      msg.swap(c.buf);
      c.busy = false;
      bool fresh = job.retry || c.done == 0;
      ++c.done;
      int st = 0;
      if (dead || !again || c.done >= batch) { if (ended) kill(c.pid, SIGKILL); st = reap(i); }
      std::string status, detail;
      std::map<std::string, u64> cur;
      size_t pos = 0;
      std::vector<std::string> lines;
      while (pos < msg.size()) {
        size_t e = msg.find('\n', pos);
        if (e == std::string::npos) break;
        lines.push_back(msg.substr(pos, e - pos));
        pos = e + 1;
      }
      for (auto &l : lines) {
        if (!l.compare(0, 7, "STATUS ")) { size_t t = l.find('\t'); status = l.substr(7, t - 7); detail = l.substr(t + 1); }
        if (!l.compare(0, 5, "FAIL ") && status == "ok") status = "ok+fail";
      }
      // anything but a clean path in a reused worker is decided by a fresh one
      if (!fresh && !stop && (!ended || (status != "ok" && status != "infeasible"))) { job.retry = true; ++retried; Q.push_front(std::move(job)); continue; }
      // heap layout may differ between processes: a run which left the predicted path gets another chance
      if (!stop && status == "engine-error" && !detail.compare(0, 10, "divergence") && job.tries < 3) {
        if (verbose) fprintf(stderr, "DIVERGED %s | %s\n", detail.c_str(), job.in.c_str());
        job.retry = true; ++job.tries; ++retried; Q.push_front(std::move(job)); continue;
      }
      if (status == "ok+fail") status = "ok";
      ++paths;
      for (auto &l : lines) {
        auto rest = [&](size_t k) { return l.substr(k); };
        if (!l.compare(0, 7, "INPUTS ")) cur = parseInputs(rest(7));
        else if (!l.compare(0, 4, "ALT ")) {
          unsigned b; unsigned long long h; int n = 0;
          sscanf(l.c_str() + 4, "%u %llx %n", &b, &h, &n);
          if (!stop) Q.push_back({b, h, rest(4 + n), false});
        } else if (!l.compare(0, 5, "FAIL ")) { size_t t = l.find('\t'); addViol("assert", l.substr(5, t - 5), parseInputs(rest(t + 1))); }
        else if (!l.compare(0, 6, "REACH ")) reach[rest(6)]++;
        else if (!l.compare(0, 5, "ASRT ")) { unsigned k; int n = 0; sscanf(l.c_str() + 5, "%u %n", &k, &n); asrt[rest(5 + n)] += k; }
        else if (!l.compare(0, 6, "SPLIT ")) splits[rest(6)]++;
        else if (!l.compare(0, 6, "UNMOD ")) unmod[rest(6)]++;
        else if (!l.compare(0, 4, "INC ")) incs[rest(4)]++;
        else if (!l.compare(0, 5, "NOTE ")) { if (notes.size() < 4) notes.push_back(rest(5)); if (verbose) fprintf(stderr, "NOTE %s\n", rest(5).c_str()); }
        else if (!l.compare(0, 5, "STAT ")) {
          unsigned long long v[11] = {}; double sv;
          sscanf(l.c_str() + 5, "%llu %llu %llu %llu %llu %lf %llu %llu %llu %llu %llu %llu", &v[0], &v[1], &v[2], &v[3], &v[4], &sv, &v[5], &v[6], &v[7], &v[8], &v[9], &v[10]);
          nq += v[0]; ns += v[1]; nu += v[2]; nk += v[3]; na += v[4]; solve += sv; solved += v[10]; ops += v[6]; concs += v[7]; dropped += v[8];
          events += v[5];
          if (v[5] > maxev) maxev = v[5];
        }
      }
      if (!ended) {
        if (!stop) { char b[200]; snprintf(b, sizeof b, "child ended abnormally (wait status %x, after status '%s')", st, status.c_str()); incs[b]++; }
      } else {
        stat[status]++;
        if (status == "ok") { ++okPaths; if (samples.size() < sampleN) samples.push_back({"ok", cur}); else { size_t k = (size_t)((paths * 2654435761ull) >> 7) % paths; if (k < sampleN) samples[k] = {"ok", cur}; } }
        else if (status == "infeasible") ++infeasible;
        else if (status == "engine-error") { incs["engine: " + detail]++; if (verbose) fprintf(stderr, "ENGINE %s | %s\n", detail.c_str(), inputsStr(cur).c_str()); }
        else addViol(status, detail, cur);
      }
    }
  }
  for (size_t i = ch.size(); i-- > 0;) { kill(ch[i].pid, SIGKILL); reap(i); }
  (void)pathsWithAssert;
  double wall = now() - t0;
  // needs
  std::vector<std::string> missing;
  {
    std::string n = T->needs;
    size_t i = 0;
    while (i < n.size()) {
      size_t e = n.find(',', i);
      if (e == std::string::npos) e = n.size();
      std::string w = n.substr(i, e - i);
      if (!w.empty() && !reach.count(w)) missing.push_back(w);
      i = e + 1;
    }
  }
  FILE *f = out == "-" ? stdout : fopen(out.c_str(), "w");
  fprintf(f, "{\"target\":%s,\"paths\":%llu,\"ok\":%llu,\"infeasible\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"assert_queries\":%llu,"
             "\"retried\":%llu,\"solved\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"sym_ops\":%llu,\"concretizations\":%llu,\"format_dropped\":%llu,\"max_path_events\":%llu,\"path_events\":%llu,\n",
          jstr(tname).c_str(), (unsigned long long)paths, (unsigned long long)okPaths, (unsigned long long)infeasible, (unsigned long long)nq, (unsigned long long)ns,
          (unsigned long long)nu, (unsigned long long)nk, (unsigned long long)na, (unsigned long long)retried, (unsigned long long)solved, solve, wall, (unsigned long long)ops, (unsigned long long)concs, (unsigned long long)dropped,
          (unsigned long long)maxev, (unsigned long long)events);
  auto jm = [&](const char *n, const std::map<std::string, u64> &m) {
    fprintf(f, "\"%s\":{", n);
    bool c = false;
    for (auto &kv : m) { fprintf(f, "%s%s:%llu", c ? "," : "", jstr(kv.first).c_str(), (unsigned long long)kv.second); c = true; }
    fprintf(f, "},\n");
  };
  jm("reached", reach); jm("asserted", asrt); jm("unmodelled", unmod); jm("inconclusive", incs); jm("status", stat); jm("splits", splits);
  fprintf(f, "\"missing\":[");
  for (size_t i = 0; i < missing.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jstr(missing[i]).c_str());
  fprintf(f, "],\n\"functions\":[");
  bool c = false;
  for (size_t i = 0; i < g_fns.size(); ++i)
    if (g_hit[i]) { fprintf(f, "%s%s", c ? "," : "", jstr(g_fns[i]->name).c_str()); c = true; }
  fprintf(f, "],\n\"violations\":[");
  for (size_t i = 0; i < viols.size(); ++i)
    fprintf(f, "%s{\"kind\":%s,\"detail\":%s,\"inputs\":%s}", i ? ",\n" : "", jstr(viols[i].kind).c_str(), jstr(viols[i].detail).c_str(), jin(viols[i].in).c_str());
  fprintf(f, "],\n\"notes\":[");
  for (size_t i = 0; i < notes.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jstr(notes[i]).c_str());
  fprintf(f, "],\n\"samples\":[");
  for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? ",\n" : "", jin(samples[i].second).c_str());
  fprintf(f, "]}\n");
  if (f != stdout) fclose(f);
  return 0;
}

// Memory may be written by code which is not instrumented before it is read: what a block held before it was
// freed must not be taken for its content.
__attribute__((visibility("default"))) void *operator new(std::size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (g_active) clearRange((u64)p, n);
  return p;
}

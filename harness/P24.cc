/*META
dict(
  srcs=['utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  bounds={'quick': 'every sequence of 4 operations on queues of up to 4 items, 5 insertions into priority queues with any keys; maps and sets with up to 4 insertions of any Integer or one-character string keys; strings of up to 3 characters; all 64-bit words',
          'thorough': 'as quick with 6 queue operations, 5 map operations, strings of up to 5 characters'},
)
META*/
#include "sym.h"
#include "Error.hh"
#include "LinkedQueue.hh"
#include "SimpleMap.hh"
#include "SimpleSet.hh"
#include "map-utils.hh"
#include "bitsetUtils.hh"
#include "stricmp.h"
#include <string>
#include <vector>
using namespace PLEXIL;
#ifdef TIER_THOROUGH
enum { QOPS = 6, INS = 6, MOPS = 5, SLEN = 5 };
#else
enum { QOPS = 4, INS = 5, MOPS = 4, SLEN = 3 };
#endif
struct It {
  int key = 0, id = 0; It *nx = nullptr;
  It *next() const { return nx; }
  It **nextPtr() { return &nx; }
  bool operator<(It const &o) const { return key < o.key; }
};
struct Less { bool operator()(It const &a, It const &b) const { return a.key < b.key; } };
typedef std::vector<It *> V;
template <class Q> static void same(Q &q, V const &v) {
  CHECK(q.size() == v.size() && q.empty() == v.empty(), "a queue knows its size");
  CHECK(q.front() == (v.empty() ? nullptr : v[0]), "the front is the first item");
  size_t i = 0;
  for (auto it = q.begin(); it != q.end(); ++it) { CHECK(i < v.size() && *it == v[i], "a queue holds its items in order"); if (++i > v.size()) break; }
  CHECK(i == v.size(), "a queue holds its items in order");
  Q const &cq = q; i = 0;
  for (auto it = cq.begin(); it != cq.end(); ++it) { CHECK(i < v.size() && *it == v[i], "a queue holds its items in order"); if (++i > v.size()) break; }
  CHECK(i == v.size(), "a queue holds its items in order");
}
template <class Q> static void common(Q &q, V &v, It *items, int n, int op) {
  switch (op) {
  case 0: q.pop(); if (!v.empty()) { CHECK(v[0]->nx == nullptr, "an item taken out is not linked"); v.erase(v.begin()); } break;
  case 1: {
    It *x = &items[sym_choose("remove", n)];
    q.remove(x);
    for (size_t i = 0; i < v.size(); ++i) if (v[i] == x) { v.erase(v.begin() + i); CHECK(x->nx == nullptr, "an item taken out is not linked"); break; }
    break;
  }
  case 2: case 3: {
    int k = sym_int("wanted");
    auto pred = [k](It const *x) { return x->key == k; };
    It *want = nullptr; size_t at = 0;
    for (size_t i = 0; i < v.size(); ++i) if (v[i]->key == k) { want = v[i]; at = i; break; }
    if (op == 2) { CHECK(q.find_if(pred) == want, "the first item which fits is found"); }
    else { It *r = q.remove_if(pred); CHECK(r == want, "the first item which fits is removed"); if (want) { v.erase(v.begin() + at); CHECK(want->nx == nullptr, "an item taken out is not linked"); } }
    break;
  }
  default: q.clear(); for (It *x : v) CHECK(x->nx == nullptr, "an item taken out is not linked"); v.clear(); break;
  }
}
SYM_TARGET(Queue, "done") {
  Error::doThrowExceptions();
  LinkedQueue<It> q; V v; It items[QOPS + 1]; int n = 0;
  for (int i = 0; i < QOPS; ++i) {
    int op = sym_choose("op", 7);
    if (op < 5) common(q, v, items, QOPS, op);
    else {
      It *x = &items[n++]; x->key = sym_int("key");
      if (op == 5) { q.push(x); v.push_back(x); }
      else {
        size_t at = sym_choose("after", (int)v.size() + 1);
        if (at == v.size()) { auto r = q.insert_after(q.end(), x); CHECK(*r == x, "an insertion yields the item"); v.push_back(x); }
        else { auto it = q.begin(); for (size_t k = 0; k < at; ++k) ++it; auto r = q.insert_after(it, x); CHECK(*r == x, "an insertion yields the item"); v.insert(v.begin() + at + 1, x); }
      }
    }
    same(q, v);
  }
  It *x = &items[n]; q.push(x); v.push_back(x); same(q, v);   // the end is where it should be
  sym_reach("done");
}
static void prio(int inserts, int others) {
  Error::doThrowExceptions();
  PriorityQueue<It, Less> q; V v; It items[8];
  for (int i = 0; i < inserts; ++i) {
    It *x = &items[i]; x->key = sym_int("key"); x->id = i;
    q.insert(x);
    size_t at = v.size();
    for (size_t k = 0; k < v.size(); ++k) if (x->key < v[k]->key) { at = k; break; }
    v.insert(v.begin() + at, x);
  }
  same(q, v);
  size_t f = v.empty() ? 0 : 1; while (f && f < v.size() && v[f]->key == v[0]->key) ++f;
  CHECK(q.front_count() == f, "the front count is the number of items equal to the first");
  for (int i = 0; i < others; ++i) { common(q, v, items, inserts, sym_choose("op", 5)); same(q, v); }
  if (others) {
    It *x = &items[inserts]; x->key = sym_int("key"); q.insert(x);
    size_t at = v.size();
    for (size_t k = 0; k < v.size(); ++k) if (x->key < v[k]->key) { at = k; break; }
    v.insert(v.begin() + at, x);
    same(q, v);
  }
  sym_reach("done");
}
SYM_TARGET(Priority, "done") { prio(INS, 0); }
SYM_TARGET(PriorityOps, "done") { prio(sym_choose("inserts", 4), 2); }
struct Num { int n; Num(int i = 0) : n(i) {} operator int() const { return n; } };
SYM_TARGET(Map, "done") {
  SimpleMap<int, Num> m; int ks[MOPS], vs[MOPS], n = 0;
  if (sym_choose("room", 2)) m.grow(2);
  for (int i = 0; i < MOPS; ++i) {
    int k = sym_int("key"), v = sym_int("value");
    int at = -1; for (int j = 0; j < n; ++j) if (ks[j] == k) at = j;
    switch (sym_choose("op", 3)) {
    case 0: CHECK(m.insert(k, v) == (at < 0), "an entry is inserted exactly when its key is new"); if (at < 0) { ks[n] = k; vs[n++] = v; } break;
    case 1: m[k] = v; if (at < 0) { ks[n] = k; vs[n++] = v; } else vs[at] = v; break;
    default: {
      SimpleMap<int, Num> const &c = m;
      auto it = m.find(k); auto ci = c.find(k);
      CHECK((it != m.end()) == (at >= 0) && (ci != c.end()) == (at >= 0), "a key is found exactly when it was entered");
      if (at >= 0) CHECK(it->second == vs[at] && it->first == k && ci->second == vs[at] && c[k] == vs[at], "a key leads to its value"); else CHECK(c[k] == 0, "a key which is not there leads to nothing");
      break;
    }
    }
    CHECK((int)m.size() == n && m.empty() == !n, "a map knows its size");
  }
  int last = 0, cnt = 0;
  for (auto &e : m) { CHECK(!cnt || last < e.first, "a map is sorted"); last = e.first; ++cnt; }
  CHECK(cnt == n, "a map knows its size");
  sym_reach("done");
}
SYM_TARGET(NameMap, "done") {   // as the executive maps names to variables
  SimpleMap<char const *, int, CStringComparator> m; char ks[MOPS][2]; int n = 0, slot[MOPS];
  for (int i = 0; i < MOPS; ++i) {
    ks[i][0] = (char)sym_byte("c"); ks[i][1] = 0;
    int at = -1; for (int j = 0; j < i; ++j) if (ks[j][0] == ks[i][0]) { at = slot[j]; break; }
    slot[i] = at < 0 ? n : at;
    if (i + 1 < MOPS) { CHECK(m.insert(ks[i], slot[i]) == (at < 0), "an entry is inserted exactly when its key is new"); n += at < 0; }
    else {
      auto it = m.find(ks[i]);
      CHECK((it != m.end()) == (at >= 0), "a name is found exactly when it was entered");
      if (at >= 0) CHECK(it->second == at, "a name leads to what was entered with it");
    }
  }
  sym_reach("done");
}
SYM_TARGET(Set, "done") {
  SimpleSet<int> s; int ks[MOPS], n = 0;
  for (int i = 0; i < MOPS; ++i) {
    int k = sym_int("key");
    int at = -1; for (int j = 0; j < n; ++j) if (ks[j] == k) at = j;
    SimpleSet<int> const &c = s;
    switch (sym_choose("op", 4)) {
    case 0: CHECK(s.insert(k) == (at < 0), "a value is inserted exactly when it is new"); if (at < 0) ks[n++] = k; break;
    case 1: CHECK(s.contains(k) == (at >= 0) && (s.find(k) != s.end()) == (at >= 0) && (c.find(k) != c.end()) == (at >= 0), "a value is in the set exactly when it was inserted"); break;
    case 2: CHECK((int)s.erase(k) == (at >= 0), "a value is erased exactly when it is there"); if (at >= 0) ks[at] = ks[--n]; break;
    default: { auto it = s.find(k); if (it != s.end()) { s.erase(it); CHECK(at >= 0, "a value is in the set exactly when it was inserted"); if (at >= 0) ks[at] = ks[--n]; } break; }
    }
    CHECK((int)s.size() == n && s.empty() == !n, "a set knows its size");
  }
  int last = 0, cnt = 0;
  for (int e : s) { CHECK(!cnt || last < e, "a set is sorted"); last = e; ++cnt; }
  CHECK(cnt == n, "a set knows its size");
  sym_reach("done");
}
SYM_TARGET(Stricmp, "equal,different") {
  char a[SLEN + 1], b[SLEN + 1]; int la = sym_choose("la", SLEN + 2) - 1, lb = sym_choose("lb", SLEN + 2) - 1;
  for (int i = 0; i < la; ++i) { a[i] = (char)sym_byte("a"); sym_assume(a[i] != 0); }
  for (int i = 0; i < lb; ++i) { b[i] = (char)sym_byte("b"); sym_assume(b[i] != 0); }
  if (la >= 0) a[la] = 0;
  if (lb >= 0) b[lb] = 0;
  int r = stricmp(la < 0 ? nullptr : a, lb < 0 ? nullptr : b);
  if (la < 0) la = 0;
  if (lb < 0) lb = 0;
  int want = 0, done = 0;   // sign of the first difference after case folding
  for (int i = 0; i < la && i < lb; ++i) {
    int x = a[i], y = b[i];
    x -= 32 * ((x >= 'a') & (x <= 'z')); y -= 32 * ((y >= 'a') & (y <= 'z'));
    int d = (x > y) - (x < y);
    want |= d & -(done == 0); done |= d != 0;
  }
  if (!done) want = (la > lb) - (la < lb);
  CHECK(r == want, "names compare without regard to case, the shorter first");
  sym_reach(r == 0 ? "equal" : "different");
}
SYM_TARGET(Bits, "found") {
  unsigned long w = (unsigned long)sym_long("w");
  int i = findFirstOne(w), z = findFirstZero(w);
  CHECK((i == -1) == (w == 0), "there is a first one unless all are zero");
  if (i >= 0) CHECK(i < 64 && ((w >> i) & 1) && (w & ((1UL << i) - 1)) == 0, "the first one is the lowest");
  CHECK((z == -1) == (w == ~0UL), "there is a first zero unless all are one");
  if (z >= 0) CHECK(z < 64 && !((w >> z) & 1) && ((~w) & ((1UL << z) - 1)) == 0, "the first zero is the lowest");
  sym_reach("found");
}

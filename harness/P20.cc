/*META
dict(
  fork=True,
  srcs=['intfc/*.cc', 'expr/*.cc', 'value/*.cc', 'utils/*.cc', 'utils/*.c', '!utils/JNI*', '!utils/DynamicLoader.cc', '!utils/ThreadSemaphore.cc'],
  bounds={'quick': 'up to 3 commands, each asking for none, one or two of two independent resources, or for resources of a three level hierarchy with shared descendants; every amount which is a multiple of 1/8 in [-2, 2], every priority, either release flag; one or two rounds of arbitration with '
          'any of the accepted commands ending in between, with any command handle; decimal amounts (0.1, 0.3, 0.6, 0.7) for rounding; resource files with any white space and comments', 'thorough': 'as quick with more commands and rounds'},
  assumptions=['amounts are multiples of 1/8 or the decimals listed, at most 2', 'a command names a resource at most once'],
)
META*/
#include "vars.hh"
#include "CommandImpl.hh"
#include "ResourceArbiterInterface.hh"
#include "LinkedQueue.hh"
#include "CommandHandle.hh"
#include <sstream>
#ifdef TIER_THOROUGH
enum { THOROUGH = 1 };
#else
enum { THOROUGH = 0 };
#endif
enum { NR = 8, MAXC = 4 };
// One request: a resource, the amount in eighths, whether it is returned
struct Req { int r; int k; bool release; };
struct Cmd {
  CommandImpl *c; int prio; std::vector<Req> reqs;
  bool running = false;
  int use[NR]; bool uses[NR]; bool rel[NR];    // everything it needs, the hierarchy included
};
struct World {
  std::unique_ptr<ResourceArbiterInterface> arb{makeResourceArbiter()};
  std::vector<std::string> names; std::vector<int> max;      // maxima in eighths
  std::vector<std::vector<std::pair<int, int>>> kids;        // (resource, amount in eighths)
  Cmd cmd[MAXC]; int n = 0;
  int held[NR];                                              // in eighths
  double unit = 0.125;
  World() { throwOnErrors(); for (int &h : held) h = 0; }
  ~World() { for (int i = 0; i < n; ++i) delete cmd[i].c; }
  int res(char const *name, int m) { names.push_back(name); max.push_back(m); kids.emplace_back(); return (int)names.size() - 1; }
  void read() {
    std::ostringstream s;
    for (size_t r = 0; r < names.size(); ++r) {
      s << names[r] << ' ' << max[r] * unit;
      for (auto &k : kids[r]) s << ' ' << k.second * unit << ' ' << names[k.first];
      s << '\n';
    }
    std::istringstream in(s.str());
    CHECK(arb->readResourceHierarchy(in), "the resource file is read");
  }
  static bool implied(World &w, int r, Cmd &c, bool rel) {
    for (auto &k : w.kids[r]) {
      if (!c.uses[k.first]) { c.uses[k.first] = true; c.use[k.first] = k.second; c.rel[k.first] = rel; }
      implied(w, k.first, c, rel);
    }
    return true;
  }
  void add(int prio, std::vector<Req> reqs) {
    Cmd &c = cmd[n];
    c.c = new CommandImpl(std::string("n") + (char)('0' + n)); c.prio = prio; c.reqs = reqs;
    ++n;
    c.c->setNameExpr(new ArgExpr<String>(true, "go"), true);
    if (!reqs.empty()) {
      auto *l = new ResourceSpecList(reqs.size());
      for (size_t i = 0; i < reqs.size(); ++i) {
        (*l)[i].setNameExpression(new ArgExpr<String>(true, names[reqs[i].r]), true);
        (*l)[i].setPriorityExpression(new ArgExpr<Integer>(true, prio), true);
        (*l)[i].setUpperBoundExpression(new ArgExpr<Real>(true, reqs[i].k * unit), true);
        (*l)[i].setReleaseAtTerminationExpression(new ArgExpr<Boolean>(true, reqs[i].release), true);
      }
      c.c->setResourceList(l);
    }
    // What the command asks for itself counts; what that contains in turn comes on top
    for (int r = 0; r < NR; ++r) { c.uses[r] = false; c.use[r] = 0; c.rel[r] = false; }
    for (auto &q : reqs) { c.uses[q.r] = true; c.use[q.r] = q.k; c.rel[q.r] = q.release; }
    for (auto &q : reqs) implied(*this, q.r, c, q.release);
  }
  // A round of arbitration over the commands of the mask
  void round(int mask) {
    LinkedQueue<CommandImpl> in, yes, no;
    for (int i = 0; i < n; ++i) if (mask >> i & 1) { cmd[i].c->activate(); cmd[i].c->fixValues(); in.push(cmd[i].c); }
    arb->arbitrateCommands(in, yes, no);
    bool got[MAXC], den[MAXC]; int total = 0;
    for (int i = 0; i < n; ++i) got[i] = den[i] = false;
    while (CommandImpl *c = yes.front()) { yes.pop(); for (int i = 0; i < n; ++i) if (cmd[i].c == c) { CHECK(!got[i] && !den[i], "a command is decided once"); got[i] = true; } ++total; }
    while (CommandImpl *c = no.front()) { no.pop(); for (int i = 0; i < n; ++i) if (cmd[i].c == c) { CHECK(!got[i] && !den[i], "a command is decided once"); den[i] = true; } ++total; }
    for (int i = 0; i < n; ++i) CHECK((got[i] || den[i]) == (bool)(mask >> i & 1), "every command, and no other, is decided");
    // By priority (the lower number is served first; among equals the earlier)
    int pos[MAXC]; bool done[MAXC];
    for (int i = 0; i < n; ++i) done[i] = !(mask >> i & 1);
    int add[NR], take[NR];      // what this round produces and consumes
    for (int r = 0; r < NR; ++r) add[r] = take[r] = 0;
    (void)pos;
    // who comes before whom
    bool before[MAXC][MAXC];
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) before[i][j] = (cmd[i].prio < cmd[j].prio) | ((cmd[i].prio == cmd[j].prio) & (i < j));
    for (int i = 0; i < n; ++i) {
      if (!(mask >> i & 1)) continue;
      Cmd &c = cmd[i];
      bool fits = true;
      for (int r = 0; r < NR; ++r) {
        if (!c.uses[r]) continue;
        int up = held[r], down = held[r];
        for (int j = 0; j < n; ++j) if ((mask >> j & 1) && j != i && got[j] && cmd[j].uses[r]) {
          int k = cmd[j].use[r], b = before[j][i];
          up += b & (k >= 0) ? k : 0; down += b & (k < 0) ? k : 0;
        }
        up += c.use[r] >= 0 ? c.use[r] : 0; down += c.use[r] < 0 ? c.use[r] : 0;
        fits = fits & (up <= max[r]) & (up >= 0) & (down >= 0) & (down <= max[r]);
      }
      if (c.reqs.empty()) CHECK(got[i], "a command which asks for no resource is never denied");
      else CHECK(got[i] == fits, "a command is accepted exactly when what it needs is left by what is held and by commands of better priority");
    }
    for (int i = 0; i < n; ++i) {
      if (!(mask >> i & 1)) continue;
      if (got[i]) { cmd[i].running = true; for (int r = 0; r < NR; ++r) if (cmd[i].uses[r]) held[r] += cmd[i].use[r]; }
      else { cmd[i].c->setCommandHandle(COMMAND_DENIED); cmd[i].c->deactivate(arb.get()); }
    }
    for (size_t r = 0; r < names.size(); ++r) CHECK((held[r] <= max[r]) & (held[r] >= 0), "no resource is ever used beyond its maximum");
  }
  void end(int i, CommandHandleValue h) {
    Cmd &c = cmd[i];
    if (!c.running) return;
    if (h != NO_COMMAND_HANDLE) c.c->setCommandHandle(h);
    c.running = false;
    c.c->deactivate(arb.get());
    for (int r = 0; r < NR; ++r) if (c.uses[r] && c.rel[r]) held[r] -= c.use[r];
  }
  void finish() { for (int i = 0; i < n; ++i) end(i, NO_COMMAND_HANDLE); }
};
static int theFree = -1, theNext = 0;    // the request with a free amount; the others have one of a few
static void freeOne(int n) { theFree = sym_choose("free", n); theNext = 0; }
static int amount(int lo = -16) {
  static int const some[] = {3, 8, -4, 5};
  if (theNext++ == theFree) return sym_range("amount", lo, 16);
  return some[sym_choose("amount of", THOROUGH ? 4 : lo < 0 ? 3 : 2)];
}
static CommandHandleValue anyHandle() { static CommandHandleValue const h[] = {COMMAND_SUCCESS, COMMAND_DENIED, NO_COMMAND_HANDLE, COMMAND_FAILED, COMMAND_ACCEPTED}; return h[sym_choose("handle", THOROUGH ? 5 : 2)]; }
SYM_TARGET(OneResource, "yes,no") {
  World w;
  int a = w.res("a", 8); w.res("b", 12); w.read();
  freeOne(3);
  for (int i = 0; i < 3; ++i) {
    if (sym_choose("plain", 2)) w.add(sym_int("prio"), {});
    else w.add(sym_int("prio"), {{a, amount(), true}});
  }
  w.round(7);
  for (int i = 0; i < 3; ++i) sym_reach(w.cmd[i].running ? "yes" : "no");
  w.finish();
}
SYM_TARGET(TwoResources, "both") {
  World w;
  int a = w.res("a", 8), b = w.res("b", 12); w.read();
  freeOne(THOROUGH ? 5 : 4);
  w.add(sym_int("prio"), {{a, amount(), true}, {b, amount(), true}});
  w.add(sym_int("prio"), {{b, amount(), true}, {a, amount(), true}});
  if (THOROUGH) w.add(sym_int("prio"), {{b, amount(), true}});
  w.round(THOROUGH ? 7 : 3);
  if (w.cmd[0].running && w.cmd[1].running) sym_reach("both");
  w.finish();
}
SYM_TARGET(Release, "again") {
  World w;
  int a = w.res("a", 8), b = w.res("b", 12); w.read();
  if (THOROUGH) freeOne(3); else theFree = sym_choose("free", 2) * 2, theNext = 0;
  w.add(sym_int("prio"), {{a, amount(), sym_choose("release", 2) == 1}});
  w.add(sym_int("prio"), {{a, amount(), sym_choose("release", 2) == 1}});
  w.add(sym_int("prio"), {{a, amount(), true}});
  (void)b;
  w.round(3);
  for (int i = 0; i < 2; ++i) if (sym_choose("ends", 2)) w.end(i, anyHandle());
  int mask = 4;
  for (int i = 0; i < (THOROUGH ? 2 : 1); ++i) if (!w.cmd[i].running && sym_choose("again", 2)) { mask |= 1 << i; sym_reach("again"); }
  w.round(mask);
  w.finish();
}
// body contains head and arm, which both contain cpu; names may be asked for explicitly as well
SYM_TARGET(Hierarchy, "") {
  World w;
  int body = w.res("body", 8), head = w.res("head", 8), arm = w.res("arm", 16), cpu = w.res("cpu", 8);
  w.kids[body] = {{head, 8}, {arm, 4}}; w.kids[head] = {{cpu, 4}}; w.kids[arm] = {{cpu, 2}}; w.read();
  static int const sets[][2] = {{0, -1}, {1, -1}, {2, -1}, {3, -1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {0, 3}, {3, 0}, {2, 3}};
  if (THOROUGH) freeOne(4); else theFree = sym_choose("free", 2), theNext = 0;
  for (int i = 0; i < 2; ++i) {
    int const *s = sets[sym_choose("asks for", 11)];
    std::vector<Req> q;
    for (int k = 0; k < 2; ++k) if (s[k] >= 0) q.push_back({s[k], amount(0), true});
    w.add(sym_int("prio"), q);
  }
  w.round(3);
  w.finish();
  for (int i = 0; i < 4; ++i) CHECK(w.held[i] == 0, "model");
  // all is free again
  w.add(1, {{body, 8, true}});
  w.round(4);
  CHECK(w.cmd[2].running, "everything is available again when every command has ended");
  w.finish();
}
// Amounts which have no exact representation: repeated use and release leaves nothing behind
SYM_TARGET(Decimal, "") {
  World w; w.unit = 0.1;
  int a = w.res("a", 10); w.read();
  static int const amt[] = {1, 3, 6, 7};
  for (int i = 0; i < 3; ++i) w.add(i, {{a, amt[sym_choose("amount", 4)], true}});
  w.round(7);
  int first = sym_choose("first", 3);
  w.end(first, NO_COMMAND_HANDLE); w.end((first + 1 + sym_choose("second", 2)) % 3, NO_COMMAND_HANDLE);
  w.finish();
  w.add(1, {{a, sym_choose("whole", 2) ? 10 : amt[sym_choose("last", 4)], true}});
  w.round(8);
  CHECK(w.cmd[3].running, "everything is available again when every command has ended");
  w.finish();
}
// An unlisted resource can be used by one command at a time
SYM_TARGET(Unlisted, "") {
  World w;
  w.res("a", 8); w.read();
  w.res("u", 8);
  freeOne(2);
  for (int i = 0; i < 2; ++i) w.add(sym_int("prio"), {{1, amount(), true}});
  w.round(3);
  w.finish();
}
// The resource file: white space and comment lines do not matter
SYM_TARGET(File, "") {
  World w;
  int a = w.res("a", 4), b = w.res("b", 12), c = w.res("c", 8);
  w.kids[b] = {{a, 4}, {c, 2}};
  static char const ws[] = {' ', '\t', '\r', '\v', '\f'};
  int at = sym_choose("where", 11), k = 0; char c0 = ws[sym_choose("ws", 5)], c1 = ws[sym_choose("ws", 5)];
  auto sp = [&](bool some) { std::string s; if (some) s = k == at ? c0 : ' '; else if (k == at) { s = c0; s += c1; } ++k; return s; };
  std::string text;
  if (sym_choose("comment", 2)) text += sp(false) + "% a 3.0\n";
  text += sp(false) + "a" + sp(true) + "0.5" + sp(false) + "\n";
  if (sym_choose("blank", 2)) text += sp(false) + "\n";
  text += "b" + sp(true) + "1.5" + sp(true) + ".5 a" + sp(true) + "0.25 c" + sp(false) + "\n";
  text += "c 1" + sp(false) + (sym_choose("last newline", 2) ? "\n" : "");
  std::istringstream in(text);
  CHECK(w.arb->readResourceHierarchy(in), "the resource file is read");
  w.add(1, {{b, 8, true}});
  w.add(2, {{a, sym_range("amount", 0, 8), true}});
  w.add(3, {{c, sym_range("amount", 0, 16), true}});
  w.round(7);
  w.finish();
}

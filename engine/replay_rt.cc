// Replay runtime: the same harness linked with an uninstrumented build of the
// sources, reading its inputs from a file.
//   exe --target T --input FILE     run one input; prints RESULT <status>\t<detail>
//   exe --target T --batch FILE     one input per line; prints one RESULT line each
#include "sym.h"
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <fcntl.h>
#include <map>
#include <string>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <vector>
struct Target { std::string name; sym_fn f; };
static std::vector<Target> &targets() { static std::vector<Target> t; return t; }
static std::map<std::string, uint64_t> g_in;
static std::map<std::string, int> g_count;
static FILE *g_res;
[[noreturn]] static void finish(const char *s, const std::string &d) {
  fprintf(g_res, "RESULT %s\t%s\n", s, d.c_str());
  fflush(g_res);
  fflush(stdout);
  _exit(0);
}
static uint64_t in(const char *name) {
  std::string n = name;
  for (char &c : n) if (c == ' ' || c == '=' || c == '\t' || c == '\n') c = '_';
  n += "#" + std::to_string(g_count[n]++);
  auto it = g_in.find(n);
  return it == g_in.end() ? 0 : it->second;
}
extern "C" {
int32_t sym_int(const char *n) { return (int32_t)in(n); }
int64_t sym_long(const char *n) { return (int64_t)in(n); }
uint8_t sym_byte(const char *n) { return (uint8_t)in(n); }
bool sym_bool(const char *n) { return in(n) & 1; }
double sym_double(const char *n) { uint64_t v = in(n); double d; memcpy(&d, &v, 8); return d; }
int32_t sym_range(const char *n, int32_t lo, int32_t hi) { int32_t v = (int32_t)in(n); if (v < lo || v > hi) finish("infeasible", ""); return v; }
int32_t sym_choose(const char *n, int32_t k) { int32_t v = (int32_t)in(n); if (v < 0 || v >= k) finish("infeasible", ""); return v; }
void sym_bytes(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; ++i) ((uint8_t *)p)[i] = (uint8_t)in(name); }
void sym_assume(bool c) { if (!c) finish("infeasible", ""); }
void sym_assert(bool c, const char *l) { if (!c) finish("assert", l); }
void sym_reach(const char *) {}
int64_t sym_enum(int64_t v) { return v; }
void sym_format_exact(bool) {}
void sym_note(const char *fmt, ...) { va_list ap; va_start(ap, fmt); printf("NOTE "); vprintf(fmt, ap); printf("\n"); va_end(ap); }
bool sym_is_replay(void) { return true; }
void sym_register_target(const char *n, sym_fn f, const char *, int) { targets().push_back({n, f}); }
}
static void onSig(int s) {
  const char *d = strsignal(s);
  dprintf(fileno(g_res), "RESULT %s\t%s\n", s == SIGALRM ? "hang" : "crash", s == SIGALRM ? "no result in time" : d);
  _exit(0);
}
static std::map<std::string, uint64_t> parse(const std::string &s) {
  std::map<std::string, uint64_t> m;
  size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find_first_of(" \n", i);
    if (e == std::string::npos) e = s.size();
    size_t q = s.rfind('=', e);
    if (q != std::string::npos && q > i && q < e) m[s.substr(i, q - i)] = strtoull(s.c_str() + q + 1, nullptr, 16);
    i = e + 1;
  }
  return m;
}
static void run1(Target &t, const std::string &line, int hang) {
  g_in = parse(line);
  static char stk[1 << 16];
  stack_t ss = {};
  ss.ss_sp = stk; ss.ss_size = sizeof stk;
  sigaltstack(&ss, nullptr);
  struct sigaction sa = {};
  sa.sa_handler = onSig;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
  alarm((unsigned)hang);
  try { t.f(); }
  catch (std::exception &e) {
    int st; char *dn = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    finish("exception", std::string(dn ? dn : "exception") + ": " + e.what());
  } catch (...) {
    std::type_info *ti = abi::__cxa_current_exception_type();
    int st; char *dn = ti ? abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st) : nullptr;
    finish("exception", dn ? dn : "unknown exception");
  }
  finish("ok", "");
}
int main(int argc, char **argv) {
  std::string tn, input, batch;
  int hang = 10;
  bool quiet = true;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--target") tn = argv[++i];
    else if (a == "--input") { input = argv[++i]; quiet = false; }
    else if (a == "--batch") batch = argv[++i];
    else if (a == "--hang") hang = atoi(argv[++i]);
  }
  g_res = fdopen(dup(1), "w");
  Target *T = nullptr;
  for (auto &t : targets()) if (t.name == tn) T = &t;
  if (!T) { fprintf(stderr, "no target\n"); return 3; }
  FILE *f = fopen((input.empty() ? batch : input).c_str(), "r");
  if (!f) return 3;
  std::vector<std::string> lines;
  std::string all;
  char *l = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&l, &cap, f)) > 0) { lines.push_back(l); all += l; all += ' '; }
  if (!input.empty()) { run1(*T, all, hang); }
  for (auto &s : lines) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      if (quiet) { int d = open("/dev/null", O_WRONLY); dup2(d, 1); dup2(d, 2); }
      run1(*T, s, hang);
    }
    int st;
    waitpid(p, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { fprintf(g_res, "RESULT crash\tchild died\n"); fflush(g_res); }
  }
  return 0;
}

/* Harness API of the symbolic engine.  Instrumented builds link rt.cc, replay builds link replay_rt.cc. */
#ifndef SYM_H
#define SYM_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
/* Fresh symbolic inputs.  The k-th request for the same name in one path is a separate input. */
int32_t sym_int(const char *name);
int64_t sym_long(const char *name);
uint8_t sym_byte(const char *name);
bool sym_bool(const char *name);
double sym_double(const char *name);
/* lo <= result <= hi, by assumption */
int32_t sym_range(const char *name, int32_t lo, int32_t hi);
/* as sym_range, but the engine splits the path on the value (result is concrete on each path) */
int32_t sym_choose(const char *name, int32_t n);
void sym_bytes(void *p, size_t n, const char *name);
/* Restrict the inputs (part of the claim). */
void sym_assume(bool c);
/* The property: must hold for every input of this path. */
void sym_assert(bool c, const char *label);
/* Witness that a point is reached; names declared with SYM_NEED must be reached on some path. */
void sym_reach(const char *label);
/* Force a value concrete by enumerating all its values. */
int64_t sym_enum(int64_t v);
/* Output formatting of symbolic values: by default the text is not modelled (value shadows are dropped);
   after sym_format_exact(true) every value formatted is enumerated. */
void sym_format_exact(bool on);
/* Run f(arg) natively with recording off (concrete environment code). */
void sym_note(const char *fmt, ...);
bool sym_is_replay(void);
typedef void (*sym_fn)(void);
void sym_register_target(const char *name, sym_fn f, const char *needs, int flags);
#ifdef __cplusplus
}
#define SYM_TARGET(NAME, NEEDS) \
  static void target_##NAME(); \
  static struct Reg_##NAME { Reg_##NAME() { sym_register_target(#NAME, target_##NAME, NEEDS, 0); } } reg_##NAME; \
  static void target_##NAME()
/* CHECK(c, label): the solver must show c true for every input on this path. */
#define CHECK(c, label) sym_assert((c), label)
#endif
#endif

/* Instrumented models of the few libc string functions the code under test uses. */
#include <stddef.h>
#include <stdlib.h>
#include <errno.h>
#include <limits.h>
#define NOB __attribute__((no_builtin, noinline))
NOB int __syl_memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *p = a, *q = b;
  for (size_t i = 0; i < n; ++i) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
  return 0;
}
NOB size_t __syl_strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
NOB size_t __syl_strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
NOB int __syl_strcmp(const char *a, const char *b) {
  while (*a && *a == *b) ++a, ++b;
  unsigned char x = *a, y = *b;
  return x == y ? 0 : x < y ? -1 : 1;
}
NOB int __syl_strncmp(const char *a, const char *b, size_t n) {
  for (; n; --n, ++a, ++b) {
    unsigned char x = *a, y = *b;
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
  return 0;
}
NOB int __syl_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
NOB int __syl_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
NOB int __syl_strcasecmp(const char *a, const char *b) {
  for (;; ++a, ++b) {
    int x = __syl_tolower((unsigned char)*a), y = __syl_tolower((unsigned char)*b);
    if (x != y) return x - y;
    if (!x) return 0;
  }
}
NOB int __syl_strncasecmp(const char *a, const char *b, size_t n) {
  for (; n; --n, ++a, ++b) {
    int x = __syl_tolower((unsigned char)*a), y = __syl_tolower((unsigned char)*b);
    if (x != y) return x - y;
    if (!x) return 0;
  }
  return 0;
}
NOB void *__syl_memchr(const void *s, int c, size_t n) {
  const unsigned char *p = s;
  for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void *)(p + i);
  return 0;
}
NOB char *__syl_strchr(const char *s, int c) {
  for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return 0; }
}
NOB char *__syl_strrchr(const char *s, int c) {
  const char *r = 0;
  for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char *)r; }
}
NOB char *__syl_strstr(const char *h, const char *n) {
  size_t k = __syl_strlen(n);
  for (;; ++h) { if (!__syl_strncmp(h, n, k)) return (char *)h; if (!*h) return 0; }
}
NOB char *__syl_strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
NOB char *__syl_strncpy(char *d, const char *s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; ++i) d[i] = s[i];
  for (; i < n; ++i) d[i] = 0;
  return d;
}
NOB char *__syl_strdup(const char *s) {
  size_t n = __syl_strlen(s) + 1;
  char *r = malloc(n);
  for (size_t i = 0; i < n; ++i) r[i] = s[i];
  return r;
}
NOB int __syl_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
NOB int __syl_isdigit(int c) { return c >= '0' && c <= '9'; }
NOB int __syl_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
NOB int __syl_isalnum(int c) { return __syl_isalpha(c) || __syl_isdigit(c); }
static int digitval(int c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'z') return c - 'a' + 10;
  if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
  return 99;
}
/* ISO C strtol/strtoul: sign, prefix, overflow saturation, end pointer */
static unsigned long scan(const char *s, char **e, int base, int *neg, int *any, int *ovf) {
  const char *p = s;
  while (__syl_isspace((unsigned char)*p)) ++p;
  *neg = 0;
  if (*p == '-') { *neg = 1; ++p; } else if (*p == '+') ++p;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digitval((unsigned char)p[2]) < 16) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0;
  *any = 0; *ovf = 0;
  unsigned long cut = ULONG_MAX / (unsigned long)base, lim = ULONG_MAX % (unsigned long)base;
  for (;; ++p) {
    int d = digitval((unsigned char)*p);
    if (d >= base) break;
    *any = 1;
    if (v > cut || (v == cut && (unsigned long)d > lim)) *ovf = 1;
    v = v * (unsigned long)base + (unsigned long)d;
  }
  if (e) *e = (char *)(*any ? p : s);
  return v;
}
NOB long __syl_strtol(const char *s, char **e, int base) {
  int neg, any, ovf;
  unsigned long v = scan(s, e, base, &neg, &any, &ovf);
  if (!neg && (ovf || v > LONG_MAX)) { errno = ERANGE; return LONG_MAX; }
  if (neg && (ovf || v > (unsigned long)LONG_MAX + 1)) { errno = ERANGE; return LONG_MIN; }
  return neg ? (long)(0 - v) : (long)v;
}
NOB unsigned long __syl_strtoul(const char *s, char **e, int base) {
  int neg, any, ovf;
  unsigned long v = scan(s, e, base, &neg, &any, &ovf);
  if (ovf) { errno = ERANGE; return ULONG_MAX; }
  return neg ? 0 - v : v;
}
NOB int __syl_atoi(const char *s) { return (int)__syl_strtol(s, 0, 10); }

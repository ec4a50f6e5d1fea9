/* Native side of the harness API: replays one counterexample against the real code. */
#define _GNU_SOURCE
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <pthread.h>
#include <unistd.h>
void vp_main(void);
static struct { char name[64]; uint64_t v; } in[200000]; static int nin, pos; static long args[16]; static int nargs; static int live, fault_on, fault_max, fault_used, fault_hold; static uint64_t fault_n, fault_at[4];
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); void __real_exit(int) __attribute__((noreturn));
static uint64_t next(const char *name) {
  if (pos >= nin) { fprintf(stderr, "REPLAY: input '%s' beyond the end of the counterexample\n", name); return 0; }
  if (strcmp(in[pos].name, name)) { fprintf(stderr, "REPLAY: diverged: want '%s', have '%s'\n", name, in[pos].name); _exit(90); }
  return in[pos++].v;
}
int64_t vp_i64(const char *n) { return (int64_t)next(n); } int32_t vp_i32(const char *n) { return (int32_t)next(n); } uint8_t vp_u8(const char *n) { return (uint8_t)next(n); } int8_t vp_i8(const char *n) { return (int8_t)next(n); }
int vp_bool(const char *n) { return next(n) & 1; } double vp_f64(const char *n) { uint64_t v = next(n); double d; memcpy(&d, &v, 8); return d; }
int64_t vp_range(const char *n, int64_t lo, int64_t hi) { int64_t v = (int64_t)next(n); if (v < lo || v > hi) _exit(91); return v; }
void vp_bytes(void *p, size_t z, const char *n) { for (size_t i = 0; i < z; i++) ((uint8_t *)p)[i] = (uint8_t)next(n); }
int vp_choose(const char *n, int k) { (void)k; return (int)next(n); }
uint64_t vp_concretize(uint64_t v) { return v; }
void vp_assume(int c) { if (!c) { fprintf(stderr, "REPLAY: assumption does not hold\n"); _exit(92); } }
void vp_assert(int c, const char *l) { if (!c) { fprintf(stderr, "REPLAY: assertion violated: %s\n", l); _exit(77); } }
void vp_cover(const char *l) { if (getenv("VP_COVER")) fprintf(stderr, "REPLAY: cover %s\n", l); }
int vp_live(void) { return live; } long vp_arg(int i) { return i < nargs ? args[i] : 0; }
void vp_fault_arm(int m) { fault_on = 1; fault_max = m > 4 ? 4 : m; fault_used = 0; fault_n = 0; for (int k = 0; k < fault_max; k++) fault_at[k] = next("fault"); } void vp_fault_hold(int h) { fault_hold = h; } int vp_fault_disarm(void) { fault_on = 0; return fault_used; }
int vp_is_symbolic(uint64_t v) { (void)v; return 0; } void vp_done(void) { fprintf(stderr, "REPLAY: finished without a violation\n"); _exit(0); }
void vp_note(const char *s, ...) { fprintf(stderr, "STMT %s\n", s); }
int vp_and(int a, int b) { return a && b; } int vp_or(int a, int b) { return a || b; } int vp_not(int a) { return !a; } int64_t vp_ite(int c, int64_t a, int64_t b) { return c ? a : b; }
#include <regex.h>
int __real_regcomp(regex_t *, const char *, int); void __real_regfree(regex_t *); int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *); int __real_pthread_mutex_destroy(pthread_mutex_t *);
int __wrap_regcomp(regex_t *r, const char *p, int f) { int rc = __real_regcomp(r, p, f); if (!rc) live++; return rc; } void __wrap_regfree(regex_t *r) { live--; __real_regfree(r); }
static void *held[64]; static int find(void *m) { for (int i = 0; i < 64; i++) if (held[i] == m) return i; return -1; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (find(m) >= 0) { fprintf(stderr, "REPLAY: self-deadlock on a mutex\n"); _exit(79); } held[find(NULL)] = m; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int i = find(m); if (i < 0) { fprintf(stderr, "REPLAY: unlock of a mutex that is not locked\n"); _exit(79); } held[i] = NULL; return 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)a; int i = find(m); if (i >= 0) held[i] = NULL; memset(m, 0, sizeof *m); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { if (find(m) >= 0) { fprintf(stderr, "REPLAY: destroying a locked mutex\n"); _exit(79); } return 0; }
int vp_mutex_locked(void *m) { return find(m) >= 0; }
static unsigned rnd = 1; int __wrap_rand(void) { rnd = rnd * 1103515245u + 12345u; return (rnd >> 1) & 0x7fffffff; }
static int fails(size_t n) { if (n >= (1u << 24)) return 1; if (!fault_on || fault_hold || fault_used >= fault_max) return 0; if (fault_at[fault_used] <= ++fault_n) { fault_used++; return 1; } return 0; }
void *__wrap_malloc(size_t n) { if (fails(n)) return NULL; void *p = __real_malloc(n); if (p) { memset(p, 0xA5, n); live++; } return p; }
void *__wrap_calloc(size_t n, size_t m) { if (fails(n * m)) return NULL; live++; return __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { if (fails(n)) return NULL; if (!p) live++; return __real_realloc(p, n); }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = __wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void __wrap_exit(int rc) { (void)rc; fprintf(stderr, "REPLAY: the code under test called exit()\n"); _exit(78); }
void __wrap_abort(void) { fprintf(stderr, "REPLAY: the code under test called abort()\n"); _exit(78); }
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r"); char line[256]; if (!f || argc < 2) return 93;
  while (fgets(line, sizeof line, f)) { long a; if (sscanf(line, "#arg %ld", &a) == 1) { args[nargs++] = a; continue; } if (line[0] == '#') continue; unsigned long long v; if (sscanf(line, "%63s %llu", in[nin].name, &v) == 2) { in[nin].v = v; nin++; } }
  fclose(f); vp_main(); fprintf(stderr, "REPLAY: finished without a violation\n"); fflush(stderr); _exit(0);
}

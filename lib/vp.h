/* Harness API. In the symbolic engine these are built-ins; natively (counterexample replay) they read
 * the values of a counterexample file (lib/vp_native.c). */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
int64_t vp_i64(const char *name);
int32_t vp_i32(const char *name);
uint8_t vp_u8(const char *name);
int8_t vp_i8(const char *name);
int vp_bool(const char *name);
double vp_f64(const char *name);
int64_t vp_range(const char *name, int64_t lo, int64_t hi); /* symbolic lo..hi */
void vp_bytes(void *p, size_t n, const char *name);
int vp_choose(const char *name, int n); /* explores every 0..n-1 as separate paths */
uint64_t vp_concretize(uint64_t v);     /* forks over every feasible value */
void vp_assume(int c);
void vp_assert(int c, const char *label);
void vp_cover(const char *label);
int vp_live(void); /* heap objects currently allocated by the code under test */
long vp_arg(int i);
void vp_fault_arm(int max_failures);
void vp_fault_hold(int hold); /* while held no allocation fails */
int vp_fault_disarm(void);
int vp_mutex_locked(void *m);
int vp_is_symbolic(uint64_t v);
void vp_done(void);
void vp_note(const char *s, ...);
/* branch-free connectives for oracles (no path split) */
int vp_and(int a, int b);
int vp_or(int a, int b);
int vp_not(int a);
int64_t vp_ite(int c, int64_t a, int64_t b);
#endif

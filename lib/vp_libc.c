/* C models of libc string functions, interpreted by the engine when an argument holds symbolic bytes. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <errno.h>
typedef unsigned char u8;
size_t vpm_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t vpm_strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int vpm_strcmp(const char *a, const char *b) { for (;; a++, b++) { if (*a != *b) return (u8)*a < (u8)*b ? -1 : 1; if (!*a) return 0; } }
int vpm_strncmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { if (*a != *b) return (u8)*a < (u8)*b ? -1 : 1; if (!*a) return 0; } return 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int vpm_strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = lc((u8)*a), y = lc((u8)*b); if (x != y) return x < y ? -1 : 1; if (!*a) return 0; } }
int vpm_strncasecmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { int x = lc((u8)*a), y = lc((u8)*b); if (x != y) return x < y ? -1 : 1; if (!*a) return 0; } return 0; }
int vpm_memcmp(const void *a, const void *b, size_t n) { const u8 *x = a, *y = b; for (; n; n--, x++, y++) if (*x != *y) return *x < *y ? -1 : 1; return 0; }
char *vpm_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *vpm_strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *vpm_stpcpy(char *d, const char *s) { size_t i = 0; for (; s[i]; i++) d[i] = s[i]; d[i] = 0; return d + i; }
char *vpm_strcat(char *d, const char *s) { size_t n = vpm_strlen(d); vpm_strcpy(d + n, s); return d; }
char *vpm_strncat(char *d, const char *s, size_t m) { size_t n = vpm_strlen(d), i = 0; for (; i < m && s[i]; i++) d[n + i] = s[i]; d[n + i] = 0; return d; }
char *vpm_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *vpm_strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *vpm_strstr(const char *h, const char *n) { size_t l = vpm_strlen(n); for (;; h++) { if (!vpm_strncmp(h, n, l)) return (char *)h; if (!*h) return NULL; } }
size_t vpm_strspn(const char *s, const char *set) { size_t n = 0; while (s[n] && vpm_strchr(set, s[n])) n++; return n; }
size_t vpm_strcspn(const char *s, const char *set) { size_t n = 0; while (s[n] && !vpm_strchr(set, s[n])) n++; return n; }
char *vpm_strpbrk(const char *s, const char *set) { s += vpm_strcspn(s, set); return *s ? (char *)s : NULL; }
char *vpm_strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; s += vpm_strspn(s, d); if (!*s) { *sv = s; return NULL; } char *e = s + vpm_strcspn(s, d); if (*e) { *e = 0; e++; } *sv = e; return s; }
void *vpm_memccpy(void *d, const void *s, int c, size_t n) { u8 *x = d; const u8 *y = s; for (; n; n--) { *x++ = *y; if (*y++ == (u8)c) return x; } return NULL; }
void *vpm_memchr(const void *s, int c, size_t n) { const u8 *y = s; for (; n; n--, y++) if (*y == (u8)c) return (void *)y; return NULL; }
int vpm_atoi(const char *s) { while (*s == ' ' || (*s >= 9 && *s <= 13)) s++; int neg = 0; if (*s == '-' || *s == '+') neg = *s++ == '-'; uint64_t v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (uint64_t)(*s++ - '0'); return neg ? (int)(0 - v) : (int)v; }
long vpm_atol(const char *s) { while (*s == ' ' || (*s >= 9 && *s <= 13)) s++; int neg = 0; if (*s == '-' || *s == '+') neg = *s++ == '-'; uint64_t v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (uint64_t)(*s++ - '0'); return neg ? (long)(0 - v) : (long)v; }
void vpm_qsort(void *b, size_t n, size_t z, int (*cmp)(const void *, const void *)) { u8 *p = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * z, p + j * z) > 0; j--) for (size_t k = 0; k < z; k++) { u8 t = p[(j - 1) * z + k]; p[(j - 1) * z + k] = p[j * z + k]; p[j * z + k] = t; } }
void *vpm_bsearch(const void *key, const void *b, size_t n, size_t z, int (*cmp)(const void *, const void *)) { const u8 *p = b; for (size_t i = 0; i < n; i++) if (!cmp(key, p + i * z)) return (void *)(p + i * z); return NULL; }

/* POSIX ERE subset (literals, '.', bracket expressions, groups, * + ? {m,n}, alternation-free), greedy
 * backtracking; enough for every expression used by the parser. */
typedef struct { int so, eo; } rm;
struct rx { const char *subj; long beg; rm g[10]; };
static const char *skip_atom(const char *p) {
  if (*p == '\\') return p + 2;
  if (*p == '[') { p++; if (*p == '^') p++; if (*p == ']') p++; while (*p != ']') p++; return p + 1; }
  if (*p == '(') { int d = 1; p++; while (d) { if (*p == '\\') p++; else if (*p == '[') { p = skip_atom(p); continue; } else if (*p == '(') d++; else if (*p == ')') d--; p++; } return p; }
  return p + 1;
}
static int in_class(const char *p, u8 c) { int neg = 0, r = 0; p++; if (*p == '^') { neg = 1; p++; } int first = 1; while (first || *p != ']') { first = 0; u8 lo = *p, hi = lo; if (*p == '\\' && p[1] != ']') { } if (p[1] == '-' && p[2] != ']') { hi = p[2]; p += 2; } p++; r |= (c >= lo) & (c <= hi); } return neg ? !r : r; }
struct cont { const char *p; const char *end; int grp; struct cont *next; };
static int m_here(struct rx *x, const char *p, const char *end, long i, int gidx, struct cont *k);
static int groups_in(const char *p, const char *e) { int n = 0; while (p < e) { if (*p == '\\') p += 2; else if (*p == '[') p = skip_atom(p); else { if (*p == '(') n++; p++; } } return n; }
static int m_cont(struct rx *x, long i, struct cont *k) { if (!k) { x->g[0].eo = (int)i; return 1; } if (k->grp > 0) { int so = x->g[k->grp].eo; x->g[k->grp].eo = (int)i; if (m_here(x, k->p, k->end, i, k->grp + 1000, k->next)) return 1; x->g[k->grp].eo = so; return 0; } return m_here(x, k->p, k->end, i, -1, k->next); }
/* gidx: number of groups opened before p (recomputed from the start of the pattern by the caller) */
static const char *PAT;
static int single(const char *p, u8 c) { if (!c) return 0; if (*p == '\\') return c == (u8)p[1]; if (*p == '.') return 1; if (*p == '[') return in_class(p, c); return c == (u8)*p; }
static int m_here(struct rx *x, const char *p, const char *end, long i, int gidx, struct cont *k) {
  if (p >= end) return m_cont(x, i, k);
  if (*p == '$' && p + 1 == end) return x->subj[i] == 0 ? m_here(x, p + 1, end, i, gidx, k) : 0;
  const char *q = skip_atom(p); int lo = 1, hi = 1; const char *r = q;
  if (*q == '*') { lo = 0; hi = -1; r = q + 1; } else if (*q == '+') { lo = 1; hi = -1; r = q + 1; } else if (*q == '?') { lo = 0; hi = 1; r = q + 1; }
  else if (*q == '{') { lo = 0; r = q + 1; while (*r >= '0' && *r <= '9') lo = lo * 10 + (*r++ - '0'); hi = lo; if (*r == ',') { r++; if (*r == '}') hi = -1; else { hi = 0; while (*r >= '0' && *r <= '9') hi = hi * 10 + (*r++ - '0'); } } r++; }
  if (*p == '(') { /* groups are only used without a quantifier */
    int g = groups_in(PAT, p) + 1; struct cont c = {r, end, g, k}; rm sv = x->g[g]; x->g[g].so = (int)i; if (m_here(x, p + 1, q - 1, i, gidx, &c)) return 1; x->g[g] = sv; return 0; }
  long n = 0; while ((hi < 0 || n < hi) && single(p, (u8)x->subj[i + n])) n++;
  for (; n >= lo; n--) if (m_here(x, r, end, i + n, gidx, k)) return 1;
  return 0;
}
int vpm_regexec(const char *pat, int flags, const char *s, size_t nm, rm *out) {
  struct rx x; (void)flags; x.subj = s; PAT = pat; const char *e = pat; while (*e) e++; int anch = *pat == '^'; if (anch) pat++;
  for (long i = 0;; i++) {
    for (int g = 0; g < 10; g++) x.g[g].so = x.g[g].eo = -1;
    x.g[0].so = (int)i;
    if (m_here(&x, pat, e, i, 0, NULL)) { for (size_t g = 0; g < nm; g++) { if (g < 10) out[g] = x.g[g]; else out[g].so = out[g].eo = -1; } return 0; }
    if (anch || !s[i]) return 1;
  }
}
int64_t vpm_strtoll(const char *s, char **end, int base) { (void)base; const char *s0 = s, *d; while (*s == ' ' || (*s >= 9 && *s <= 13)) s++; int neg = 0, over = 0; if (*s == '-' || *s == '+') neg = *s++ == '-'; uint64_t v = 0, lim = neg ? (uint64_t)1 << 63 : ((uint64_t)1 << 63) - 1;
  for (d = s; *s >= '0' && *s <= '9'; s++) { uint64_t x = (uint64_t)(*s - '0'); if (over || v > (lim - x) / 10) over = 1; else v = v * 10 + x; }
  if (end) *end = (char *)(s == d ? s0 : s); if (over) { errno = ERANGE; return neg ? INT64_MIN : INT64_MAX; } return neg ? (int64_t)(0 - v) : (int64_t)v; }
/* strptime for the numeric conversions (as glibc's: blanks before a number, as many digits as the range allows), and mktime / timegm in UTC for the fields that strptime can produce */
#include <time.h>
static const char *tnum(const char *s, int lo, int hi, int n, int *out) { while (*s == ' ') s++; if (*s < '0' || *s > '9') return NULL; int v = 0; do { v = v * 10 + (*s++ - '0'); } while (--n > 0 && v * 10 <= hi && *s >= '0' && *s <= '9'); if (v < lo || v > hi) return NULL; *out = v; return s; }
static int sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
char *vpm_strptime(const char *s, const char *f, struct tm *t) {
  int v; for (; *f; f++) {
    if (sp(*f)) { while (sp(*s)) s++; continue; }
    if (*f != '%') { if (*s++ != *f) return NULL; continue; }
    switch (*++f) {
    case 'Y': if (!(s = tnum(s, 0, 9999, 4, &v))) return NULL; t->tm_year = v - 1900; break; case 'm': if (!(s = tnum(s, 1, 12, 2, &v))) return NULL; t->tm_mon = v - 1; break; case 'd': if (!(s = tnum(s, 1, 31, 2, &v))) return NULL; t->tm_mday = v; break;
    case 'H': if (!(s = tnum(s, 0, 23, 2, &v))) return NULL; t->tm_hour = v; break; case 'M': if (!(s = tnum(s, 0, 59, 2, &v))) return NULL; t->tm_min = v; break; case 'S': if (!(s = tnum(s, 0, 61, 2, &v))) return NULL; t->tm_sec = v; break;
    default: vp_assert(0, "unmodelled strptime conversion"); } }
  return (char *)s;
}
static long tdays(int y, int m, int d) { int a = m <= 2; long yy = (long)y - a + 400, mm = m + (a ? 9 : -3); return 365 * yy + yy / 4 - yy / 100 + yy / 400 + (153 * mm + 2) / 5 + d - 1 - 719468 - 146097; }
time_t vpm_timegm(struct tm *t) {
  static const int D[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; int y = t->tm_year + 1900, m = t->tm_mon + 1, leap = (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0));
  time_t r = ((tdays(y, m, t->tm_mday) * 24 + t->tm_hour) * 60 + t->tm_min) * 60 + t->tm_sec; int dim = D[t->tm_mon] + ((m == 2) & leap);
  if (t->tm_sec > 59) { t->tm_sec -= 60; if (++t->tm_min > 59) { t->tm_min = 0; if (++t->tm_hour > 23) { t->tm_hour = 0; t->tm_mday++; } } }
  if (t->tm_mday > dim) { t->tm_mday -= dim; if (++t->tm_mon > 11) { t->tm_mon = 0; t->tm_year++; } }
  return r;
}
time_t vpm_mktime(struct tm *t) { return vpm_timegm(t); }

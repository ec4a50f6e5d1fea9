/* Names. args: [0] 0: every string of length [1]; 1: length [1], one symbolic byte at a symbolic position. */
#include <primitive/table.h>
#include <primitive/column.h>
#include "vp.h"
static int ok(const char *s, size_t n) { int r = n >= 1 && n <= 127; for (size_t i = 0; i < n; i++) { unsigned char c = s[i]; int al = vp_or(vp_and(c >= 'a', c <= 'z'), vp_and(c >= 'A', c <= 'Z')); int dg = vp_or(vp_and(c >= '0', c <= '9'), c == '_'); r = vp_and(r, i ? vp_or(al, dg) : al); } return r; }
void vp_main(void) {
  static char s[300]; size_t n = (size_t)vp_arg(1); int base = vp_live();
  if (vp_arg(0) == 0) { vp_bytes(s, n, "c"); for (size_t i = 0; i < n; i++) vp_assume(s[i] != 0); }
  else { memset(s, 'a', n); size_t p = (size_t)vp_concretize((uint64_t)vp_range("pos", 0, n - 1)); vp_bytes(s + p, 1, "c"); vp_assume(s[p] != 0); }
  int want = ok(s, n);
  vp_assert((table_validate_name(s) != 0) == (want != 0), "a table name is accepted exactly when it is a letter followed by letters, digits and underscores, at most 127 long");
  vp_assert((table_validate_column_name(s) != 0) == (want != 0), "a column name is accepted exactly when it is a letter followed by letters, digits and underscores, at most 127 long");
  struct table *t = table_init(s); vp_assert((t != NULL) == (want != 0), "a table is created exactly for a valid name");
  if (t) { vp_assert(strcmp(t->name, s) == 0, "the table keeps its name"); vp_assert(t->column_count == 0, "a new table has no columns"); vp_assert(table_destroy(&t) && t == NULL, "the table can be destroyed"); vp_cover("valid"); } else vp_cover("invalid");
  vp_assert(vp_live() == base, "no memory is leaked"); vp_cover("end");
}

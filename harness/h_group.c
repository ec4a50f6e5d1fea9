/* GROUP BY and COUNT(*) over arbitrary contents. args: [0] statement form, [1] column type, [2] rows, [3] filler columns, [4] 1: only the first, middle and last rows are arbitrary; [5] 1: a WHERE clause on h. */
#include "vp_sql.h"
#include "vp_model.h"
static const char *TN[6] = {"INT", "DOUBLE", "VARCHAR(6)", "TINYINT", "DATE", "DATETIME"}, *L0[6] = {"0", "0.5", "'xy'", "TRUE", "'2000-01-01'", "'2000-01-01 00:00:00'"};
static int ty, n; static struct mcell G[200], H[200]; static struct row *R[400]; static struct table *T;
void vp_main(void) {
  int form = (int)vp_arg(0), fill = (int)vp_arg(3), wh = (int)vp_arg(5); ty = (int)vp_arg(1); n = (int)vp_arg(2); vp_open(); static char q[2000]; char *p = q;
  p += sprintf(p, "CREATE TABLE T (id INT, g %s, h INT", TN[ty]); for (int i = 0; i < fill; i++) p += sprintf(p, ", f%d INT", i); vp_ok("%s);", q); T = vp_tbl("T");
  int gaps = 0; for (int r = 0; r < n; r++) { if (r % 7 == 0 || r % 7 == 5) { vp_gap("T", "id"); gaps++; } p = q; p += sprintf(p, "INSERT INTO T VALUES (%d, %s, %d", r, L0[ty], r % 3); for (int i = 0; i < fill; i++) p += sprintf(p, ", %d", i); vp_assert(vp_ok("%s);", q) == 1, "one row is inserted"); }
  vp_gap("T", "id"); vp_gaps_done("T", "id", gaps + 1); vp_assert(vp_rows(T, R, 400) == n, "every inserted row is stored");
  for (int r = 0; r < n; r++) { if (!vp_arg(4) || r == 0 || r + 1 == n || r == n / 2) { mc_poke(T, R[r], 1, ty, &G[r]); mc_poke(T, R[r], 2, 0, &H[r]); } else { G[r] = mc_read(T, R[r], 1, ty); H[r] = mc_read(T, R[r], 2, 0); } }
  mk_reset(); char w[60] = ""; static int in[200]; for (int r = 0; r < n; r++) in[r] = 1;
  if (wh) { int64_t b = vpI[50] = vp_i64("bound"); strcpy(w, " WHERE h >= 90000050"); for (int r = 0; r < n; r++) in[r] = vp_and(vp_not(H[r].nul), H[r].i >= b); }
  static const char *F[8] = {"SELECT COUNT(*) FROM T%s;", "SELECT g FROM T%s GROUP BY g;", "SELECT g, COUNT(*) FROM T%s GROUP BY g;", "SELECT COUNT(*) FROM T%s GROUP BY g;", "SELECT g, h, COUNT(*) FROM T%s GROUP BY g, h;", "SELECT COUNT(*), h, g FROM T%s GROUP BY h, g;", "SELECT T.g, COUNT(*) FROM T%s GROUP BY T.g;", "SELECT COUNT(*) FROM T%s GROUP BY h, g;"};
  int ng = form == 0 ? 0 : form == 4 || form == 5 || form == 7 ? 2 : 1, keys = form != 0 && form != 3 && form != 7, cnt = form != 1;
  struct query_output *o = vp_q(F[form], w); vp_assert(o && o->status == ST_OK_WITH_RESULTS, "a valid SELECT returns results"); struct table *u = o->results.table; vp_assert(u->column_count == keys * ng + cnt, "the result has exactly the listed columns");
  int m = vp_rows(u, R, 400), cg = vp_col(u, "T.g"), ch = vp_col(u, "T.h"), cc = vp_col(u, "COUNT(*)"); static int64_t sz[200]; static int lead[200]; int64_t groups = 0;
  /* the groups: sz[r] rows share the key of row r, lead[r] when no earlier row does */
  for (int r = 0; r < n; r++) { sz[r] = 0; lead[r] = in[r]; for (int k = 0; k < n; k++) { int s = in[k]; if (ng >= 1) s = vp_and(s, m_same(&G[r], &G[k], ty)); if (ng == 2) s = vp_and(s, m_same(&H[r], &H[k], 0)); sz[r] += (s ? 1 : 0); if (k < r) lead[r] = vp_and(lead[r], vp_not(s)); } groups += (lead[r] ? 1 : 0); }
  if (ng == 0) { int64_t c = 0; for (int r = 0; r < n; r++) c += (in[r] ? 1 : 0); vp_assert(m == 1, "COUNT(*) without GROUP BY returns one row"); vp_assert(!vp_isnull(u, R[0], cc) && vp_geti(u, R[0], cc) == c, "COUNT(*) is the number of rows that satisfy the condition"); }
  else {
    vp_assert((int64_t)m == groups, "there is one result row per group"); static struct mcell g[200], h[200]; for (int j = 0; j < m; j++) { if (keys) { g[j] = mc_read(u, R[j], cg, ty); if (ng == 2) h[j] = mc_read(u, R[j], ch, 0); } if (cnt) vp_assert(!vp_isnull(u, R[j], cc), "a count is never NULL"); }
    if (keys) {
      for (int j = 0; j < m; j++) { int64_t c = 0; for (int r = 0; r < n; r++) { int s = vp_and(in[r], m_same(&g[j], &G[r], ty)); if (ng == 2) s = vp_and(s, m_same(&h[j], &H[r], 0)); c += (s ? 1 : 0); } vp_assert(c > 0, "a result row stands for a group of the table"); if (cnt) vp_assert(vp_geti(u, R[j], cc) == c, "COUNT(*) is the number of rows in the group"); }
      for (int j = 0; j < m; j++) for (int i = 0; i < j; i++) { int s = m_same(&g[j], &g[i], ty); if (ng == 2) s = vp_and(s, m_same(&h[j], &h[i], 0)); vp_assert(vp_not(s), "no group is returned twice"); } }
    else for (int64_t v = 1; v <= n; v++) { int64_t a = 0, b = 0; for (int j = 0; j < m; j++) a += (vp_geti(u, R[j], cc) == v ? 1 : 0); for (int r = 0; r < n; r++) b += ((vp_and(lead[r], sz[r] == v)) ? 1 : 0); vp_assert(a == b, "the counts are the sizes of the groups"); } }
  query_free(o); vp_assert(vp_rows(T, R, 400) == n, "a SELECT leaves the table alone"); for (int r = 0; r < n; r++) { vp_assert(vp_geti(T, R[r], 0) == r, "a SELECT leaves the table alone"); mc_check(T, R[r], 1, ty, &G[r], "a SELECT leaves the table alone", "a SELECT leaves the table alone"); mc_check(T, R[r], 2, 0, &H[r], "a SELECT leaves the table alone", "a SELECT leaves the table alone"); }
  vp_close(); vp_cover("end");
}

/* Clauses of a SELECT together: tables, join condition, WHERE, GROUP BY, column list and COUNT(*), over tables of arbitrary content. args: [0] FROM clause; [1] rows of A; [2] rows of B; [3] types of the second columns of A and B: 0 VARCHAR and VARCHAR, 1 VARCHAR and DOUBLE, 2 INT and DOUBLE, 3 TINYINT and INT; [4] WHERE clause (-1: any) */
#include "vp_sql.h"
#include "vp_model.h"
static struct mrow M[2][4]; static struct row *R[40]; static int ty[2][2] = {{0, 2}, {0, 2}}; /* A(a INT, s VARCHAR), B(k INT, u VARCHAR or DOUBLE) */
static const char *TN[4] = {"INT", "DOUBLE", "VARCHAR(6)", "TINYINT"}, *L0[4] = {"1", "1.5", "'xy'", "TRUE"}; static const char *CN[2][2] = {{"a", "s"}, {"k", "u"}};
static int D(int c) { return (int)vp_concretize((uint64_t)(c != 0)); }
void vp_main(void) {
  int fr = (int)vp_arg(0), n[2] = {(int)vp_arg(1), (int)vp_arg(2)}, one = fr >= 4, tv = (int)vp_arg(3); ty[0][1] = tv == 3 ? 3 : tv == 2 ? 0 : 2; ty[1][1] = tv == 3 ? 0 : tv ? 1 : 2; if (one) n[1] = 1; vp_open();
  vp_ok("CREATE TABLE A (a INT, s %s);", TN[ty[0][1]]); vp_ok("CREATE TABLE B (k INT, u %s);", TN[ty[1][1]]);
  for (int w = 0; w < 2; w++) { const char *t = w ? "B" : "A"; for (int r = 0; r < n[w]; r++) { if (r != 1) vp_gap(t, CN[w][0]); vp_ok("INSERT INTO %s VALUES (1, %s);", t, L0[ty[w][1]]); } if (n[w]) vp_gaps_done(t, CN[w][0], n[w] > 2 ? n[w] - 1 : 1); vp_assert(vp_rows(vp_tbl(t), R, 40) == n[w], "every inserted row is stored"); for (int r = 0; r < n[w]; r++) for (int c = 0; c < 2; c++) mc_poke(vp_tbl(t), R[r], c, ty[w][c], &M[w][r].c[c]); }
  mk_reset(); char q[400], wh[160] = "", l[40] = "", l2[40] = "", g[60] = "", li[80] = ""; struct mcell x, y;
  static const char *F[6] = {"A JOIN B ON A.a = B.k", "A, B", "A INNER JOIN B ON (A.a <> B.k)", "B JOIN A ON B.k <= A.a", "A", "A AS z"};
  int wf = vp_arg(4) >= 0 ? (int)vp_arg(4) : vp_choose("where", 5), gf = vp_choose("group", one ? 4 : 6), cf = vp_choose("count", gf ? 2 : 3); const char *a = fr == 5 ? "z" : "A", *b = one ? a : "B", *bk = one ? "a" : "k", *bu = one ? "s" : "u";
  if (wf == 1) { mc_lit(l, 0, &x); sprintf(wh, " WHERE %s.a > %s", a, l); }
  if (wf == 2) sprintf(wh, " WHERE %s.%s IS NOT NULL", b, bu);
  if (wf == 3) { mc_lit(l, ty[0][1], &x); mc_lit(l2, 0, &y); sprintf(wh, " WHERE %s.s = %s OR %s.%s < %s", a, l, b, bk, l2); }
  if (wf == 4) { mc_lit(l, 0, &x); mc_lit(l2, 0, &y); sprintf(wh, " WHERE (%s.%s = %s XOR %s.s IS NULL) AND %s.a <> %s", b, bk, l, a, a, l2); }
  /* the columns of the result: table and column numbers */
  int gc[2][2], ng = 0; if (gf == 1 || gf == 3) { gc[ng][0] = 0; gc[ng++][1] = 0; } if (gf == 2 || gf == 3 || gf == 5) { gc[ng][0] = 0; gc[ng++][1] = 1; } if (gf == 4 || gf == 5) { gc[ng][0] = 1; gc[ng++][1] = 1; }
  char *p = li; if (!gf && cf != 2) { gc[0][0] = 0; gc[0][1] = 1; ng = 1; if (!one) { gc[1][0] = 1; gc[1][1] = 0; ng = 2; } if (cf == 1) ng = 1; }
  for (int i = 0; i < ng; i++) p += sprintf(p, "%s%s.%s", i ? ", " : "", gc[i][0] ? "B" : a, CN[gc[i][0]][gc[i][1]]);
  if (gf) { sprintf(g, " GROUP BY %s", li); if (cf) p += sprintf(p, ", COUNT(*)"); } else if (cf == 2) p += sprintf(p, "COUNT(*)");
  snprintf(q, sizeof q, "SELECT %s FROM %s%s%s;", li, F[fr], wh, g); struct query_output *o = vp_q("%s", q); vp_assert(o && o->status == ST_OK_WITH_RESULTS, "a valid SELECT returns results"); struct table *u = o->results.table; int m = vp_rows(u, R, 40), ci[2] = {-1, -1}, cc = -1, nc = ng + (gf ? cf : cf == 2);
  vp_assert(u->column_count == nc, "the result has exactly the listed columns"); char nm[20]; for (int i = 0; i < ng; i++) { sprintf(nm, "%s.%s", gc[i][0] ? "B" : "A", CN[gc[i][0]][gc[i][1]]); ci[i] = vp_col(u, nm); if (ci[i] < 0 && fr == 5) { sprintf(nm, "z.%s", CN[0][gc[i][1]]); ci[i] = vp_col(u, nm); } vp_assert(ci[i] >= 0, "the column is there"); }
  if (nc > ng) { cc = vp_col(u, "COUNT(*)"); vp_assert(cc >= 0, "the column is there"); }
  /* the model: combinations that satisfy the join condition and WHERE */
  static int sel[16][2]; int ns = 0;
  for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) {
    struct mcell *A0 = &M[0][i].c[0], *A1 = &M[0][i].c[1], *B0 = one ? A0 : &M[1][j].c[0], *B1 = one ? A1 : &M[1][j].c[1]; int c = 1; 
    if (fr == 0) c = m_cmp(0, A0, B0, 0); if (fr == 2) c = m_cmp(1, A0, B0, 0); if (fr == 3) c = m_cmp(3, B0, A0, 0);
    if (wf == 1) c = vp_and(c, m_cmp(4, A0, &x, 0)); if (wf == 2) c = vp_and(c, vp_not(B1->nul)); if (wf == 3) c = vp_and(c, vp_or(m_cmp(0, A1, &x, ty[0][1]), m_cmp(2, B0, &y, 0)));
    if (wf == 4) { int e = m_cmp(0, B0, &x, 0), f = A1->nul; c = vp_and(c, vp_and(vp_and(vp_or(e, f), vp_not(vp_and(e, f))), m_cmp(1, A0, &y, 0))); }
    if (D(c)) { sel[ns][0] = i; sel[ns++][1] = j; }
  }
  if (!gf && cf == 2) { vp_assert(m == 1, "COUNT(*) returns one row"); vp_assert(!vp_isnull(u, R[0], cc) && vp_geti(u, R[0], cc) == ns, "COUNT(*) is the number of rows that satisfy the conditions"); }
  else {
    static int rep[16], cnt[16], used[16]; int k = 0; for (int i = 0; i < ns; i++) { int j = k; if (gf) for (j = 0; j < k; j++) { int e = 1; for (int c = 0; c < ng; c++) e = vp_and(e, m_same(&M[gc[c][0]][sel[rep[j]][gc[c][0]]].c[gc[c][1]], &M[gc[c][0]][sel[i][gc[c][0]]].c[gc[c][1]], ty[gc[c][0]][gc[c][1]])); if (D(e)) break; } if (j == k) { rep[k] = i; cnt[k++] = 0; } cnt[j]++; }
    vp_assert(m == k, gf ? "there is one result row for each group of rows that satisfy the conditions" : "there is one result row for each combination that satisfies the conditions");
    for (int r = 0; r < m; r++) { int f = 0; for (int j = 0; j < k && !f; j++) if (!used[j]) { int e = 1; for (int c = 0; c < ng; c++) { struct mcell z = mc_read(u, R[r], ci[c], ty[gc[c][0]][gc[c][1]]); e = vp_and(e, m_same(&z, &M[gc[c][0]][sel[rep[j]][gc[c][0]]].c[gc[c][1]], ty[gc[c][0]][gc[c][1]])); } if (cc >= 0 && !gf) e = 1; if (D(e)) { if (cc >= 0 && vp_geti(u, R[r], cc) != cnt[j]) { vp_assert(gf == 0, "COUNT(*) is the number of rows of the group"); } f = used[j] = 1; } } vp_assert(f, "a result row holds the values of the rows it stands for"); }
  }
  query_free(o); vp_close(); vp_cover("end");
}

/* Joins of two and three tables of arbitrary content. args: [0] 0 two tables, 1 three tables; [1] column type; [2..4] rows of A, B, C; [5] filler columns; [6] forms (bit mask); [7] 1: only the last row of each table is arbitrary. */
#include "vp_sql.h"
#include "vp_model.h"
static const char *TN[6] = {"INT", "DOUBLE", "VARCHAR(6)", "TINYINT", "DATE", "DATETIME"}, *L0[6] = {"0", "0.5", "'xy'", "TRUE", "'2000-01-01'", "'2000-01-01 00:00:00'"};
static int ty, n[3]; static struct mcell K[3][80], S[3][80]; static struct row *R[400]; static struct table *T[3];
static const char *NM[3] = {"A", "B", "C"}; static int list; /* SELECT * needs different column names */
static const char *cn(const char *c, int w) { static char b[8][16]; static int k; char *p = b[k++ & 7]; snprintf(p, 16, list ? "%s" : "%s%d", c, w); return p; }
static void mk(int w, int fill) {
  static char q[2000]; char *p = q; p += sprintf(p, "CREATE TABLE %s (%s INT, %s %s, %s VARCHAR(6)", NM[w], cn("id", w), cn("k", w), TN[ty], cn("s", w)); for (int i = 0; i < fill; i++) p += sprintf(p, ", f%d_%d INT", list ? 0 : w, i); vp_ok("%s);", q); T[w] = vp_tbl(NM[w]);
  int gaps = 0; for (int r = 0; r < n[w]; r++) { if (r % 7 == 0 || r % 7 == 5) { vp_gap(NM[w], cn("id", w)); gaps++; } p = q; struct mcell *s = &S[w][r]; memset(s, 0, sizeof *s); s->nul = (r + w) % 3 == 2; if (!s->nul) { s->s[0] = (char)('p' + w); s->s[1] = (char)('A' + r % 26); } p += sprintf(p, "INSERT INTO %s VALUES (%d, %s, %s%s%s", NM[w], r, L0[ty], s->nul ? "" : "'", s->nul ? "NULL" : s->s, s->nul ? "" : "'"); for (int i = 0; i < fill; i++) p += sprintf(p, ", %d", i); vp_assert(vp_ok("%s);", q) == 1, "one row is inserted"); }
  vp_gap(NM[w], cn("id", w)); vp_gaps_done(NM[w], cn("id", w), gaps + 1); vp_assert(vp_rows(T[w], R, 400) == n[w], "every inserted row is stored");
  for (int r = 0; r < n[w]; r++) { if (vp_arg(7) ? r + 1 == n[w] : 1) mc_poke(T[w], R[r], 1, ty, &K[w][r]); else { int64_t v = 1000 + r; memset(&K[w][r], 0, sizeof K[w][r]); K[w][r].i = v; memcpy(m_colp(T[w], R[r], 1), &v, 8); } }
}
static void verify(void) { for (int w = 0; w < 3; w++) if (T[w]) { vp_assert(vp_rows(T[w], R, 400) == n[w], "a SELECT leaves the tables alone"); for (int r = 0; r < n[w]; r++) { vp_assert(vp_geti(T[w], R[r], 0) == r, "a SELECT leaves the tables alone"); mc_check(T[w], R[r], 1, ty, &K[w][r], "a SELECT leaves the tables alone", "a SELECT leaves the tables alone"); mc_check(T[w], R[r], 2, 2, &S[w][r], "a SELECT leaves the tables alone", "a SELECT leaves the tables alone"); } } }
static int want(int form, int op, int a, int b, int c, struct mcell *l);
static struct mcell CI(int i) { struct mcell x = {0}; x.i = i; return x; }
static int want(int form, int op, int a, int b, int c, struct mcell *l) {
  struct mcell *A = &K[0][a], *B = &K[1][b], *C = &K[2][c], ia = CI(a), ib = CI(b), ic = CI(c);
  switch (form) {
  case 0: case 1: case 3: return m_cmp(op, A, B, ty);
  case 2: return m_cmp(op, B, A, ty);
  case 4: return vp_and(m_cmp(op, A, B, ty), m_cmp(0, &ia, &ib, 0));
  case 5: return vp_or(m_cmp(op, A, B, ty), m_cmp(0, &ia, &ib, 0));
  case 6: return vp_and(m_cmp(0, A, B, ty), m_cmp(op, B, l, ty));
  case 7: return m_cmp(op, A, l, ty);
  case 8: return 1;
  case 9: return vp_and(m_cmp(0, A, B, ty), vp_not(A->nul));
  /* three tables */
  case 10: return vp_and(m_cmp(0, A, B, ty), m_cmp(op, B, C, ty));
  case 11: return vp_and(m_cmp(0, A, B, ty), m_cmp(op, A, C, ty));
  case 12: return vp_and(m_cmp(op, A, B, ty), m_cmp(0, C, B, ty));
  case 13: return vp_and(m_cmp(op, A, C, ty), m_cmp(0, &ia, &ib, 0));
  case 14: return 1;
  default: (void)ic; return vp_and(vp_and(m_cmp(0, A, B, ty), m_cmp(0, B, C, ty)), m_cmp(op, C, l, ty));
  }
}
void vp_main(void) {
  int three = (int)vp_arg(0); ty = (int)vp_arg(1); for (int i = 0; i < 3; i++) n[i] = (int)vp_arg(2 + i); int fill = (int)vp_arg(5); list = vp_choose("list", 2); vp_open(); mk(0, fill); mk(1, fill); if (three) mk(2, fill); mk_reset();
  static const char *F2[10] = {"A JOIN B ON A.k %s B.k", "A INNER JOIN B ON (A.k %s B.k)", "A JOIN B ON B.k %s A.k", "A, B WHERE A.k %s B.k", "A JOIN B ON A.k %s B.k AND A.id = B.id", "A JOIN B ON A.k %s B.k OR A.id = B.id", "A JOIN B ON A.k = B.k WHERE B.k %s $", "A JOIN B ON A.k %s $", "A, B", "A AS x JOIN B AS y ON x.k = y.k WHERE x.k IS NOT NULL"};
  static const char *F3[6] = {"A JOIN B ON A.k = B.k JOIN C ON B.k %s C.k", "A JOIN B ON A.k = B.k JOIN C ON A.k %s C.k", "A, B, C WHERE A.k %s B.k AND C.k = B.k", "A JOIN B ON A.id = B.id JOIN C ON A.k %s C.k", "A, B, C", "A JOIN B ON A.k = B.k JOIN C ON B.k = C.k WHERE C.k %s $"};
  int fm[10], nf = 0; for (int f = 0; f < (three ? 6 : 10); f++) if ((vp_arg(6) >> f) & 1) fm[nf++] = f;
  int f = fm[vp_choose("form", nf)]; const char *F = three ? F3[f] : F2[f]; if (three) f += 10; int al = f == 9, op = strstr(F, "%s") ? vp_choose("op", vp_arg(7) ? 3 : ty == 2 || ty == 3 ? 2 : 6) : 0; struct mcell l; memset(&l, 0, sizeof l);
  char from[200], q[300], lit[40] = ""; char *o = from; if (strchr(F, '$')) mc_lit(lit, ty, &l); for (const char *p = F; *p; p++) { if (*p == '%') { o += sprintf(o, "%s", M_OP[op]); p++; } else if (*p == '$') o += sprintf(o, "%s", lit); else if (*p == '.') { int w = p[-1] == 'x' ? 0 : p[-1] == 'y' ? 1 : p[-1] - 'A'; o += sprintf(o, ".%s", cn(p[1] == 'k' ? "k" : "id", w)); p += p[1] == 'k' ? 1 : 2; } else *o++ = *p; } *o = 0;
  static const char *L[4] = {"A.id, B.id", "x.id, y.id", "C.id, A.id, B.id", ""}; snprintf(q, sizeof q, "SELECT %s FROM %s;", list ? L[three ? 2 : al] : "*", from);
  struct query_output *out = vp_q("%s", q); vp_assert(out && out->status == ST_OK_WITH_RESULTS, "a valid SELECT returns results"); struct table *u = out->results.table; int nt = three ? 3 : 2; vp_assert(u->column_count == (list ? nt : nt * (3 + fill)), "the result has the listed columns, or all of them");
  int m = vp_rows(u, R, 400), ci[3], ck[3], cs[3]; for (int w = 0; w < nt; w++) { char nm[16]; sprintf(nm, "%s.%s", NM[w], cn("id", w)); ci[w] = vp_col(u, nm); vp_assert(ci[w] >= 0, "the column is there"); if (!list) { sprintf(nm, "%s.%s", NM[w], cn("k", w)); ck[w] = vp_col(u, nm); sprintf(nm, "%s.%s", NM[w], cn("s", w)); cs[w] = vp_col(u, nm); } }
  static unsigned char seen[80][80][4];
  for (int i = 0; i < m; i++) { int id[3] = {0, 0, 0}; for (int w = 0; w < nt; w++) { id[w] = (int)vp_geti(u, R[i], ci[w]); vp_assert(!vp_isnull(u, R[i], ci[w]) && id[w] >= 0 && id[w] < n[w], "a result row is made of rows of the tables"); if (!list) { mc_check(u, R[i], ck[w], ty, &K[w][id[w]], "a result row holds the values of the joined rows", "a result row holds the NULL marks of the joined rows"); mc_check(u, R[i], cs[w], 2, &S[w][id[w]], "a result row holds the values of the joined rows", "a result row holds the NULL marks of the joined rows"); if (fill) { char nm[16]; sprintf(nm, "%s.f%d_%d", NM[w], w, fill - 1); vp_assert(vp_geti(u, R[i], vp_col(u, nm)) == fill - 1, "a result row holds the values of the joined rows"); } } }
    vp_assert(!seen[id[0]][id[1]][id[2]], "a combination of rows is returned at most once"); seen[id[0]][id[1]][id[2]] = 1; }
  for (int a = 0; a < n[0]; a++) for (int b = 0; b < n[1]; b++) for (int c = 0; c < (three ? n[2] : 1); c++) vp_assert(want(f, op, a, b, c, &l) == seen[a][b][c], "a combination of rows is returned exactly when it satisfies the join and WHERE conditions");
  query_free(out); verify(); vp_close(); vp_cover("end");
}

/* INSERT then SELECT: what was inserted is what is stored and returned.
 * args: [0] mode: 0 every type and NULL; 1 column lists; 2 several rows and statements; 3 wide rows over several blocks with deletions in between; 4 a rejected row among valid ones. [1] mode parameter. */
#include "vp_sql.h"
#include "vp_model.h"
static const char *TN[6] = {"INT", "DOUBLE", "VARCHAR(6)", "TINYINT", "DATE", "DATETIME"}; static const char *CN[6] = {"i", "d", "s", "b", "dt", "tm"};
static struct mrow R[32]; static int n;
/* text of a value of type ty for model cell c */
static void val(char *o, int ty, struct mcell *c) { mc_lit(o, ty, c); }
static void types(int rows) {
  char q[600], *p; int cn = vp_choose("direct", 2);
  for (int r = 0; r < rows; r++) {
    int mask = r == 0 ? vp_choose("nulls", 64) : (vp_choose("nulls2", 4) * 21) & 63; p = q; p += sprintf(p, "INSERT %sT VALUES (", cn ? "" : "INTO "); mk_reset();
    for (int c = 0; c < 6; c++) { char l[40]; struct mcell *x = &R[n].c[c]; memset(x, 0, sizeof *x); if ((mask >> c) & 1) { x->nul = 1; strcpy(l, "NULL"); } else val(l, c, x); p += sprintf(p, "%s%s", c ? ", " : "", l); }
    n++; vp_assert(vp_ok("%s);", q) == 1, "one row is inserted");
  }
}
static void lists(void) {
  char q[600], *p; int mask = 1 + vp_choose("subset", 63), rot = vp_choose("rotation", 6), rev = vp_choose("reversed", 2), two = vp_choose("rows", 2) + 1, nulfirst = vp_choose("nullfirst", 2); p = q; mk_reset();
  int ord[6], k = 0; for (int i = 0; i < 6; i++) { int c = rev ? (rot + 6 - i) % 6 : (rot + i) % 6; if ((mask >> c) & 1) ord[k++] = c; }
  p += sprintf(p, "INSERT INTO T ("); for (int i = 0; i < k; i++) p += sprintf(p, "%s%s", i ? ", " : "", CN[ord[i]]); p += sprintf(p, ") VALUES ");
  for (int r = 0; r < two; r++) { for (int c = 0; c < 6; c++) { memset(&R[n].c[c], 0, sizeof R[n].c[c]); R[n].c[c].nul = 1; }
    p += sprintf(p, "%s(", r ? ", " : ""); for (int i = 0; i < k; i++) { char l[40]; struct mcell *x = &R[n].c[ord[i]]; if (nulfirst && i == r) strcpy(l, "NULL"); else { x->nul = 0; val(l, ord[i], x); } p += sprintf(p, "%s%s", i ? ", " : "", l); } p += sprintf(p, ")"); n++; }
  vp_assert(vp_ok("%s;", q) == (size_t)two, "the affected-row count is the number of inserted rows");
}
static void multi(void) {
  char q[900], *p; for (int st = 0; st < 3; st++) { int k = 1 + vp_choose("rows", 4); p = q; p += sprintf(p, "INSERT INTO T (s, i) VALUES "); mk_reset();
    for (int r = 0; r < k; r++) { for (int c = 0; c < 6; c++) { memset(&R[n].c[c], 0, sizeof R[n].c[c]); R[n].c[c].nul = 1; } char a[40], b[40]; R[n].c[2].nul = 0; val(a, 2, &R[n].c[2]); if (r == 1) strcpy(b, "NULL"); else { R[n].c[0].nul = 0; val(b, 0, &R[n].c[0]); } p += sprintf(p, "%s(%s, %s)", r ? ", " : "", a, b); n++; }
    vp_assert(vp_ok("%s;", q) == (size_t)k, "the affected-row count is the number of inserted rows"); }
}
static void verify(void) {
  static struct row *A[40]; struct table *t = vp_tbl("T"); vp_assert(vp_rows(t, A, 40) == n, "the table holds every inserted row and no other");
  for (int r = 0; r < n; r++) for (int c = 0; c < 6; c++) mc_check(t, A[r], vp_col(t, CN[c]), c, &R[r].c[c], "a stored value is the inserted value", "a stored NULL mark is the inserted one");
  struct query_output *o = vp_q("SELECT * FROM T;"); vp_assert(o && o->status == ST_OK_WITH_RESULTS, "a valid SELECT returns results"); struct table *rt = o->results.table; vp_assert(rt->column_count == 6, "the result has every column");
  vp_assert(vp_rows(rt, A, 40) == n, "the result has every row");
  for (int r = 0; r < n; r++) for (int c = 0; c < 6; c++) { char nm[12]; sprintf(nm, "T.%s", CN[c]); mc_check(rt, A[r], vp_col(rt, nm), c, &R[r].c[c], "a returned value is the inserted value", "a returned NULL mark is the inserted one"); }
  int ic = vp_col(rt, "T.i"); for (int r = 0; r < n; r++) { vp_assert(query_cur_step(&o->results) == MIDORIDB_ROW, "the cursor reaches every row"); vp_assert(vp_or(R[r].c[0].nul, query_column_int64(&o->results, ic) == R[r].c[0].i), "the cursor returns the inserted integer"); }
  vp_assert(query_cur_step(&o->results) == MIDORIDB_OK, "the cursor ends after the last row"); query_free(o);
}
static void wide(int fill) {
  static char q[4000]; char *p = q; int64_t id[24], x[24]; int nul[24], live[24], m = 0; static struct row *A[40];
  p += sprintf(p, "CREATE TABLE W (id INT"); for (int i = 0; i < fill; i++) p += sprintf(p, ", f%d INT", i); p += sprintf(p, ", s VARCHAR(4), x INT"); vp_ok("%s);", q);
  for (int ph = 0; ph < 3; ph++) {
    int k = ph == 1 ? 1 + vp_choose("more", 2) : 5;
    for (int r = 0; r < k; r++) { p = q; nul[m] = (m % 3) == 1; x[m] = vpI[r] = vp_i64("x"); id[m] = m; live[m] = 1; p += sprintf(p, "INSERT INTO W VALUES (%d", m); for (int i = 0; i < fill; i++) { if (i == fill / 2 && nul[m]) p += sprintf(p, ", NULL"); else p += sprintf(p, ", %d", i * 3 + m); } if (nul[m]) p += sprintf(p, ", NULL, NULL"); else p += sprintf(p, ", 'ab', 9000000%d", r); vp_assert(vp_ok("%s);", q) == 1, "one row is inserted"); m++; }
    if (ph < 2) { int w = vp_choose("delete", 4), cnt = 0, want[24]; int64_t v = 0; if (w == 3) { v = vpI[9] = vp_i64("bound"); vp_assume(v >= -1 && v <= 24); }
      for (int r = 0; r < m; r++) { want[r] = !live[r] ? 0 : w == 0 ? 0 : w == 1 ? 1 : w == 2 ? (r & 1) : (int)vp_concretize(r < v); cnt += want[r]; }
      if (w == 1) vp_assert(vp_ok("DELETE FROM W;") == (size_t)cnt, "the affected-row count of DELETE"); else if (w == 3) vp_assert(vp_ok("DELETE FROM W WHERE id < 90000009;") == (size_t)cnt, "the affected-row count of DELETE"); else if (w == 2) { char e[200] = ""; for (int r = 1; r < m; r += 2) sprintf(e + strlen(e), "%s%d", r > 1 ? ", " : "", r); vp_assert(vp_ok("DELETE FROM W WHERE id IN (%s);", e) == (size_t)cnt, "the affected-row count of DELETE"); }
      for (int r = 0; r < m; r++) live[r] &= !want[r]; }
  }
  struct table *t = vp_tbl("W"); int k = 0, tot = 0; for (int r = 0; r < m; r++) tot += live[r];
  for (int pass = 0; pass < 2; pass++) { struct query_output *o = NULL; struct table *u = t; if (pass) { o = vp_q("SELECT * FROM W;"); vp_assert(o && o->status == ST_OK_WITH_RESULTS, "a valid SELECT returns results"); u = o->results.table; }
    vp_assert(vp_rows(u, A, 40) == tot, "exactly the rows inserted and not deleted are there"); k = 0; char nm[16]; const char *pre = pass ? "W." : "";
    int ci, cx, cs; sprintf(nm, "%sid", pre); ci = vp_col(u, nm); sprintf(nm, "%sx", pre); cx = vp_col(u, nm); sprintf(nm, "%ss", pre); cs = vp_col(u, nm);
    for (int r = 0; r < m; r++) if (live[r]) { struct row *w = A[k++]; vp_assert(vp_geti(u, w, ci) == id[r], "rows stay in insertion order"); vp_assert(vp_isnull(u, w, cx) == nul[r] && vp_isnull(u, w, cs) == nul[r], "a NULL mark is the inserted one"); if (!nul[r]) { vp_assert(vp_geti(u, w, cx) == x[r], "a value is the inserted one"); vp_assert(!strcmp(vp_gets(u, w, cs), "ab"), "a value is the inserted one"); }
      for (int i = 0; i < fill; i++) { sprintf(nm, "%sf%d", pre, i); int c = vp_col(u, nm), z = i == fill / 2 && nul[r]; vp_assert(vp_isnull(u, w, c) == z, "a NULL mark is the inserted one"); if (!z) vp_assert(vp_geti(u, w, c) == i * 3 + r, "a value is the inserted one"); } }
    if (o) { k = 0; for (int r = 0; r < m; r++) if (live[r]) { vp_assert(query_cur_step(&o->results) == MIDORIDB_ROW && query_column_int64(&o->results, ci) == id[r], "the cursor visits every row once, in order"); } vp_assert(query_cur_step(&o->results) == MIDORIDB_OK, "the cursor ends after the last row"); query_free(o); } }
}
void vp_main(void) {
  int mode = (int)vp_arg(0); vp_open(); mk_fixlen = mode != 0;
  if (mode == 3) wide((int)vp_arg(1));
  else { char q[400], *p = q; p += sprintf(p, "CREATE TABLE T ("); for (int c = 0; c < 6; c++) p += sprintf(p, "%s%s %s", c ? ", " : "", CN[c], TN[c]); vp_ok("%s);", q);
    if (mode == 0) types((int)vp_arg(1)); else if (mode == 1) lists(); else multi(); verify(); }
  vp_close(); vp_cover("end");
}

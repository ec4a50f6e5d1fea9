/* UPDATE assignments of every type, and SELECT column lists, over rows of arbitrary content. args: [0] 0 UPDATE, 1 SELECT list, 2 UPDATE that assigns the columns its condition reads; [1] rows, [2] 1: fixed pattern of NULL marks. */
#include "vp_sql.h"
#include "vp_model.h"
static const char *TN[6] = {"INT", "DOUBLE", "VARCHAR(6)", "TINYINT", "DATE", "DATETIME"}, *CN[6] = {"i", "d", "s", "b", "t", "m"};
static int n; static struct mrow M[4]; static struct row *R[40];
static char *colp(struct table *t, struct row *r, int c) { size_t o = 0; for (int i = 0; i < c; i++) o += table_calc_column_space(&t->columns[i]); return r->data + o; }
static void fill(struct table *t) {
  for (int r = 0; r < n; r++) for (int c = 0; c < 6; c++) { struct mcell *x = &M[r].c[c]; int k = vp_col(t, CN[c]); char *d = colp(t, R[r], k); memset(x, 0, sizeof *x); x->nul = vp_arg(2) ? (r + c) % 3 == 0 : vp_bool("null");
    if (c == 1) { x->d = vp_f64("v"); vp_assume(x->d == x->d); memcpy(d, &x->d, 8); } else if (c == 2) { char *s; memcpy(&s, d, 8); vp_bytes(s, 2, "v"); s[2] = 0; memcpy(x->s, s, 3); } else if (c == 3) { x->i = vp_bool("v"); *d = (char)x->i; } else { x->i = vp_i64("v"); memcpy(d, &x->i, 8); }
    R[r]->null_bitmap[k / 8] |= (char)(x->nul << (k % 8)); }
}
static void verify(struct table *t, const char *pre) {
  vp_assert(vp_rows(t, R, 40) == n, "no row is added or removed"); char nm[8]; sprintf(nm, "%sid", pre); int ci = vp_col(t, nm);
  for (int r = 0; r < n; r++) { if (ci >= 0) vp_assert(!vp_isnull(t, R[r], ci) && vp_geti(t, R[r], ci) == r, "rows keep their identity and order"); for (int c = 0; c < 6; c++) { sprintf(nm, "%s%s", pre, CN[c]); int k = vp_col(t, nm); if (k >= 0) mc_check(t, R[r], k, c, &M[r].c[c], "every column holds the value it should", "every column is NULL exactly when it should be"); } }
}
static struct mcell sel(int cond, struct mcell a, struct mcell b, int ty) { struct mcell r = b; r.nul = (int)vp_ite(cond, a.nul, b.nul); r.i = vp_ite(cond, a.i, b.i); if (ty == 1) { int64_t x, y; memcpy(&x, &a.d, 8); memcpy(&y, &b.d, 8); x = vp_ite(cond, x, y); memcpy(&r.d, &x, 8); } for (int k = 0; k < 8; k++) r.s[k] = (char)vp_ite(cond, a.s[k], b.s[k]); return r; }
void vp_main(void) {
  int mode = (int)vp_arg(0); n = (int)vp_arg(1); static char q[900], w[100]; char *p = q; vp_open();
  p += sprintf(p, "CREATE TABLE T (id INT"); for (int c = 0; c < 6; c++) p += sprintf(p, ", %s %s", CN[c], TN[c]); vp_ok("%s);", q); struct table *t = vp_tbl("T");
  for (int r = 0; r < n; r++) { if (r != 1) vp_gap("T", "id"); vp_assert(vp_ok("INSERT INTO T VALUES (%d, 1, 1.5, 'ab', TRUE, '2001-01-01', '2001-01-01 10:00:00');", r) == 1, "one row is inserted"); }
  vp_gap("T", "id"); vp_gaps_done("T", "id", n == 0 ? 1 : n == 1 ? 2 : n);
  vp_assert(vp_rows(t, R, 40) == n, "every inserted row is stored"); fill(t); mk_reset(); w[0] = 0; int want[4]; for (int r = 0; r < n; r++) want[r] = 1;
  if (mode == 0) {
    int k = 1 + vp_choose("columns", 3), st = vp_choose("first", 6), dir = vp_choose("dir", 2), nl = vp_choose("null", k + 1); struct mcell v[3]; int ord[3]; mk_fixlen = k > 1;
    p = q; p += sprintf(p, "UPDATE T SET "); mk_t = vp_choose("variant", 2);
    for (int j = 0; j < k; j++) { ord[j] = dir ? (st + j) % 6 : (st - j + 6) % 6; char l[40]; if (j + 1 == nl) { memset(&v[j], 0, sizeof v[j]); v[j].nul = 1; strcpy(l, "NULL"); } else mc_lit(l, ord[j], &v[j]); p += sprintf(p, "%s%s = %s", j ? ", " : "", CN[ord[j]], l); }
    if (vp_choose("where", 2)) { int64_t b = vpI[50] = vp_i64("bound"); strcpy(w, " WHERE id < 90000050"); for (int r = 0; r < n; r++) want[r] = r < b; }
    int64_t cnt = 0; for (int r = 0; r < n; r++) { cnt += vp_ite(want[r], 1, 0); for (int j = 0; j < k; j++) M[r].c[ord[j]] = sel(want[r], v[j], M[r].c[ord[j]], ord[j]); }
    vp_assert((int64_t)vp_ok("%s%s;", q, w) == cnt, "the affected-row count is the number of rows that satisfy the condition"); verify(t, "");
  } else if (mode == 2) {
    int64_t b = vpI[50] = vp_i64("bound"), nv = vpI[51] = vp_i64("new"); int f = vp_choose("form", 3); struct mcell x = {0}; x.i = nv;
    for (int r = 0; r < n; r++) { struct mcell *c = &M[r].c[0]; want[r] = f == 0 ? vp_and(vp_not(c->nul), c->i > b) : f == 1 ? c->nul : vp_or(c->nul, c->i == b); }
    int64_t cnt = 0; for (int r = 0; r < n; r++) { cnt += vp_ite(want[r], 1, 0); M[r].c[0] = sel(want[r], x, M[r].c[0], 0); }
    vp_assert((int64_t)vp_ok("UPDATE T SET i = 90000051 WHERE %s;", f == 0 ? "i > 90000050" : f == 1 ? "i IS NULL" : "i IS NULL OR i = 90000050") == cnt, "the affected-row count is the number of rows that satisfied the condition"); verify(t, "");
  } else {
    int k = 1 + vp_choose("columns", 3), st = vp_choose("first", 6), dir = vp_choose("dir", 2), ql = vp_choose("qualified", 2), wi = vp_choose("where", 3); char nm[12];
    p = q; p += sprintf(p, "SELECT "); for (int j = 0; j < k; j++) { int c = dir ? (st + j) % 6 : (st - j + 6) % 6; p += sprintf(p, "%s%s%s", j ? ", " : "", ql ? "T." : "", CN[c]); }
    if (wi) { int64_t b = vpI[50] = vp_i64("bound"); sprintf(w, " WHERE %s%s < 90000050", ql ? "T." : "", wi == 1 ? "id" : "i"); for (int r = 0; r < n; r++) want[r] = wi == 1 ? r < b : vp_and(vp_not(M[r].c[0].nul), M[r].c[0].i < b); }
    struct query_output *o = vp_q("%s FROM T%s;", q, w); vp_assert(o && o->status == ST_OK_WITH_RESULTS, "a valid SELECT returns results"); struct table *u = o->results.table; vp_assert(u->column_count == k, "the result has exactly the listed columns");
    int m = vp_rows(u, R, 40), x = 0; for (int r = 0; r < n; r++) if (want[r]) { vp_assert(x < m, "every row that satisfies the condition is returned"); for (int j = 0; j < k; j++) { int c = dir ? (st + j) % 6 : (st - j + 6) % 6; sprintf(nm, "T.%s", CN[c]); mc_check(u, R[x], vp_col(u, nm), c, &M[r].c[c], "a returned value is the stored one", "a returned NULL mark is the stored one"); } x++; }
    vp_assert(m == x, "no other row is returned"); query_free(o); verify(t, "");
  }
  vp_close(); vp_cover("end");
}

/* WHERE conditions of DELETE, UPDATE and SELECT against an independent evaluator, over arbitrary table contents.
 * args: [0] statement (0 DELETE, 1 UPDATE, 2 SELECT, 3 SELECT with qualified names), [1] column type (0 INT, 1 DOUBLE, 2 VARCHAR, 3 TINYINT, 4 DATE, 5 DATETIME),
 * [2] shape (0 comparison, 1 IS NULL, 2 IN / NOT IN, 3 two conditions, 4 three conditions, 5 no condition, 6 value to value), [3] rows, [4] extra filler columns, [5] comparison forms (bit mask), [6] rows with arbitrary content (bit mask; the others hold fixed values). */
#include "vp_sql.h"
#define MAXR 24
static int ST, TY, n, nk; static char ex[600];
struct cell { int nul; int64_t i; double d; char s[8]; };
static struct cell M[MAXR][3]; static int64_t Z[MAXR]; static int zn[MAXR]; static struct cell K[8]; static int want[MAXR];
static const char *NM[3] = {"a", "b", "z"};
static struct cell Zc[MAXR];
static const char *name(int c) { static char b[4][12]; static int k; char *p = b[k = (k + 1) & 3]; snprintf(p, 12, "%s%s", ST == 3 ? "T." : "", NM[c]); return p; }
static struct cell *cellp(int r, int c) { return c == 2 ? &Zc[r] : &M[r][c]; }
static int isz(int c) { return c == 2; }
/* a literal of the column's type, standing for an arbitrary value */
static const char *DL[6] = {"1999-12-31", "2000-03-01", "2024-02-29", "1970-01-02", "2038-01-19", "2001-01-01"};
static int64_t DV[6] = {946598400, 951868800, 1709164800, 86400, 2147472000, 978307200};
static void lit(char *o, int *k) {
  int i = *k = nk++; struct cell *c = &K[i]; memset(c, 0, sizeof *c);
  switch (TY) {
  case 0: c->i = vpI[i] = vp_i64("const"); sprintf(o, "9000000%d", i); break;
  case 1: c->d = vpD[i] = vp_f64("const"); vp_assume(c->d == c->d); sprintf(o, "9000%d.5", i); break;
  case 2: vp_bytes(vpS[i], 3, "const"); memset(vpS[i] + 3, 0, 4); memcpy(c->s, vpS[i], 8); vpS_on[i] = 1; sprintf(o, "'vps%d'", i); break;
  case 3: c->i = vp_choose("constb", 2); sprintf(o, "%s", c->i ? "TRUE" : "FALSE"); break;
  default: { int q = (i + vp_choose("constd", 2)) % 6; c->i = DV[q]; sprintf(o, "'%s%s'", DL[q], TY == 5 ? " 00:00:00" : ""); } }
}
static int rel(int op, int lt, int eq) { switch (op) { case 0: return eq; case 1: return !eq; case 2: return lt; case 3: return vp_or(lt, eq); case 4: return vp_and(vp_not(lt), vp_not(eq)); default: return vp_not(lt); } }
static const char *OP[6] = {"=", "<>", "<", "<=", ">", ">="};
static int scmp_eq(const char *a, const char *b) { int e = 1, live = 1; for (int i = 0; i < 6; i++) { e = vp_and(e, vp_or(vp_not(live), a[i] == b[i])); live = vp_and(live, a[i] != 0); } return e; }
static int cmpc(int op, struct cell *x, struct cell *y, int ty) {
  int lt, eq;
  if (ty == 1) { lt = x->d < y->d; eq = x->d == y->d; if (op == 5) return x->d >= y->d; if (op == 4) return x->d > y->d; }
  else if (ty == 2) { lt = 0; eq = scmp_eq(x->s, y->s); if (op == 1) return vp_not(eq); return eq; }
  else { lt = x->i < y->i; eq = x->i == y->i; }
  return vp_and(vp_and(vp_not(x->nul), vp_not(y->nul)), op == 1 ? vp_not(eq) : rel(op, lt, eq));
}
/* one condition: writes text to o, result per row to r */
static void cond(char *o, int *r, int shape, int forms) {
  char l1[24], l2[24]; int k1, k2;
  int nops = TY == 2 || TY == 3 ? 2 : 6;
  if (shape == 0) {
    int fm[6], nf = 0; for (int f = 0; f < 6; f++) if ((forms >> f) & 1) fm[nf++] = f;
    int f = fm[vp_choose("form", nf)], op = vp_choose("op", nops);
    if (f == 0) { lit(l1, &k1); sprintf(o, "%s %s %s", name(0), OP[op], l1); for (int i = 0; i < n; i++) r[i] = vp_and(vp_not(M[i][0].nul), cmpc(op, &M[i][0], &K[k1], TY)); }
    else if (f == 1) { lit(l1, &k1); sprintf(o, "%s %s %s", l1, OP[op], name(0)); for (int i = 0; i < n; i++) r[i] = vp_and(vp_not(M[i][0].nul), cmpc(op, &K[k1], &M[i][0], TY)); }
    else if (f == 2) { sprintf(o, "%s %s %s", name(0), OP[op], name(1)); for (int i = 0; i < n; i++) r[i] = vp_and(vp_and(vp_not(M[i][0].nul), vp_not(M[i][1].nul)), cmpc(op, &M[i][0], &M[i][1], TY)); }
    else if (f == 3) { sprintf(o, "%s %s %s", name(1), OP[op], name(0)); for (int i = 0; i < n; i++) r[i] = vp_and(vp_and(vp_not(M[i][0].nul), vp_not(M[i][1].nul)), cmpc(op, &M[i][1], &M[i][0], TY)); }
    else if (f == 4) { sprintf(o, "%s %s %s", name(0), OP[op], name(0)); for (int i = 0; i < n; i++) r[i] = vp_and(vp_not(M[i][0].nul), cmpc(op, &M[i][0], &M[i][0], TY)); }
    else { op &= 1; sprintf(o, "%s %s NULL", name(0), OP[op]); for (int i = 0; i < n; i++) r[i] = 0; }
  } else if (shape == 1) {
    int c = vp_choose("col", 2), neg = vp_choose("neg", 2); sprintf(o, "%s IS%s NULL", name(c), neg ? " NOT" : ""); for (int i = 0; i < n; i++) r[i] = neg ? vp_not(M[i][c].nul) : M[i][c].nul;
  } else if (shape == 2) {
    int neg = vp_choose("neg", 2), len = 1 + vp_choose("len", 3), nu = vp_choose("nullin", len + 1); char t[100] = ""; for (int i = 0; i < n; i++) r[i] = neg;
    for (int j = 0; j < len; j++) {
      if (j) strcat(t, ", "); if (j + 1 == nu) { strcat(t, "NULL"); if (neg) for (int i = 0; i < n; i++) r[i] = 0; continue; }
      lit(l2, &k2); strcat(t, l2); for (int i = 0; i < n; i++) { int e = cmpc(0, &M[i][0], &K[k2], TY); r[i] = neg ? vp_and(r[i], vp_not(e)) : vp_or(r[i], e); } }
    for (int i = 0; i < n; i++) r[i] = vp_and(r[i], vp_not(M[i][0].nul));
    sprintf(o, "%s %sIN (%s)", name(0), neg ? "NOT " : "", t);
  } else { /* value to value */
    int op = vp_choose("op", TY > 3 ? 2 : nops); lit(l1, &k1); lit(l2, &k2); sprintf(o, "%s %s %s", l1, OP[op], l2); int e = cmpc(op, &K[k1], &K[k2], TY); for (int i = 0; i < n; i++) r[i] = e;
  }
}
/* simple conditions for combination: atom 0 on a, atom 1 on b, atom 2 on z */
static void atom(char *o, int *r, int w, int q) {
  char l1[24]; int k1;
  if (w == 2) { if (q) { strcpy(o, name(2)); strcat(o, " IS NULL"); for (int i = 0; i < n; i++) r[i] = zn[i]; } else { sprintf(o, "%s > 77", name(2)); for (int i = 0; i < n; i++) r[i] = vp_and(vp_not(zn[i]), Z[i] > 77); } return; }
  if (q == 0) { lit(l1, &k1); sprintf(o, "%s = %s", name(w), l1); for (int i = 0; i < n; i++) r[i] = vp_and(vp_not(M[i][w].nul), cmpc(0, &M[i][w], &K[k1], TY)); }
  else if (q == 1) { sprintf(o, "%s IS NOT NULL", name(w)); for (int i = 0; i < n; i++) r[i] = vp_not(M[i][w].nul); }
  else { lit(l1, &k1); sprintf(o, "%s IN (%s)", name(w), l1); for (int i = 0; i < n; i++) r[i] = vp_and(vp_not(M[i][w].nul), cmpc(0, &M[i][w], &K[k1], TY)); }
}
static const char *LG[3] = {"AND", "OR", "XOR"};
static int lg(int op, int a, int b) { a = !!a; b = !!b; return op == 0 ? vp_and(a, b) : op == 1 ? vp_or(a, b) : vp_or(vp_and(a, vp_not(b)), vp_and(vp_not(a), b)); }
static int prec(int op) { return op == 0 ? 3 : op == 2 ? 2 : 1; }
static char *colp(struct table *t, struct row *r, int c) { size_t o = 0; for (int i = 0; i < c; i++) o += table_calc_column_space(&t->columns[i]); return r->data + o; }
static void verify_cells(struct table *t, struct row *r, int i, const char *pre) {
  char nm[12]; for (int c = 0; c < 2; c++) { snprintf(nm, sizeof nm, "%s%s", pre, NM[c]); int k = vp_col(t, nm); vp_assert(vp_isnull(t, r, k) == M[i][c].nul, "a column keeps its NULL mark"); if (!vp_and(1, M[i][c].nul)) {
      if (TY == 1) { double d = vp_getd(t, r, k); vp_assert(memcmp(&d, &M[i][c].d, 8) == 0, "a column keeps its value"); } else if (TY == 2) vp_assert(scmp_eq(vp_gets(t, r, k), M[i][c].s), "a column keeps its value"); else vp_assert(vp_geti(t, r, k) == M[i][c].i, "a column keeps its value"); } }
}
void vp_main(void) {
  static const char *TN[6] = {"INT", "DOUBLE", "VARCHAR(6)", "TINYINT", "DATE", "DATETIME"}; static const char *L0[6] = {"0", "0.5", "'x'", "TRUE", "'2000-01-01'", "'2000-01-01 00:00:00'"};
  ST = (int)vp_arg(0); TY = (int)vp_arg(1); int shape = (int)vp_arg(2); n = (int)vp_arg(3); int fill = (int)vp_arg(4); int forms = (int)vp_arg(5);
  vp_open(); static char q[3000], *p; p = q; p += sprintf(p, "CREATE TABLE T (id INT, a %s, b %s, z INT", TN[TY], TN[TY]); for (int i = 0; i < fill; i++) p += sprintf(p, ", f%d INT", i); vp_ok("%s);", q);
  struct table *t = vp_tbl("T");
  int gaps = 0; for (int i = 0; i < n; i++) { if (i % 2 == 0) { vp_gap("T", "id"); gaps++; } p = q; p += sprintf(p, "INSERT INTO T VALUES (%d, %s, %s, 5", i, L0[TY], L0[TY]); for (int j = 0; j < fill; j++) p += sprintf(p, ", %d", j); vp_assert(vp_ok("%s);", q) == 1, "one row is inserted"); }
  vp_gap("T", "id"); vp_gaps_done("T", "id", gaps + 1);
  static struct row *R[MAXR]; vp_assert(vp_rows(t, R, MAXR) == n, "every inserted row is stored");
  /* arbitrary content */
  for (int i = 0; i < n; i++) {
    if (!((vp_arg(6) >> i) & 1)) { for (int c = 0; c < 2; c++) { M[i][c].i = i * 11 + c; memcpy(colp(t, R[i], 1 + c), &M[i][c].i, 8); } M[i][1].nul = i & 1; R[i]->null_bitmap[0] |= (char)((i & 1) << 2); Z[i] = 5; continue; }
    for (int c = 0; c < 2; c++) { struct cell *x = &M[i][c]; int k = 1 + c; x->nul = vp_bool("null"); char *d = colp(t, R[i], k);
      if (TY == 0) { x->i = vp_i64("v"); memcpy(d, &x->i, 8); } else if (TY == 1) { x->d = vp_f64("v"); vp_assume(x->d == x->d); memcpy(d, &x->d, 8); } else if (TY == 2) { char *s; memcpy(&s, d, 8); vp_bytes(s, 2, "v"); s[2] = 0; memset(x->s, 0, 8); memcpy(x->s, s, 3); }
      else if (TY == 3) { x->i = vp_bool("v"); *d = (char)x->i; } else { x->i = vp_i64("v"); memcpy(d, &x->i, 8); }
      R[i]->null_bitmap[0] |= (char)(x->nul << k); }
    zn[i] = vp_bool("znull"); Z[i] = vp_i64("z"); memcpy(colp(t, R[i], 3), &Z[i], 8); R[i]->null_bitmap[0] |= (char)(zn[i] << 3); }
  (void)cellp; (void)isz;
  static int r1[MAXR], r2[MAXR], r3[MAXR]; char c1[200], c2[200], c3[200];
  if (shape <= 2 || shape == 6) { cond(ex, want, shape == 6 ? 3 : shape, forms); if (shape < 6 && vp_choose("paren", 2)) { char b[300]; sprintf(b, "(%s)", ex); strcpy(ex, b); } }
  else if (shape == 3) { int lo = vp_choose("logic", 3), q0 = vp_choose("qa", 3), q1 = vp_choose("qb", 2); atom(c1, r1, 0, q0); atom(c2, r2, q1 ? 2 : 1, q1 ? vp_choose("qz", 2) : 0); sprintf(ex, "%s %s %s", c1, LG[lo], c2); for (int i = 0; i < n; i++) want[i] = lg(lo, r1[i], r2[i]); }
  else if (shape == 4) { int o1 = vp_choose("logic1", 3), o2 = vp_choose("logic2", 3), par = vp_choose("paren", 3); atom(c1, r1, 0, 1); atom(c2, r2, 1, 0); atom(c3, r3, 2, 0);
    sprintf(ex, par == 1 ? "(%s %s %s) %s %s" : par == 2 ? "%s %s (%s %s %s)" : "%s %s %s %s %s", c1, LG[o1], c2, LG[o2], c3);
    for (int i = 0; i < n; i++) want[i] = par == 2 || (par == 0 && prec(o2) > prec(o1)) ? lg(o1, r1[i], lg(o2, r2[i], r3[i])) : lg(o2, lg(o1, r1[i], r2[i]), r3[i]); }
  else for (int i = 0; i < n; i++) want[i] = 1;
  char w[700]; if (shape == 5) w[0] = 0; else snprintf(w, sizeof w, " WHERE %s", ex);
  int64_t cnt = 0; for (int i = 0; i < n; i++) cnt += vp_ite(want[i], 1, 0);
  static int seen[MAXR]; static struct row *A[MAXR + 4];
  if (ST == 0) {
    size_t aff = vp_ok("DELETE FROM T%s;", w); vp_assert((int64_t)aff == cnt, "the affected-row count is the number of rows that satisfy the condition");
    int m = vp_rows(t, A, MAXR); int last = -1;
    for (int k = 0; k < m; k++) { int id = (int)vp_geti(t, A[k], 0); vp_assert(id > last && id < n, "surviving rows keep their identity and order"); last = id; seen[id] = 1; verify_cells(t, A[k], id, ""); }
    for (int i = 0; i < n; i++) vp_assert(seen[i] == vp_not(want[i]), "a row is deleted exactly when it satisfies the condition");
  } else if (ST == 1) {
    int64_t nv = vpI[60] = vp_i64("new"); size_t aff = vp_ok("UPDATE T SET z = 90000060%s;", w); vp_assert((int64_t)aff == cnt, "the affected-row count is the number of rows that satisfy the condition");
    int m = vp_rows(t, A, MAXR); vp_assert(m == n, "an update neither adds nor removes rows");
    for (int i = 0; i < m; i++) { vp_assert(vp_geti(t, A[i], 0) == i, "rows keep their identity and order"); verify_cells(t, A[i], i, "");
      vp_assert(vp_isnull(t, A[i], 3) == vp_and(zn[i], vp_not(want[i])), "the assigned column is NULL exactly when it was and the row is not updated");
      vp_assert(vp_or(vp_and(vp_not(want[i]), zn[i]), vp_geti(t, A[i], 3) == vp_ite(want[i], nv, Z[i])), "the assigned column changes exactly in the rows that satisfy the condition"); }
  } else {
    struct query_output *o = vp_q("SELECT * FROM T%s;", w); vp_assert(o && o->status == ST_OK_WITH_RESULTS, "a valid SELECT returns results"); struct table *rt = o->results.table; int ci = vp_col(rt, "T.id"); vp_assert(ci >= 0 && rt->column_count == 4 + fill, "the result has every column");
    int m = vp_rows(rt, A, MAXR);
    for (int k = 0; k < m; k++) { int id = (int)vp_geti(rt, A[k], ci); vp_assert(id >= 0 && id < n && !seen[id], "every result row comes from a table row, once"); seen[id] = 1; verify_cells(rt, A[k], id, "T."); int cz = vp_col(rt, "T.z"); vp_assert(vp_isnull(rt, A[k], cz) == zn[id], "a column keeps its NULL mark"); vp_assert(vp_or(zn[id], vp_geti(rt, A[k], cz) == Z[id]), "a column keeps its value"); }
    for (int i = 0; i < n; i++) vp_assert(seen[i] == want[i], "a row is in the result exactly when it satisfies the condition");
    vp_assert(vp_rows(t, A, MAXR) == n, "SELECT leaves the table alone"); for (int i = 0; i < n; i++) verify_cells(t, A[i], i, ""); query_free(o);
  }
  vp_close(); vp_cover("end");
}

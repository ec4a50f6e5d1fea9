/* Arithmetic in INSERT ... VALUES. args: [0] 0 INT, 1 DOUBLE, [1] shape: 0 one operator, 1 two operators flat, 2 (a op b) op c, 3 a op (b op c), 4 unary minus, 5 NOT NULL column, 6 several rows and columns. */
#include "vp_sql.h"
static int ty, nk, conc; static const double DC[8] = {0, 0.5, -1, 3.75, -7.25, 1e300, -9223372036854775808.0, 4294967298.0}; struct v { int nul; int64_t i; double d; };
static const char OPC[5] = {'+', '-', '*', '/', '%'};
static struct v lit(char *o) { struct v x = {0}; if (ty == 0) { x.i = vpI[nk] = vp_i64("operand"); sprintf(o, "9000000%d", nk); } else { x.d = vpD[nk] = conc ? DC[vp_choose("operand", 8)] : vp_f64("operand"); if (!conc) vp_assume(x.d == x.d); sprintf(o, "9000%d.5", nk); } nk++; return x; }
static int64_t clampi(double d) { if (d >= 9223372036854775808.0) return INT64_MAX; if (d < -9223372036854775808.0) return INT64_MIN; return (int64_t)d; }
/* 64-bit two's complement arithmetic; division and modulo by zero give NULL; a NULL operand gives NULL */
static struct v calc(int op, struct v a, struct v b) {
  struct v r = {0}; if (a.nul || b.nul) { r.nul = 1; return r; }
  if (ty == 0) { uint64_t x = a.i, y = b.i; switch (op) { case 0: r.i = x + y; break; case 1: r.i = x - y; break; case 2: r.i = x * y; break;
    case 3: if (b.i == 0) r.nul = 1; else if (b.i == -1) r.i = 0 - x; else r.i = a.i / b.i; break; default: if (b.i == 0) r.nul = 1; else if (b.i == -1) r.i = 0; else r.i = a.i % b.i; } return r; }
  switch (op) { case 0: r.d = a.d + b.d; break; case 1: r.d = a.d - b.d; break; case 2: r.d = a.d * b.d; break; case 3: if (b.d == 0) r.nul = 1; else r.d = a.d / b.d; break;
    default: { int64_t y = clampi(b.d); if (y == 0) r.nul = 1; else if (y == -1) r.d = 0; else r.d = (double)(clampi(a.d) % y); } } return r;
}
static struct v neg(struct v a) { struct v r = a; if (ty == 0) r.i = (int64_t)(0 - (uint64_t)a.i); else r.d = a.d * -1; return r; }
static int hi(int op) { return op >= 2; }
static void same(struct table *t, struct row *r, int c, struct v w) {
  vp_assert(vp_isnull(t, r, c) == w.nul, "the result is NULL exactly after a division or modulo by zero"); if (w.nul) return;
  if (ty == 0) vp_assert(vp_geti(t, r, c) == w.i, "the stored integer is the value of the expression");
  else { double d = vp_getd(t, r, c); uint64_t p, q; memcpy(&p, &d, 8); memcpy(&q, &w.d, 8); if (!vp_and(1, p == q)) vp_assert(vp_or(d == w.d, vp_and(d != d, w.d != w.d)), "the stored double is the value of the expression"); }
}
void vp_main(void) {
  ty = (int)vp_arg(0); int sh = (int)vp_arg(1); char e[200], a[24], b[24], c[24]; struct v w, x, y, z; static struct row *R[8];
  vp_open(); vp_ok("CREATE TABLE T (k INT, r %s, s VARCHAR(4));", ty ? "DOUBLE" : "INT"); vp_ok("CREATE TABLE N (k INT, r %s NOT NULL);", ty ? "DOUBLE" : "INT");
  int o1 = vp_choose("op", 5), o2 = 0; if (sh >= 1 && sh <= 3) o2 = vp_choose("op2", 5); conc = ty && (o1 == 4 || o2 == 4 || sh == 4);
  if (sh == 0) { x = lit(a); y = lit(b); sprintf(e, "%s %c %s", a, OPC[o1], b); w = calc(o1, x, y); }
  else if (sh == 1) { x = lit(a); y = lit(b); z = lit(c); sprintf(e, "%s %c %s %c %s", a, OPC[o1], b, OPC[o2], c); w = hi(o2) && !hi(o1) ? calc(o1, x, calc(o2, y, z)) : calc(o2, calc(o1, x, y), z); }
  else if (sh == 2) { x = lit(a); y = lit(b); z = lit(c); sprintf(e, "(%s %c %s) %c %s", a, OPC[o1], b, OPC[o2], c); w = calc(o2, calc(o1, x, y), z); }
  else if (sh == 3) { x = lit(a); y = lit(b); z = lit(c); sprintf(e, "%s %c (%s %c %s)", a, OPC[o1], b, OPC[o2], c); w = calc(o1, x, calc(o2, y, z)); }
  else if (sh == 4) { int f = vp_choose("minus", 5); x = lit(a); y = lit(b); if (f == 0) { sprintf(e, "- %s", a); w = neg(x); } else if (f == 1) { sprintf(e, "- (%s %c %s)", a, OPC[o1], b); w = neg(calc(o1, x, y)); } else if (f == 2) { sprintf(e, "- %s %c %s", a, OPC[o1], b); w = calc(o1, neg(x), y); } else if (f == 3) { sprintf(e, "%s %c - %s", a, OPC[o1], b); w = calc(o1, x, neg(y)); } else { sprintf(e, "- (- %s) %c %s", a, OPC[o1], b); w = calc(o1, x, y); } }
  else if (sh == 5) { x = lit(a); y = lit(b); sprintf(e, "%s %c %s", a, OPC[o1], b); w = calc(o1, x, y); struct table *t = vp_tbl("N"); struct query_output *q; int two = vp_choose("rows", 2);
    if (w.nul) { vp_err("INSERT INTO N VALUES %s(2, %s);", two ? ty ? "(1, 2.5), " : "(1, 7), " : "", e); vp_assert(vp_rows(t, R, 8) == 0, "a rejected INSERT stores no row"); }
    else { vp_assert(vp_ok("INSERT INTO N VALUES %s(2, %s);", two ? ty ? "(1, 2.5), " : "(1, 7), " : "", e) == (size_t)two + 1, "the affected-row count"); vp_assert(vp_rows(t, R, 8) == two + 1, "every row is stored"); same(t, R[two], 1, w); }
    (void)q; vp_close(); vp_cover("end"); return; }
  else { x = lit(a); y = lit(b); w = calc(o1, x, y); sprintf(e, "%s %c %s", a, OPC[o1], b); z = lit(c); struct v w2 = calc(0, z, z); struct table *t = vp_tbl("T");
    vp_assert(vp_ok("INSERT INTO T (r, s, k) VALUES (%s, 'a', 3 * 4), (%s + %s, NULL, 10 - 2 - 3), (NULL, 'b', 1);", e, c, c) == 3, "the affected-row count"); vp_assert(vp_rows(t, R, 8) == 3, "every row is stored");
    same(t, R[0], 1, w); same(t, R[1], 1, w2); vp_assert(vp_isnull(t, R[2], 1), "NULL stays NULL"); vp_assert(vp_geti(t, R[0], 0) == 12 && vp_geti(t, R[1], 0) == 5 && vp_geti(t, R[2], 0) == 1, "every expression goes to its own column and row"); vp_assert(!strcmp(vp_gets(t, R[0], 2), "a") && vp_isnull(t, R[1], 2) && !strcmp(vp_gets(t, R[2], 2), "b"), "other columns are not affected");
    vp_close(); vp_cover("end"); return; }
  vp_assert(vp_ok("INSERT INTO T VALUES (1, %s, 'ab');", e) == 1, "one row is inserted"); struct table *t = vp_tbl("T"); vp_assert(vp_rows(t, R, 8) == 1, "the row is stored");
  same(t, R[0], 1, w); vp_assert(vp_geti(t, R[0], 0) == 1 && !strcmp(vp_gets(t, R[0], 2), "ab"), "other columns are not affected");
  vp_close(); vp_cover("end");
}

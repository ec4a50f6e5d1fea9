/* Conditions of several operands with parentheses in any place, over one row of arbitrary content. args: [0] statement: 0 SELECT, 1 SELECT with qualified names, 2 DELETE, 3 UPDATE, 4 JOIN ... ON, 5 WHERE of a join; [1] operands (2-6); [2] first operand of the list of operands; [3] 0: no parentheses, 1: parentheses in any place, 2: parentheses around everything, twice; [4] 1: operands in their other spelling */
#include "vp_sql.h"
#include "vp_model.h"
static struct mcell X[4]; static const char *CN[4] = {"a", "b", "d", "s"}; static const int CT[4] = {0, 0, 1, 2}; static int ql, join; static struct row *R[8];
static const char *cn(int c) { static char b[8][12]; static int k; char *p = b[k++ & 7]; if (join) sprintf(p, "%s.%s", c & 1 ? "B" : "A", CN[c]); else sprintf(p, "%s%s", ql ? "T." : "", CN[c]); return p; }
/* one operand of the condition: its text, and another text of the same meaning; its truth value */
static int atom(int k, char *o, char *o2) {
  char l[40], l2[40]; struct mcell c, e;
  switch (k) {
  case 0: mc_lit(l, 0, &c); sprintf(o, "%s > %s", cn(0), l); sprintf(o2, "%s < %s", l, cn(0)); return m_cmp(4, &X[0], &c, 0);
  case 1: mc_lit(l, 2, &c); sprintf(o, "%s = %s", cn(3), l); sprintf(o2, "(%s = %s)", l, cn(3)); return m_cmp(0, &X[3], &c, 2);
  case 2: if (join) { mc_lit(l, 0, &c); sprintf(o, "%s <= %s", cn(1), l); sprintf(o2, "%s >= %s", l, cn(1)); return m_cmp(3, &X[1], &c, 0); } sprintf(o, "%s IS NULL", cn(1)); sprintf(o2, "(%s IS NULL)", cn(1)); return X[1].nul;
  case 3: if (join) { sprintf(o, "%s = %s", cn(0), cn(1)); sprintf(o2, "%s = %s", cn(1), cn(0)); return m_cmp(0, &X[0], &X[1], 0); } mc_lit(l, 0, &c); mc_lit(l2, 0, &e); sprintf(o, "%s IN (%s, %s)", cn(0), l, l2); sprintf(o2, "(%s = %s OR %s = %s)", cn(0), l, cn(0), l2); return vp_or(m_cmp(0, &X[0], &c, 0), m_cmp(0, &X[0], &e, 0));
  case 4: mc_lit(l, 0, &c); sprintf(o, "%s <> %s", l, cn(1)); sprintf(o2, "%s <> %s", cn(1), l); return m_cmp(1, &X[1], &c, 0);
  case 5: mc_lit(l, 1, &c); sprintf(o, "%s <= %s", cn(2), l); sprintf(o2, "((%s >= %s))", l, cn(2)); return m_cmp(3, &X[2], &c, 1);
  case 6: if (join) { mc_lit(l, 2, &c); sprintf(o, "%s <> %s", cn(3), l); sprintf(o2, "%s <> %s", l, cn(3)); return m_cmp(1, &X[3], &c, 2); } sprintf(o, "%s IS NOT NULL", cn(0)); sprintf(o2, "(%s IS NOT NULL)", cn(0)); return vp_not(X[0].nul);
  default: mc_lit(l, 0, &c); mc_lit(l2, 0, &e); if (join) { sprintf(o, "%s >= %s", cn(0), l); sprintf(o2, "%s <= %s", l, cn(0)); return m_cmp(5, &X[0], &c, 0); } sprintf(o, "%s NOT IN (%s, %s)", cn(0), l, l2); sprintf(o2, "(%s <> %s AND %s <> %s)", cn(0), l, cn(0), l2); return vp_and(m_cmp(1, &X[0], &c, 0), m_cmp(1, &X[0], &e, 0));
  }
}
#define OR_ 0
#define XOR_ 1
#define AND_ 2
static const char *ON[3] = {"OR", "XOR", "AND"};
static int n, A[6], O[6]; static char AT[6][120], AT2[6][120];
/* the condition as tokens: 0-5 an operand, 10-12 an operator, 20 and 21 parentheses */
static int tk[60], nt, tp;
static int expr(int lvl) { /* the meaning of the text: AND binds tighter than XOR, XOR tighter than OR */
  int v; if (lvl > AND_) { if (tk[tp] == 20) { tp++; v = expr(OR_); tp++; return v; } return A[tk[tp++]]; }
  v = expr(lvl + 1); while (tp < nt && tk[tp] == 10 + lvl) { tp++; int r = expr(lvl + 1); v = lvl == AND_ ? vp_and(v, r) : lvl == OR_ ? vp_or(v, r) : vp_and(vp_or(v, r), vp_not(vp_and(v, r))); } return v;
}
static void text(char *o, int alt) { for (int i = 0; i < nt; i++) { int t = tk[i]; if (t == 20) *o++ = '('; else if (t == 21) *o++ = ')'; else if (t >= 10) o += sprintf(o, " %s ", ON[t - 10]); else o += sprintf(o, "%s", alt ? AT2[t] : AT[t]); } *o = 0; }
/* operands lo..hi; par: 0 no parentheses, 1 any tree of operands of which every inner expression may be in parentheses, 2 parentheses around everything, twice */
static void gen(int lo, int hi, int par) {
  if (par == 2) { tk[nt++] = 20; if (lo == hi) tk[nt++] = 20; }
  if (lo == hi) tk[nt++] = lo;
  else if (par == 0) for (int i = lo; i <= hi; i++) { tk[nt++] = i; if (i < hi) tk[nt++] = 10 + O[i]; }
  else { int m = lo + vp_choose("split", hi - lo); for (int h = 0; h < 2; h++) { int a = h ? m + 1 : lo, b = h ? hi : m, w = par == 1 && a < b && vp_choose("parenthesis", 2); if (w) tk[nt++] = 20; gen(a, b, par == 1 && a < b && !w ? 0 : par); if (w) tk[nt++] = 21; if (!h) tk[nt++] = 10 + O[m]; } }
  if (par == 2) { tk[nt++] = 21; if (lo == hi) tk[nt++] = 21; }
}
void vp_main(void) {
  int st = (int)vp_arg(0), f = (int)vp_arg(2), alt = (int)vp_arg(4); n = (int)vp_arg(1); ql = st == 1; join = st >= 4; static char w[1500]; vp_open(); mk_fixlen = 0;
  if (join) { vp_ok("CREATE TABLE A (ida INT, a INT, d DOUBLE);"); vp_ok("CREATE TABLE B (idb INT, b INT, s VARCHAR(6));"); vp_ok("INSERT INTO A VALUES (1, 1, 1.5);"); vp_ok("INSERT INTO B VALUES (2, 1, 'ab');"); }
  else { vp_ok("CREATE TABLE T (id INT, a INT, b INT, d DOUBLE, s VARCHAR(6));"); vp_gap("T", "id"); vp_ok("INSERT INTO T VALUES (1, 1, 1, 1.5, 'ab');"); vp_gaps_done("T", "id", 1); }
  for (int c = 0; c < 4; c++) { struct table *t = vp_tbl(join ? c & 1 ? "B" : "A" : "T"); vp_assert(vp_rows(t, R, 8) == 1, "every inserted row is stored"); mc_poke(t, R[0], vp_col(t, CN[c]), CT[c], &X[c]); }
  mk_reset(); for (int i = 0; i < n; i++) A[i] = atom((f + i) % 8, AT[i], AT2[i]); for (int i = 0; i + 1 < n; i++) O[i] = vp_choose("operator", 3);
  nt = 0; gen(0, n - 1, (int)vp_arg(3)); tp = 0; int want = expr(OR_); vp_assert(tp == nt, "the condition is read to its end"); text(w, alt); int got; static const char *M = "a condition of several operands selects a row exactly when it is true of it";
  struct table *t = vp_tbl("T"); struct query_output *o;
  if (st == 2) { got = (int)vp_ok("DELETE FROM T WHERE %s;", w); vp_assert(got == want, M); vp_assert(vp_rows(t, R, 8) == !want, "a selected row is deleted, another is kept"); }
  else if (st == 3) { got = (int)vp_ok("UPDATE T SET id = 5 WHERE %s;", w); vp_assert(got == want, M); vp_assert(vp_rows(t, R, 8) == 1 && vp_geti(t, R[0], 0) == vp_ite(want, 5, 1), "a selected row is updated, another is not"); }
  else {
    o = st < 2 ? vp_q("SELECT %sid FROM T WHERE %s;", ql ? "T." : "", w) : st == 4 ? vp_q("SELECT ida, idb FROM A JOIN B ON %s;", w) : vp_q("SELECT ida, idb FROM A, B WHERE %s;", w);
    vp_assert(o && o->status == ST_OK_WITH_RESULTS, "a valid SELECT returns results"); got = vp_rows(o->results.table, R, 8); vp_assert(got == want, M); query_free(o);
  }
  if (got) vp_cover("selected"); else vp_cover("not selected");
  vp_close(); vp_cover("end");
}

/* Dates and datetimes in conditions: stored values of any day or second of the years 1000 to 9999 against literals of any year and against each other,
 * several literals in one statement, after other statements that parsed dates. args: [0] statement (0 DELETE, 1 UPDATE, 2 SELECT, 3 SELECT of a join), [1] form */
#include "vp_sql.h"
#include "vp_model.h"
#include <stdio.h>
#include <time.h>
#include <string.h>
static char L[4][32]; static int64_t V[4]; static int nl;
/* a literal: kind 0 DATE, 1 DATETIME; # is any digit, ^ 1 to 9, ~ 0 to 5, @ 0 to 2 */
static const char *lit(int kind, const char *f) {
  char *s = L[nl]; int n = 0; s[n++] = '\''; for (; *f; f++) if (*f == '#' || *f == '^' || *f == '~' || *f == '@') { vp_bytes(s + n, 1, "digit"); vp_assume(vp_and(s[n] >= (*f == '^' ? '1' : '0'), s[n] <= (*f == '~' ? '5' : *f == '@' ? '2' : '9'))); n++; } else s[n++] = *f; s[n] = 0;
  struct tm tm; memset(&tm, 0, sizeof tm); char *e = strptime(s + 1, kind ? "%Y-%m-%d %H:%M:%S" : "%Y-%m-%d", &tm); vp_assert(e != NULL, "the reference reads a valid date"); V[nl] = (int64_t)timegm(&tm); vp_assume(V[nl] != -1); s[n] = '\''; s[n + 1] = 0; return L[nl++];
}
static int64_t day(const char *n) { int64_t v = vp_i64(n); vp_assume(vp_and(v >= -354285, v <= 2932896)); return v * 86400; }
static int64_t sec(const char *n) { int64_t v = vp_i64(n); vp_assume(vp_and(v >= -354285 * 86400LL, v < 2932897 * 86400LL)); return v; }
static int cmp(int op, int64_t a, int64_t b) { switch (op) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; } }
static const char *OP[6] = {"=", "<>", "<", "<=", ">", ">="};
static char cond[400]; static int truth;
static void form(int f, int64_t d, int64_t e, int64_t g) {
  int op = vp_choose("op", f == 8 || f == 9 ? 1 : 6), o2 = f >= 4 && f <= 6 ? vp_choose("op2", 6) : 0; const char *a, *b;
  switch (f) {
  case 0: a = lit(0, "^792-05-2#"); sprintf(cond, "d %s %s", OP[op], a); truth = cmp(op, d, V[0]); break;
  case 1: a = lit(0, "^999-1@-01"); sprintf(cond, "%s %s d", a, OP[op]); truth = cmp(op, V[0], d); break;
  case 2: a = lit(1, "1#70-03-04 0#:50:59"); sprintf(cond, "e %s %s", OP[op], a); truth = cmp(op, e, V[0]); break;
  case 3: a = lit(1, "2#08-12-31 20:00:~7"); sprintf(cond, "%s %s e", a, OP[op]); truth = cmp(op, V[0], e); break;
  case 4: a = lit(1, "2041-03-04 13:3#:19"); b = lit(0, "^985-01-08"); sprintf(cond, "e %s %s AND d %s %s", OP[op], a, OP[o2], b); truth = vp_and(cmp(op, e, V[0]), cmp(o2, d, V[1])); break;
  case 5: a = lit(0, "1930-10-1#"); b = lit(1, "1#80-02-03 12:00:01"); sprintf(cond, "d %s %s OR %s %s e", OP[op], a, b, OP[o2]); truth = vp_or(cmp(op, d, V[0]), cmp(o2, V[1], e)); break;
  case 6: a = lit(1, "2000-02-29 00:0#:~9"); b = lit(0, "2000-02-2#"); sprintf(cond, "%s %s e OR d %s %s", a, OP[op], OP[o2], b); truth = vp_or(cmp(op, V[0], e), cmp(o2, d, V[1])); break;
  case 7: sprintf(cond, "d %s g", OP[op]); truth = cmp(op, d, g); break;
  case 8: { int no = vp_choose("not", 2); a = lit(0, "1#61-07-08"); b = lit(0, "2061-07-0^"); sprintf(cond, "d %s (%s, %s)", no ? "NOT IN" : "IN", a, b); truth = vp_or(d == V[0], d == V[1]); if (no) truth = vp_not(truth); break; }
  default: { int no = vp_choose("not", 2); a = lit(1, "1861-07-08 01:~2:03"); b = lit(1, "1971-07-09 1#:00:00"); sprintf(cond, "e %s (%s, %s)", no ? "NOT IN" : "IN", a, b); truth = vp_or(e == V[0], e == V[1]); if (no) truth = vp_not(truth); } }
}
void vp_main(void) {
  int st = (int)vp_arg(0), f = (int)vp_arg(1); vp_open(); vp_nobind = 1; vp_ok("CREATE TABLE T (id INT, d DATE, e DATETIME, g DATE, z INT);"); vp_ok("CREATE TABLE U (a INT);"); vp_ok("INSERT INTO U VALUES (1);");
  vp_ok("INSERT INTO T VALUES (1, '2001-02-03', '2001-02-03 21:22:23', '2004-05-06', 5);"); struct table *t = vp_tbl("T"); struct row *R[4]; vp_assert(vp_rows(t, R, 4) == 1, "one row is stored");
  /* other statements that read dates and datetimes came before */
  { vp_ok("DELETE FROM T WHERE e = '1977-08-19 18:47:33' AND d = '1977-08-20';"); vp_ok("UPDATE T SET z = 5 WHERE e = '1977-08-19 18:47:33' OR d <> '1912-12-30';"); struct query_output *q = vp_q("SELECT id FROM T WHERE e <> '1977-08-19 18:47:33';"); vp_assert(q->status == ST_OK_WITH_RESULTS, "dates can be compared"); query_free(q); }
  int64_t d = day("d"), e = sec("e"), g = day("g"); memcpy(R[0]->data + 8, &d, 8); memcpy(R[0]->data + 16, &e, 8); memcpy(R[0]->data + 24, &g, 8);
  form(f, d, e, g); const char *S[4] = {"DELETE FROM T WHERE %s;", "UPDATE T SET z = 9 WHERE %s;", "SELECT id FROM T WHERE %s;", "SELECT T.id FROM T JOIN U ON T.id = U.a AND %s;"}; char q[600]; sprintf(q, S[st], cond);
  struct query_output *o = vp_q("%s", q); vp_assert(o && o->status != ST_ERROR, "dates can be compared"); vp_cover("accepted"); int n = vp_rows(t, R, 4);
  if (st == 0) { vp_assert(vp_ite(truth, n == 0, n == 1), "DELETE compares dates chronologically"); vp_assert(o->n_rows_aff == (size_t)(1 - n), "DELETE counts the rows it removed"); }
  else if (st == 1) { vp_assert(n == 1 && vp_geti(t, R[0], 4) == (vp_concretize(truth) ? 9 : 5), "UPDATE compares dates chronologically"); }
  else { vp_assert(n == 1, "SELECT leaves the rows where they are"); int m = vp_rows(o->results.table, R, 4); vp_assert(vp_ite(truth, m == 1, m == 0), "SELECT compares dates chronologically"); }
  query_free(o); if (n == 1) { vp_rows(t, R, 4); vp_assert(vp_geti(t, R[0], 1) == d && vp_geti(t, R[0], 2) == e && vp_geti(t, R[0], 3) == g, "comparing leaves the dates as they are"); }
  vp_close(); vp_cover("end");
}

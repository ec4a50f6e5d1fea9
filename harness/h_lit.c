/* Literals mean what they say, wherever they stand. args: [0] kind: 0 integers, 1 strings, 2 long strings, 3 floats, 4 fixed words, 5 dates, 6 datetimes; [1] parameter (plan.py); [2] first context, [3] number of contexts. */
#include "vp_sql.h"
#include "vp_snap.h"
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
static char L[9000]; static int ln; static void lc(char c) { L[ln++] = c; } static void ls(const char *s) { while (*s) lc(*s++); }
static int ty, valid = 1; static int64_t ri; static double rd; static char rs[4200]; static int rn; /* what the literal stands for */
static int is_ref(struct table *t, struct row *r, int col) { if (vp_isnull(t, r, col)) return 0; if (ty == 1) { double d = vp_getd(t, r, col); uint64_t a, b; memcpy(&a, &d, 8); memcpy(&b, &rd, 8); return a == b; } if (ty == 2) { char *s = vp_gets(t, r, col); int e = 1; for (int i = 0; i <= rn; i++) e = vp_and(e, s[i] == rs[i]); return e; } return vp_geti(t, r, col) == ri; }
static char x_s[4200]; static int64_t x_i; static double x_d; /* the stored value */
static int cmp(int op) { /* stored op literal; op: 0 =, 1 <>, 2 <, 3 >= */ if (ty == 1) return op == 0 ? x_d == rd : op == 1 ? x_d != rd : op == 2 ? x_d < rd : x_d >= rd; if (ty == 2) { int e = 1, live = 1; for (int i = 0; i <= rn; i++) { e = vp_and(e, vp_or(vp_not(live), x_s[i] == rs[i])); live = vp_and(live, x_s[i] != 0); } return op == 0 ? e : vp_not(e); } return op == 0 ? x_i == ri : op == 1 ? x_i != ri : op == 2 ? x_i < ri : x_i >= ri; }
static const char *Q[12] = {"INSERT INTO T VALUES (2, @, 6);", "INSERT INTO T (c) VALUES (@), (NULL), (@);", "UPDATE T SET c = @;", "UPDATE T SET z = 7, c = @ WHERE id = 1;", "DELETE FROM T WHERE c = @;", "SELECT id FROM T WHERE @ = c;", "DELETE FROM T WHERE c IN (NULL, @);", "SELECT * FROM T WHERE T.c <> @ AND id = 1;", "UPDATE T SET z = 9 WHERE c NOT IN (@);", "UPDATE T SET z = 9 WHERE c < @;", "DELETE FROM T WHERE @ <= c;", "SELECT T.c FROM T JOIN U ON U.a = T.id AND T.c = @;"};
static void context(void) {
  static const char *TN[6] = {"INT", "DOUBLE", "VARCHAR(4100)", "TINYINT", "DATE", "DATETIME"}; vp_nobind = 1; vp_ok("CREATE TABLE T (id INT, c %s, z INT);", TN[ty]); vp_ok("CREATE TABLE U (a INT);"); vp_ok("INSERT INTO U VALUES (1);");
  int f = (int)vp_arg(2) + vp_choose("context", (int)vp_arg(3)); if ((ty == 2 || ty == 3) && (f == 9 || f == 10)) { vp_cover("accepted"); vp_cover("end"); vp_done(); }
  /* the stored row: arbitrary content */
  if (ty == 2) { memset(x_s, 'y', rn + 1); x_s[rn + 1] = 0; vp_ok("INSERT INTO T VALUES (1, '%s', 5);", x_s); } else vp_ok("INSERT INTO T VALUES (1, %s, 5);", ty == 0 ? "77" : ty == 1 ? "7.5" : ty == 3 ? "TRUE" : ty == 4 ? "'2001-02-03'" : "'2001-02-03 04:05:06'");
  struct table *t = vp_tbl("T"); struct row *R[6]; int id = vp_col(t, "id"), c = vp_col(t, "c"), z = vp_col(t, "z"); vp_assert(vp_rows(t, R, 6) == 1, "one row is stored"); char *d = R[0]->data + 8;
  if (f >= 4) { if (ty == 0 || ty >= 4) { x_i = vp_i64("stored"); if (ty == 4) { vp_assume(vp_and(x_i >= -354285, x_i <= 2932896)); x_i *= 86400; } else if (ty == 5) vp_assume(vp_and(x_i >= -354285 * 86400LL, x_i < 2932897 * 86400LL)); memcpy(d, &x_i, 8); } else if (ty == 1) { x_d = vp_f64("stored"); vp_assume(x_d == x_d); memcpy(d, &x_d, 8); } else if (ty == 3) { x_i = vp_bool("stored"); *d = (char)x_i; } else { char *s; memcpy(&s, d, 8); int k = rn < 3 ? rn + 1 : 4; vp_bytes(s + rn + 1 - k, k, "stored"); memcpy(x_s, s, rn + 2); } }
  char *o = vp_stmt; for (const char *q = Q[f]; *q; q++) if (*q == '@') { memcpy(o, L, ln); o += ln; } else *o++ = *q; *o = 0;
  if (!valid) { rejected(t, vp_tbl("U"), "a literal that cannot be represented is rejected"); return; }
  struct query_output *q = vp_q("%s", vp_stmt); vp_assert(q && q->status != ST_ERROR, "a statement with a literal of the column's type is accepted"); int n = vp_rows(t, R, 6); vp_cover("accepted");
  switch (f) {
  case 0: vp_assert(n == 2 && q->n_rows_aff == 1 && vp_geti(t, R[1], id) == 2 && vp_geti(t, R[1], z) == 6 && is_ref(t, R[1], c), "INSERT stores the literal's value"); break;
  case 1: vp_assert(n == 4 && is_ref(t, R[1], c) && vp_isnull(t, R[2], c) && is_ref(t, R[3], c) && vp_isnull(t, R[1], id), "INSERT stores the literal's value"); break;
  case 2: case 3: vp_assert(n == 1 && q->n_rows_aff == 1 && is_ref(t, R[0], c) && vp_geti(t, R[0], z) == (f == 3 ? 7 : 5) && vp_geti(t, R[0], id) == 1, "UPDATE stores the literal's value"); break;
  case 4: case 6: vp_assert(vp_ite(cmp(0), n == 0, n == 1), "a comparison in DELETE uses the literal's value"); break;
  case 10: vp_assert(vp_ite(cmp(3), n == 0, n == 1), "a comparison in DELETE uses the literal's value"); break;
  case 8: vp_assert(n == 1 && vp_geti(t, R[0], z) == (vp_concretize(cmp(1)) ? 9 : 5), "a comparison in UPDATE uses the literal's value"); break;
  case 9: vp_assert(n == 1 && vp_geti(t, R[0], z) == (vp_concretize(cmp(2)) ? 9 : 5), "a comparison in UPDATE uses the literal's value"); break;
  default: { vp_assert(n == 1 && q->status == ST_OK_WITH_RESULTS, "a SELECT returns results"); int m = vp_rows(q->results.table, R, 6); vp_assert(vp_ite(cmp(f == 7), m == 1, m == 0), "a comparison in SELECT uses the literal's value"); } }
  query_free(q);
}
/* integers of [1] digits; from 10 digits on only the first and the last two are arbitrary, with 19 digits or more the first ones are those of the largest integer */
static void ints(void) {
  int n = (int)vp_arg(1), neg = vp_choose("negative", 2), k = n > 18 ? 4 : n, over = 0; ty = 0; uint64_t v = 0; static const char *MAX = "922337203685477580"; char dig[32];
  if (n > 18) { int z = n - 19; for (int i = 0; i < z; i++) dig[i] = vp_choose("lead", 2) ? '1' : '0'; memcpy(dig + z, MAX, 15); vp_bytes(dig + n - 4, 4, "digits"); } else if (n > 9) { for (int i = 0; i < n; i++) dig[i] = (char)('0' + (i * 7 + 3) % 10); vp_bytes(dig, 2, "digits"); vp_bytes(dig + n - 2, 2, "digits"); k = n; } else vp_bytes(dig, n, "digits");
  for (int i = n - k; i < n; i++) vp_assume(vp_and(dig[i] >= '0', dig[i] <= '9'));
  if (neg) lc('-'); for (int i = 0; i < n; i++) { lc(dig[i]); v = v * 10 + (uint64_t)(dig[i] - '0'); }
  if (n > 18) { /* compare with 922337203685477 5807 / 5808, digit by digit */ const char *last = neg ? "5808" : "5807"; int gt = 0, eq = 1; for (int i = 0; i < 4; i++) { gt = vp_or(gt, vp_and(eq, dig[n - 4 + i] > last[i])); eq = vp_and(eq, dig[n - 4 + i] == last[i]); } over = (int)vp_concretize(gt); for (int i = 0; i < n - 19; i++) if (dig[i] == '1') over = 1; }
  valid = !over; ri = neg ? (int64_t)(0 - v) : (int64_t)v; context();
}
/* strings of up to [1] arbitrary characters */
static void content(int k) { char q = vp_choose("quote", 2) ? '"' : '\''; vp_bytes(rs + rn, k, "content"); lc(q); for (int i = 0; i < rn; i++) lc(rs[i]); int e = rn + k; for (int i = rn; i < e; i++) { char c = rs[i]; vp_assume(vp_and(vp_and(c != 0, c != '\\'), c != '\n')); if (vp_concretize(c == q)) { lc(q); lc(q); rs[i] = q; } else lc(c); } rn = e; lc(q); ty = 2; }
static void strings(void) { content((int)vp_arg(1)); context(); }
static void longstr(void) { rn = (int)vp_arg(1); for (int i = 0; i < rn; i++) rs[i] = (char)('a' + i % 26); content(1); context(); }
/* floats: # stands for any digit */
static void floats(void) {
  static const char *F[12] = {"#.#", "-#.#", ".##", "#.", "#E#", "-#.#e-#", "1.#E+30#", "12345678.#", "0.1000000000000000#", "-.#", "1797693134862315#e292", "4.#e-324"};
  const char *f = F[vp_arg(1)]; ty = 1; for (; *f; f++) if (*f == '#') { char c = '0'; vp_bytes(&c, 1, "digit"); vp_assume(vp_and(c >= '0', c <= '9')); lc((char)vp_concretize((unsigned char)c)); } else lc(*f); L[ln] = 0;
  rd = strtod(L, NULL); valid = !(rd - rd != 0); context();
}
static void words(void) { static const char *W[4] = {"TRUE", "FALSE", "true", "False"}; int w = vp_choose("word", 4); ls(W[w]); ty = 3; ri = !(w & 1); context(); }
/* dates: # stands for any digit; [1] form */
static int two(const char *s) { return (s[0] - '0') * 10 + (s[1] - '0'); }
static void dates(int dt) {
  static const char *F[2][4] = {{"20##-##-##", "####-02-##", "1###-0#-3#", "2024-1#-##@"}, {"2024-02-## ##:##:##", "2##0-##-31 23:59:5#", "####-0#-01 0#:00:00", "2001-01-01 0#:0#:##@"}};
  ty = dt ? 5 : 4; const char *f = F[dt][vp_arg(1)]; int extra = 0; lc('\''); for (; *f; f++) if (*f == '#') { vp_bytes(L + ln, 1, "digit"); vp_assume(vp_and(L[ln] >= '0', L[ln] <= '9')); ln++; } else if (*f == '@') { vp_bytes(L + ln, 1, "extra"); char c = L[ln]; vp_assume(vp_and(vp_and(c != 0, c != '\''), vp_and(c != '\\', c != '\n'))); ln++; extra = 1; } else lc(*f); L[ln] = 0;
  const char *s = L + 1; int y = two(s) * 100 + two(s + 2), m = two(s + 5), d = two(s + 8), lp = vp_and(y % 4 == 0, vp_or(y % 100 != 0, y % 400 == 0));
  int dim = (int)vp_ite(m == 2, 28 + lp, vp_ite(vp_or(vp_or(m == 4, m == 6), vp_or(m == 9, m == 11)), 30, 31)); valid = vp_and(vp_and(m >= 1, m <= 12), vp_and(d >= 1, d <= dim)); if (dt) { valid = vp_and(valid, vp_and(two(s + 11) <= 23, two(s + 14) <= 59)); vp_assume(two(s + 17) <= 59); }
  if (extra) valid = 0; valid = (int)vp_concretize(valid); if (valid) { struct tm tm; memset(&tm, 0, sizeof tm); char *e = strptime(s, dt ? "%Y-%m-%d %H:%M:%S" : "%Y-%m-%d", &tm); vp_assert(e != NULL, "the reference reads a valid date"); ri = (int64_t)timegm(&tm); vp_assume(ri != -1); }
  lc('\''); context();
}
void vp_main(void) { vp_open(); switch (vp_arg(0)) { case 0: ints(); break; case 1: strings(); break; case 2: longstr(); break; case 3: floats(); break; case 4: words(); break; default: dates(vp_arg(0) == 6); } vp_close(); vp_cover("end"); }

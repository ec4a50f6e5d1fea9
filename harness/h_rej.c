/* Which statements are accepted: constraints, value types, names. args: [0] mode, then per mode (see plan.py). */
#include "vp_sql.h"
#include "vp_model.h"
#include "vp_snap.h"
#include <stdio.h>
static const char *TN[6] = {"INT", "DOUBLE", "VARCHAR(6)", "TINYINT", "DATE", "DATETIME"};
static char *P; static void put(const char *s) { P += sprintf(P, "%s", s); }
/* mode 0: NOT NULL columns a, b of type [1] */
static void notnull(void) {
  int ty = (int)vp_arg(1), na = vp_choose("a_not_null", 2), nb = vp_choose("b_not_null", 2); vp_ok("CREATE TABLE T (id INT NOT NULL, a %s%s, b %s%s);", TN[ty], na ? " NOT NULL" : "", TN[ty], nb ? " NOT NULL" : "");
  struct table *t = vp_tbl("T"); struct mcell c; char l[5][40]; mk_reset(); mk_fixlen = 1; for (int i = 0; i < 2; i++) mc_lit(l[i], ty, &c);
  vp_ok("INSERT INTO T VALUES (1, %s, %s);", l[0], l[1]); mk_reset(); P = vp_stmt; int valid = 1;
  if (vp_arg(2) == 0) { /* INSERT: the column list (0: none), which values are NULL, in which of two rows */
    static const char *CL[6] = {"", " (id, a, b)", " (b, a, id)", " (id, a)", " (b, id)", " (a, b)"}; static const int CO[6][3] = {{0, 1, 2}, {0, 1, 2}, {2, 1, 0}, {0, 1, -1}, {2, 0, -1}, {1, 2, -1}};
    int cl = vp_choose("list", 6), rows = 1 + vp_choose("rows", 2), nn[3] = {1, na, nb}, has[3] = {0, 0, 0}; put("INSERT INTO T"); put(CL[cl]); put(" VALUES ");
    int nrow = vp_choose("null_row", rows), np = vp_choose("null_place", 4);
    for (int r = 0; r < rows; r++) { put(r ? ", (" : "("); for (int k = 0; k < 3 && CO[cl][k] >= 0; k++) { int col = CO[cl][k]; has[col] = 1; if (k) put(", "); if (r == nrow && k == np) { put("NULL"); if (nn[col]) valid = 0; } else if (col == 0) put("7"); else { mc_lit(l[0], ty, &c); put(l[0]); } } put(")"); }
    for (int i = 0; i < 3; i++) if (!has[i] && nn[i]) valid = 0;
  } else { /* UPDATE of a and b, either order, one or both */
    int k = 1 + vp_choose("assignments", 2), st = vp_choose("first", 2), nl = vp_choose("null", 3), w = vp_choose("where", 3); put("UPDATE T SET ");
    for (int j = 0; j < k; j++) { int col = (st + j) % 2; if (j) put(", "); put(col ? "b = " : "a = "); if (nl == j) { put("NULL"); if (col ? nb : na) valid = 0; } else { mc_lit(l[0], ty, &c); put(l[0]); } }
    put(w == 0 ? "" : w == 1 ? " WHERE id = 1" : " WHERE id > 1");
  }
  put(";"); verdict(valid, t, NULL, "a statement that respects the NOT NULL columns is accepted", "a statement that puts NULL into a NOT NULL column is rejected");
}
/* mode 1: VARCHAR([1]) and a string of any length up to the limit and beyond */
static void varlen(void) {
  int k = (int)vp_arg(1), base = (int)vp_arg(2), n = base ? 4 : k + 2; vp_ok("CREATE TABLE T (id INT, a VARCHAR(%d), b VARCHAR(60));", k); vp_ok("INSERT INTO T VALUES (1, '%s', 'x');", k > 1 ? "y" : ""); struct table *t = vp_tbl("T");
  memset(vpS[0], 0, 64); vp_bytes(vpS[0], n, "str"); vpS_on[0] = 1; int len = 0; while (vpS[0][len]) len++; int valid = base + len + 1 <= k; P = vp_stmt;
  if (base) { /* [2] characters, and up to four arbitrary ones */ char s[8]; memcpy(s, vpS[0], len + 1); for (int i = 0; i < len; i++) vp_assume(vp_and(s[i] != '\'', vp_and(s[i] != '\\', s[i] != '\n'))); vpS_on[0] = 0; vp_nobind = 1; static const char *F[4] = {"INSERT INTO T VALUES (2, '@', 'z');", "INSERT INTO T (b, a) VALUES ('z', 'y'), ('z', '@');", "UPDATE T SET a = '@';", "UPDATE T SET b = '', a = '@' WHERE id = 1;"}; for (const char *f = F[vp_choose("statement", 4)]; *f; f++) if (*f == '@') { memset(P, 'm', base); P += base; put(s); } else *P++ = *f; *P = 0; }
  else switch (vp_choose("statement", 6)) {
  case 0: put("INSERT INTO T VALUES (2, 'vps0', 'z');"); break;
  case 1: put("INSERT INTO T (b, a) VALUES ('longer than the other', 'vps0');"); break;
  case 2: put("INSERT INTO T VALUES (2, '', 'z'), (3, 'vps0', 'z');"); break;
  case 3: put("UPDATE T SET a = 'vps0';"); break;
  case 4: put("UPDATE T SET b = 'longer than the other', a = 'vps0' WHERE id = 1;"); break;
  default: put("INSERT INTO T (a) VALUES ('vps0');"); }
  verdict(valid, t, NULL, "a string that fits the column is accepted", "a string that does not fit the column is rejected");
}
/* mode 2: type of column [1] against every kind of literal, in every kind of statement */
static void types(void) {
  int ty = (int)vp_arg(1); vp_ok("CREATE TABLE T (id INT, c %s, z INT);", ty == 2 ? "VARCHAR(30)" : TN[ty]); vp_ok("INSERT INTO T VALUES (1, NULL, 5), (2, NULL, NULL);"); struct table *t = vp_tbl("T");
  int lk = vp_choose("literal", 7); char l[40]; if (lk == 0) { vpI[0] = vp_i64("int"); strcpy(l, "90000000"); } else if (lk == 1) strcpy(l, "2.5"); else if (lk == 2) { vp_bytes(vpS[0], 2, "str"); vp_assume(vp_and(vp_and(vpS[0][0] >= 'a', vpS[0][0] <= 'z'), vpS[0][1] >= 'a')); vpS_on[0] = 1; strcpy(l, "'vps0'"); } else strcpy(l, lk == 3 ? "TRUE" : lk == 4 ? "NULL" : lk == 5 ? "'2001-02-03'" : "'2001-02-03 04:05:06'");
  /* a column holds a literal when its kind is the column's; a datetime text for a DATE column is left open */
  int fits = lk == 4 || (ty == 0 && lk == 0) || (ty == 1 && lk == 1) || (ty == 2 && (lk == 2 || lk > 4)) || (ty == 3 && lk == 3) || (ty == 4 && lk == 5) || (ty == 5 && lk == 6); if (ty == 4 && lk == 6) { vp_cover("accepted"); return; }
  int st = vp_choose("statement", 10), op = vp_choose("op", 6); P = vp_stmt; int cmpok = fits && (op < 2 || (lk != 4 && ty != 2));
  if (st <= 2 && op) return; 
  switch (st) {
  case 0: sprintf(P, "INSERT INTO T VALUES (3, %s, 6);", l); break;
  case 1: sprintf(P, "INSERT INTO T (z, c) VALUES (6, NULL), (7, %s);", l); break;
  case 2: sprintf(P, "UPDATE T SET z = 8, c = %s WHERE id = 1;", l); break;
  case 3: sprintf(P, "DELETE FROM T WHERE c %s %s;", M_OP[op], l); fits = cmpok; break;
  case 4: sprintf(P, "UPDATE T SET z = 9 WHERE %s %s c;", l, M_OP[op]); fits = cmpok; break;
  case 5: sprintf(P, "SELECT * FROM T WHERE c %s %s;", M_OP[op], l); fits = cmpok; break;
  case 6: sprintf(P, "SELECT id FROM T WHERE id = 1 OR %s %s T.c;", l, M_OP[op]); fits = cmpok; break;
  case 7: sprintf(P, "DELETE FROM T WHERE c %s (NULL, %s);", op & 1 ? "NOT IN" : "IN", l); break;
  case 8: sprintf(P, "UPDATE T SET z = 9 WHERE c %s (%s);", op & 1 ? "NOT IN" : "IN", l); break;
  default: sprintf(P, "SELECT * FROM T WHERE c %s (%s, NULL);", op & 1 ? "NOT IN" : "IN", l); }
  verdict(fits, t, NULL, "a literal of the column's type is accepted", "a literal that is not of the column's type, or an operator the type does not have, is rejected");
}
/* mode 3: a quoted name of [1] arbitrary bytes in every place a name can be; tables A, Ab, B2, columns x, xy, z_1 */
static const char *TB[3] = {"A", "Ab", "B2"}, *CB[3] = {"x", "xy", "z_1"};
static int known(const char *h, int k, const char **set) { int r = 0; for (int i = 0; i < 3; i++) if ((int)strlen(set[i]) == k) { int e = 1; for (int j = 0; j < k; j++) e = vp_and(e, h[j] == set[i][j]); r = vp_or(r, e); } return r; }
static void names(void) {
  int k = (int)vp_arg(1); for (int i = 0; i < 3; i++) vp_ok("CREATE TABLE %s (x INT, xy INT, z_1 INT);", TB[i]); vp_ok("INSERT INTO A VALUES (1, 2, 3);"); vp_ok("INSERT INTO Ab VALUES (1, 2, 3);");
  static const char *TS[6] = {"INSERT INTO `@` VALUES (4, 5, 6);", "SELECT x FROM `@`;", "DELETE FROM `@` WHERE x = 1;", "UPDATE `@` SET x = 3;", "SELECT * FROM A JOIN `@` q ON A.x = q.x;", "SELECT `@`.x FROM A, Ab, B2;"};
  static const char *CS[13] = {"INSERT INTO A (`@`) VALUES (4);", "SELECT `@` FROM A;", "SELECT A.`@` FROM A;", "DELETE FROM A WHERE `@` = 1;", "DELETE FROM A WHERE `@` IN (1);", "UPDATE A SET `@` = 3;", "UPDATE A SET x = 3 WHERE `@` IS NULL;", "SELECT * FROM A WHERE A.`@` > 0;", "SELECT * FROM A WHERE `@` IS NOT NULL;", "SELECT `@`, COUNT(*) FROM A GROUP BY `@`;", "SELECT COUNT(`@`) FROM A;", "SELECT A.x FROM A JOIN B2 ON A.`@` = B2.x;", "DELETE FROM A WHERE x = `@`;"};
  int f = vp_choose("form", 19); const char *s = f < 6 ? TS[f] : CS[f - 6]; char h[8]; vp_bytes(h, k, "name"); for (int i = 0; i < k; i++) vp_assume(vp_and(h[i] != 0, h[i] != '`'));
  P = vp_stmt; for (; *s; s++) if (*s == '@') { memcpy(P, h, k); P += k; } else *P++ = *s; *P = 0;
  int valid = known(h, k, f < 6 ? TB : CB);
  if (valid) { if (f == 4 && k == 1) return; /* A joined with itself: not supported */ accepted("a statement whose names exist is accepted"); } else rejected(vp_tbl("A"), vp_tbl("Ab"), "a statement with a name that does not exist is rejected");
}
/* mode 4: number of values, duplicate columns, and one bad row among good ones */
static void counts(void) {
  vp_ok("CREATE TABLE T (a INT NOT NULL, b VARCHAR(3), c DOUBLE);"); vp_ok("INSERT INTO T VALUES (1, 'x', 1.5);"); struct table *t = vp_tbl("T"); P = vp_stmt; int valid = 1;
  static const char *L[8] = {"", " (a, b, c)", " (c, a)", " (a)", " (a, b, a)", " (b, c)", " (a, zz)", " (c, b, a)"}; static const char *LC[8] = {"abc", "abc", "ca", "a", "aba", "bc", "az", "cba"};
  int l = vp_choose("list", 8), rows = 1 + vp_choose("rows", 3), bad = vp_choose("bad_row", rows), how = vp_choose("how", 6), n = (int)strlen(LC[l]); if (l == 4 || l == 5 || l == 6) valid = 0; put("INSERT INTO T"); put(L[l]); put(" VALUES ");
  for (int r = 0; r < rows; r++) { put(r ? ", (" : "("); int m = n + (r == bad ? (how == 1 ? 1 : how == 2 ? -1 : 0) : 0); if (m != n) valid = 0; if (m == 0) { m = 1; put("("); }
    for (int k = 0; k < m; k++) { char c = k < n ? LC[l][k] : 'a'; if (k) put(", "); if (r == bad && how == 3 && c == 'a') { put("'1'"); valid = 0; } else if (r == bad && how == 4 && c == 'b') { put("'xyz'"); valid = 0; } else if (r == bad && how == 5 && c == 'c') { put("1"); valid = 0; } else if (c == 'b') { vp_bytes(vpS[0], 2, "s"); vpS[0][2] = 0; vpS_on[0] = 1; put("'vps0'"); } else if (c == 'c') { put("90000.5"); } else { vpI[0] = vp_i64("i"); put("90000000"); } } put(")"); }
  put(";"); vpD[0] = 2.25; verdict(valid, t, NULL, "an INSERT whose rows all fit is accepted", "an INSERT with a row or column list that does not fit is rejected as a whole");
}
/* mode 5: column references in joins */
static void refs(void) {
  vp_ok("CREATE TABLE A (id INT, x INT, k INT);"); vp_ok("CREATE TABLE B (id INT, y INT, k INT);"); vp_ok("CREATE TABLE C (w INT);"); vp_ok("INSERT INTO A VALUES (1, 2, 3);"); vp_ok("INSERT INTO B VALUES (1, 2, 3);"); vp_ok("INSERT INTO C VALUES (1);");
  static const char *Q[7] = {"", "A.", "B.", "C.", "p.", "q.", "D."}, *N[6] = {"id", "x", "k", "y", "w", "zz"}; static const char *F[6] = {"A", "A, B", "A JOIN B ON A.id = B.id", "A p", "A p, B q", "A p JOIN B ON p.k = B.k"};
  int q = vp_choose("qualifier", 7), n = vp_choose("name", 6), f = vp_choose("from", 6), pl = vp_choose("place", 6); int hasB = f != 0 && f != 3;
  const char *qa = f < 3 ? "A." : "p.", *qb = f == 4 ? "q." : "B."; int inA = n <= 2, inB = hasB && (n == 0 || n == 2 || n == 3), valid;
  if (q == 0) valid = inA + inB == 1; else if (!strcmp(Q[q], qa)) valid = inA; else if (hasB && !strcmp(Q[q], qb)) valid = inB; else valid = 0;
  char ref[20]; sprintf(ref, "%s%s", Q[q], N[n]);
  if (pl == 0) sprintf(vp_stmt, "SELECT %s FROM %s;", ref, F[f]); else if (pl == 1) sprintf(vp_stmt, "SELECT * FROM %s WHERE %s = 2;", F[f], ref); else if (pl == 2) sprintf(vp_stmt, "SELECT %s FROM %s GROUP BY %s;", ref, F[f], ref);
  else if (pl == 3) sprintf(vp_stmt, "SELECT %sx FROM %s WHERE %s IS NULL OR %s IN (1, 2);", qa, F[f], ref, ref); else if (pl == 4) sprintf(vp_stmt, "SELECT COUNT(*) FROM %s WHERE %s = %sx;", F[f], ref, qa);
  else { if (f != 2 && f != 5) { vp_cover("accepted"); return; } sprintf(vp_stmt, "SELECT %sx FROM %s AND %s = 3;", qa, F[f], ref); }
  verdict(valid, vp_tbl("A"), vp_tbl("B"), "a reference to exactly one column of the listed tables is accepted", "an unknown, ambiguous or unlisted column reference is rejected");
}
void vp_main(void) {
  vp_open(); int m = (int)vp_arg(0);
  if (m == 0) notnull(); else if (m == 1) varlen(); else if (m == 2) types(); else if (m == 3) names(); else if (m == 4) counts(); else refs();
  vp_close(); vp_cover("end");
}

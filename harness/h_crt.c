/* CREATE TABLE makes exactly the declared table, or is rejected without a trace. args: [0] mode, [1] parameter (plan.py). */
#include "vp_sql.h"
#include "vp_snap.h"
#include <stdio.h>
struct col { char name[140]; int type, prec, nn, uq, ai, pk, ix; };
static struct col C[140]; static int nc; static char *P; static void put(const char *s) { P += sprintf(P, "%s", s); }
static struct { const char *s; int t, p; } TY[12] = {{"INT", CT_INTEGER, 8}, {"INTEGER", CT_INTEGER, 8}, {"INT4", CT_INTEGER, 8}, {"TINYINT", CT_TINYINT, 1}, {"DOUBLE", CT_DOUBLE, 8}, {"DATE", CT_DATE, 8}, {"DATETIME", CT_DATETIME, 8}, {"VARCHAR(1)", CT_VARCHAR, 1}, {"VARCHAR(20)", CT_VARCHAR, 20}, {"VARCHARACTER(9999)", CT_VARCHAR, 9999}, {"VARCHAR(10000)", CT_VARCHAR, 10000}, {"VARCHAR(65535)", CT_VARCHAR, 65535}};
static struct snap E0; static size_t nt0;
static void before(void) { vp_nobind = 1; vp_ok("CREATE TABLE E (x INT, y VARCHAR(3));"); vp_ok("INSERT INTO E VALUES (1, 'a'), (NULL, NULL);"); snap(vp_tbl("E"), &E0); nt0 = vp_db()->tables->count; P = vp_stmt; }
static void declared(const char *name) {
  vp_assert(same(vp_tbl("E"), &E0), "CREATE TABLE does not touch the other tables"); vp_assert(vp_db()->tables->count == nt0 + 1, "exactly one table comes into being"); struct table *t = vp_tbl(name); vp_assert(t != NULL, "the table has the declared name"); vp_assert(!strcmp(t->name, name), "the table has the declared name");
  struct row *R[4]; vp_assert(vp_rows(t, R, 4) == 0, "a new table has no rows"); vp_assert(t->column_count == nc, "the table has the declared columns");
  for (int i = 0; i < nc; i++) { struct column *c = &t->columns[i]; vp_assert(!strcmp(c->name, C[i].name), "the columns stand in the declared order, under their names"); vp_assert((int)c->type == C[i].type && c->precision == C[i].prec, "a column has its declared type and length"); vp_assert(c->nullable == !C[i].nn, "a column has its declared nullability"); vp_assert(c->unique == !!C[i].uq && c->auto_inc == !!C[i].ai && c->primary_key == !!C[i].pk && c->indexed == !!C[i].ix, "a column has its declared attributes"); }
}
static void made(const char *name) { struct query_output *o = vp_q("%s", vp_stmt); vp_assert(o && o->status == ST_OK_EXECUTED, "a valid CREATE TABLE is executed"); vp_assert(o->error.message[0] == 0 && o->n_rows_aff == 0, "CREATE TABLE affects no rows"); query_free(o); vp_cover("accepted"); declared(name); }
static void refused(const char *why) { rejected(vp_tbl("E"), NULL, why); }
static const char *AT[5] = {" NOT NULL", " NULL", " AUTO_INCREMENT", " UNIQUE", " PRIMARY KEY"};
static void attr(struct col *c, int a) { if (a == 0) c->nn = 1; if (a == 2) c->ai = 1; if (a == 3) c->uq = 1; if (a == 4) c->pk = c->nn = c->uq = 1; }
/* mode 0: types and attributes of two columns */
static void columns(void) {
  static const char *N[3] = {"a", "B_2", "aVeryLongColumnNameWithDigits12345"}; int n = 1 + vp_choose("columns", 2); put("CREATE TABLE Tab (");
  for (int i = 0; i < n; i++) { struct col *c = &C[nc++]; memset(c, 0, sizeof *c); strcpy(c->name, N[(i + n) % 3]); int k = i == 0 ? vp_choose("type", 12) : (int)vp_arg(1); c->type = TY[k].t; c->prec = TY[k].p; if (i) put(", "); put(c->name); put(" "); put(TY[k].s);
    int na = vp_choose("attributes", i == 0 && n == 1 ? 3 : 2), had0 = 0, had1 = 0; for (int j = 0; j < na; j++) { int a = vp_choose("attribute", 5); if (a == 1 && had0) a = 2; if (a == 0 && had1) a = 3; if (a == 0 || a == 4) had0 = 1; if (a == 1) had1 = 1; if (a == 4 && had1) a = 3; put(AT[a]); attr(c, a); } }
  put(");"); made("Tab");
}
/* mode 1: PRIMARY KEY and INDEX clauses anywhere in the list */
static void keys(void) {
  static const char *NS[3][4] = {{"a", "b", "c", "zz"}, {"ab", "a", "abc", "abcd"}, {"B", "b", "Bb", "bB"}}; const char **N = NS[vp_arg(1)]; int pp = vp_choose("pk_place", 5), ip = vp_choose("ix_place", 5), bad = 0, any = 0; static const int PC[6][3] = {{0, -1, -1}, {2, -1, -1}, {0, 2, -1}, {1, 0, -1}, {3, -1, -1}, {1, 3, -1}}; int ps = vp_choose("pk_columns", 6), is = vp_choose("ix_columns", 6);
  for (int i = 0; i < 3; i++) { strcpy(C[i].name, N[i]); C[i].type = CT_INTEGER; C[i].prec = 8; } nc = 3; put("CREATE TABLE T (");
  for (int pl = 0; pl < 4; pl++) { for (int w = 0; w < 2; w++) if ((w ? ip : pp) == pl) { if (any++) put(", "); put(w ? "INDEX (" : "PRIMARY KEY ("); const int *L = PC[w ? is : ps]; for (int j = 0; j < 3 && L[j] >= 0; j++) { if (j) put(", "); put(N[L[j]]); if (L[j] == 3) bad = 1; else if (w) C[L[j]].ix = 1; else C[L[j]].pk = C[L[j]].nn = C[L[j]].uq = 1; } put(")"); }
    if (pl < 3) { if (any++) put(", "); put(N[pl]); put(" INT"); } }
  put(");"); if (bad) refused("a key over a column that does not exist is rejected"); else made("T");
}
/* mode 2: names of [1] arbitrary bytes */
static int okname(const char *s, int k) { int r = 1; for (int i = 0; i < k; i++) { int al = vp_or(vp_and(s[i] >= 'a', s[i] <= 'z'), vp_and(s[i] >= 'A', s[i] <= 'Z')); r = vp_and(r, i ? vp_or(al, vp_or(s[i] == '_', vp_and(s[i] >= '0', s[i] <= '9'))) : al); } return r; }
static void names(void) {
  static const char *Q[5] = {"CREATE TABLE `@` (a INT, b INT);", "CREATE TABLE T (`@` INT, a DOUBLE);", "CREATE TABLE T (a DOUBLE, `@` INT);", "CREATE TABLE T (a DOUBLE, `@` INT, PRIMARY KEY (`@`));", "CREATE TABLE T (a DOUBLE, PRIMARY KEY (`@`));"}; int k = (int)vp_arg(1), f = vp_choose("form", 5); char h[8] = ""; vp_bytes(h, k, "name"); h[k] = 0; for (int i = 0; i < k; i++) vp_assume(vp_and(h[i] != 0, h[i] != '`'));
  for (const char *q = Q[f]; *q; q++) if (*q == '@') { memcpy(P, h, k); P += k; } else *P++ = *q; *P = 0;
  int valid = okname(h, k); if (f == 0) valid = k == 1 ? vp_and(valid, h[0] != 'E') : valid; else if (f == 4) valid = k == 1 ? h[0] == 'a' : 0; else valid = k == 1 ? vp_and(valid, h[0] != 'a') : valid;
  if (!vp_concretize(valid)) { refused("an invalid or taken name is rejected"); return; }
  if (f == 0) { nc = 2; strcpy(C[0].name, "a"); strcpy(C[1].name, "b"); C[0].type = C[1].type = CT_INTEGER; C[0].prec = C[1].prec = 8; made(h); return; }
  int x = f == 1 ? 0 : 1; nc = f == 4 ? 1 : 2; C[!x].type = CT_DOUBLE; C[!x].prec = 8; strcpy(C[!x].name, "a"); if (f == 4) C[0].pk = C[0].nn = C[0].uq = 1; else { memcpy(C[x].name, h, k + 1); C[x].type = CT_INTEGER; C[x].prec = 8; if (f == 3) C[x].pk = C[x].nn = C[x].uq = 1; } made("T");
}
/* mode 3: up to and beyond the largest number of columns, with rows */
static void many(void) {
  int n = (int)vp_arg(1); put("CREATE TABLE T ("); for (int i = 0; i < n; i++) { sprintf(C[i].name, "c%d", i); C[i].type = i % 5 == 4 ? CT_VARCHAR : CT_INTEGER; C[i].prec = i % 5 == 4 ? 7 : 8; P += sprintf(P, "%s%s %s", i ? ", " : "", C[i].name, i % 5 == 4 ? "VARCHAR(7)" : "INT"); } nc = n; put(");");
  int dup = vp_choose("duplicate", 2); if (dup) { P -= 2; put(", c1 INT);"); } if (dup || n > 128) { refused("a table with too many columns or with two columns of one name is rejected"); return; }
  made("T"); vp_nobind = 0; P = vp_stmt; int64_t v = vpI[0] = vp_i64("value"); put("INSERT INTO T VALUES ("); for (int i = 0; i < n; i++) put(i % 5 == 4 ? (i ? ", 'xy'" : "'xy'") : i ? ", 90000000" : "90000000"); put(");"); vp_ok("%s", vp_stmt); struct row *R[2]; struct table *t = vp_tbl("T"); vp_assert(vp_rows(t, R, 2) == 1, "the table holds the row"); for (int i = 0; i < n; i++) if (i % 5 == 4) vp_assert(!strcmp(vp_gets(t, R[0], i), "xy"), "a column holds the value inserted"); else vp_assert(vp_geti(t, R[0], i) == v, "a column holds the value inserted");
}
/* mode 4: IF NOT EXISTS, and several tables one after the other */
static void exists(void) {
  char nm[3] = ""; vp_bytes(nm, 1, "name"); vp_assume(vp_or(vp_and(nm[0] >= 'a', nm[0] <= 'z'), vp_and(nm[0] >= 'A', nm[0] <= 'Z'))); int f = vp_choose("form", 4); nc = 1; C[0].type = CT_DATE; C[0].prec = 8; C[0].nn = 1; strcpy(C[0].name, "d");
  static const char *F[4] = {"CREATE TABLE ", "CREATE TABLE IF NOT EXISTS ", "create table if not  exists ", "CREATE TABLE IF NOT\tEXISTS "}; put(F[f]); *P++ = nm[0]; put("k (d DATE NOT NULL);"); vp_ok("CREATE TABLE Ek (q INT);"); nt0++;
  int there = (int)vp_concretize(nm[0] == 'E'); char full[4] = {nm[0], 'k', 0}; if (!there) { made(full); P = vp_stmt; nt0++; if (vp_choose("again", 2)) { if (f) accepted("CREATE TABLE IF NOT EXISTS of a table that exists is accepted"); else refused("CREATE TABLE of a table that exists is rejected"); nt0--; declared(full); vp_cover("again"); } return; }
  if (f == 0) refused("CREATE TABLE of a table that exists is rejected"); else accepted("CREATE TABLE IF NOT EXISTS of a table that exists is accepted");
  struct table *t = vp_tbl("Ek"); vp_assert(vp_db()->tables->count == nt0 && same(vp_tbl("E"), &E0) && t && t->column_count == 1 && !strcmp(t->columns[0].name, "q") && t->columns[0].type == CT_INTEGER, "the table that exists stays as it is");
}
/* mode 5: VARCHAR(n) for every n of [1] digits */
static void length(void) {
  int k = (int)vp_arg(1), neg = vp_choose("negative", 2); char d[8]; vp_bytes(d, k, "digits"); int64_t v = 0; for (int i = 0; i < k; i++) { vp_assume(vp_and(d[i] >= '0', d[i] <= '9')); v = v * 10 + (d[i] - '0'); }
  put(neg ? "CREATE TABLE T (a VARCHAR(-" : "CREATE TABLE T (a VARCHAR("); memcpy(P, d, k); P += k; put("), b INT);"); nc = 2; strcpy(C[0].name, "a"); strcpy(C[1].name, "b"); C[0].type = CT_VARCHAR; C[0].prec = (int)v; C[1].type = CT_INTEGER; C[1].prec = 8;
  if (!neg && vp_concretize(vp_and(v >= 1, v <= 65535))) made("T"); else refused("a VARCHAR length outside 1 to 65535 is rejected");
}
/* mode 6: the longest names */
static void longest(void) {
  int n = 126 + vp_choose("length", 4), which = vp_choose("which", 2); char nm[140]; memset(nm, 'n', n); nm[n] = 0; vp_bytes(nm + n - 1, 1, "last"); vp_assume(vp_and(nm[n - 1] >= 'a', nm[n - 1] <= 'z')); nc = 1; C[0].type = CT_DOUBLE; C[0].prec = 8;
  put("CREATE TABLE "); if (which) { memcpy(P, nm, n); P += n; put(" (x DOUBLE);"); strcpy(C[0].name, "x"); } else { put("T ("); memcpy(P, nm, n); P += n; put(" DOUBLE);"); memcpy(C[0].name, nm, n + 1); }
  if (n > 127) refused("a name of more than 127 characters is rejected"); else made(which ? nm : "T");
}
void vp_main(void) { vp_open(); before(); switch (vp_arg(0)) { case 0: columns(); break; case 1: keys(); break; case 2: names(); break; case 3: many(); break; case 4: exists(); break; case 5: length(); break; default: longest(); } vp_close(); vp_cover("end"); }

/* The tables of a database. args: [0] 0: registry of tables with arbitrary names, 1: statements on one of several tables with similar names, 2: long names that differ in one place, 3: many tables;
   [1] tables stored first (0), length of the names (2), number of tables (3); [2] length of the arbitrary names, [3] how many are added (0) */
#include "vp_sql.h"
#include "vp_model.h"
static int valid1(unsigned char c, int first) { int a = vp_or(vp_and(c >= 'a', c <= 'z'), vp_and(c >= 'A', c <= 'Z')); return first ? a : vp_or(a, vp_or(vp_and(c >= '0', c <= '9'), c == '_')); }
static void name(char *b, int n, const char *w) { memset(b, 0, 8); vp_bytes(b, n, w); for (int i = 0; i < n; i++) vp_assume(valid1((unsigned char)b[i], i == 0)); }
static int eq8(const char *a, const char *b) { int e = 1; for (int i = 0; i < 8; i++) e = vp_and(e, a[i] == b[i]); return e; }
static struct table *T[200]; static char N[200][8];
static void registry(void) {
  int pre = (int)vp_arg(1), len = (int)vp_arg(2), n = 0; struct database *db = vp_db();
  for (int i = 0; i < pre; i++) { sprintf(N[n], "%c%d", i % 3 ? 't' : 'T', i); T[n] = table_init(N[n]); vp_assert(T[n] && database_table_add(db, T[n]) == MIDORIDB_OK, "a table with a new name is added"); n++; }
  for (int i = 0; i < (int)vp_arg(3); i++) {
    char b[8]; int l = 1 + vp_choose("length", len); name(b, l, "name"); int dup = 0; for (int k = 0; k < n; k++) dup = vp_or(dup, eq8(b, N[k])); dup = (int)vp_concretize((uint64_t)(dup != 0));
    struct table *t = table_init(b); vp_assert(t != NULL, "a table with a valid name is made"); size_t c = db->tables->count; int rc = database_table_add(db, t);
    vp_assert((rc == MIDORIDB_OK) == !dup, "a table is added exactly when no table has its name"); vp_assert(db->tables->count == c + (size_t)!dup, "the database holds one table more exactly when one was added"); if (dup) { table_destroy(&t); vp_cover("duplicate"); } else { T[n] = t; memcpy(N[n], b, 8); n++; }
    for (int k = 0; k < n; k++) { if (pre > 4 && k > 1 && k < n - 2) continue; vp_assert(database_table_get(db, N[k]) == T[k], "every table is found by its name"); vp_assert(database_table_exists(db, N[k]), "every table is found by its name"); }
  }
  char x[8]; int l = 1 + vp_choose("length", len); name(x, l, "lookup"); int f = -1; for (int k = 0; k < n; k++) if ((int)vp_concretize((uint64_t)(eq8(x, N[k]) != 0))) f = k;
  struct table *g = database_table_get(db, x); vp_assert(g == (f < 0 ? NULL : T[f]), "a name finds the table of exactly that name, or none"); if (f >= 0) vp_cover("found"); else vp_cover("unknown");
}
static const char *SN[8] = {"T", "t", "TT", "T1", "T_", "AT", "Tt", "T1T"};
static struct row *R[16];
static void others(int me) { for (int i = 0; i < 8; i++) if (i != me) { struct table *t = vp_tbl(SN[i]); vp_assert(t && t->column_count == 2, "other tables stay as they were"); int n = vp_rows(t, R, 16); vp_assert(n == 2, "other tables stay as they were"); for (int k = 0; k < 2; k++) { vp_assert(vp_geti(t, R[k], 0) == 10 * i + k, "other tables stay as they were"); char s[4] = {(char)('a' + i), (char)('p' + k), 0}; vp_assert(!strcmp(vp_gets(t, R[k], 1), s), "other tables stay as they were"); } } }
static void similar(void) {
  for (int i = 0; i < 8; i++) vp_ok("CREATE TABLE %s (a INT, s VARCHAR(5));", SN[i]);
  for (int k = 0; k < 2; k++) for (int i = 0; i < 8; i++) vp_assert(vp_ok("INSERT INTO %s VALUES (%d, '%c%c');", SN[i], 10 * i + k, 'a' + i, 'p' + k) == 1, "one row is inserted");
  int me = vp_choose("table", 8), op = vp_choose("statement", 8); const char *n = SN[me]; struct table *t = vp_tbl(n); struct mcell c, d; char l[40], l2[40]; mc_lit(l, 0, &c); mc_lit(l2, 2, &d); int x0 = (int)(c.i == 10 * me), x1 = (int)(c.i == 10 * me + 1);
  switch (op) {
  case 0: vp_assert(vp_ok("INSERT INTO %s VALUES (%s, %s);", n, l, l2) == 1, "one row is inserted"); vp_assert(vp_rows(t, R, 16) == 3 && vp_geti(t, R[2], 0) == c.i, "the row is stored in the table named"); break;
  case 1: vp_assert(vp_ok("DELETE FROM %s;", n) == 2 && vp_rows(t, R, 16) == 0, "the rows of the table named are deleted"); break;
  case 2: vp_assert((int64_t)vp_ok("DELETE FROM %s WHERE a = %s;", n, l) == vp_ite(vp_or(x0, x1), 1, 0), "the rows of the table named are deleted"); break;
  case 3: vp_assert(vp_ok("UPDATE %s SET a = %s, s = %s;", n, l, l2) == 2 && vp_rows(t, R, 16) == 2 && vp_geti(t, R[0], 0) == c.i && vp_geti(t, R[1], 0) == c.i, "the rows of the table named are updated"); break;
  case 4: { struct query_output *o = vp_q("SELECT * FROM %s WHERE a <> %s;", n, l); vp_assert(o && o->status == ST_OK_WITH_RESULTS, "a valid SELECT returns results"); vp_assert(vp_rows(o->results.table, R, 16) == vp_ite(vp_or(x0, x1), 1, 2), "the rows of the table named are returned"); char cn[12]; sprintf(cn, "%s.a", n); vp_assert(vp_col(o->results.table, cn) >= 0 && vp_geti(o->results.table, R[0], vp_col(o->results.table, cn)) / 10 == me, "the rows of the table named are returned"); query_free(o); break; }
  case 5: vp_err("CREATE TABLE %s (z INT);", n); vp_ok("CREATE TABLE IF NOT EXISTS %s (z INT);", n); vp_assert(vp_tbl(n) == t && t->column_count == 2 && vp_rows(t, R, 16) == 2, "an existing table is not made again"); break;
  case 6: { int o = (me + 1 + vp_choose("other", 7)) % 8; struct query_output *q = vp_q("SELECT * FROM %s JOIN %s ON %s.a = %s.a;", n, SN[o], n, SN[o]); if (q->status == ST_OK_WITH_RESULTS) vp_assert(vp_rows(q->results.table, R, 16) == 0, "the rows of the tables named are joined"); query_free(q); vp_assert(vp_ok("UPDATE %s SET a = %s;", n, l) == 2, "the rows of the table named are updated"); break; }
  default: vp_ok("CREATE TABLE %s9 (z INT, y INT, x INT);", n); vp_assert(vp_tbl(n) == t && t->column_count == 2, "another table does not change a table with a similar name"); break;
  }
  others(op == 4 || op == 5 || op == 7 ? -1 : me);
}
static void longnames(void) {
  int n = (int)vp_arg(1), at = vp_choose("place", 3), k = 1 + vp_choose("rows", 2); static char a[140], b[140]; for (int i = 0; i < n; i++) a[i] = (char)('a' + i % 26); memcpy(b, a, 140); int p = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; b[p] = (char)(b[p] == 'Q' ? 'R' : 'Q');
  if (vp_choose("shorter", 2)) b[n - 1] = 0;
  vp_ok("CREATE TABLE %s (a INT);", a); vp_ok("CREATE TABLE %s (a INT);", b); vp_assert(vp_tbl(a) != vp_tbl(b) && !strcmp(vp_tbl(a)->name, a) && !strcmp(vp_tbl(b)->name, b), "tables with different names are different"); vp_err("CREATE TABLE %s (a INT);", b);
  int64_t v = vpI[0] = vp_i64("v"); for (int i = 0; i < k; i++) vp_assert(vp_ok("INSERT INTO %s VALUES (90000000);", a) == 1, "one row is inserted"); vp_assert(vp_rows(vp_tbl(b), R, 16) == 0 && vp_rows(vp_tbl(a), R, 16) == k && vp_geti(vp_tbl(a), R[0], 0) == v, "the row is stored in the table named"); vp_ok("INSERT INTO %s VALUES (5);", b); vp_assert(vp_ok("DELETE FROM %s;", a) == (size_t)k && vp_rows(vp_tbl(b), R, 16) == 1, "the rows of the table named are deleted");
}
static void many(void) {
  int n = (int)vp_arg(1); int64_t v = vp_i64("v"); for (int i = 0; i < n; i++) { vp_ok("CREATE TABLE t%d (a INT, b%d INT);", i * 7, i); mk_reset(); vpI[0] = v; vp_assert(vp_ok("INSERT INTO t%d VALUES (90000000, %d);", i * 7, i) == 1, "one row is inserted"); }
  for (int i = 0; i < n; i++) { char nm[12]; sprintf(nm, "t%d", i * 7); struct table *t = vp_tbl(nm); sprintf(nm, "b%d", i); vp_assert(t && t->column_count == 2 && !strcmp(t->columns[1].name, nm) && vp_rows(t, R, 16) == 1 && vp_geti(t, R[0], 0) == v && vp_geti(t, R[0], 1) == i, "every table keeps its columns and rows"); }
}
void vp_main(void) { vp_open(); switch (vp_arg(0)) { case 0: registry(); break; case 1: similar(); break; case 2: longnames(); break; default: many(); } vp_close(); vp_cover("end"); }

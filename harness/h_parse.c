/* C17: no statement text brings the process down. A statement with a hole of k arbitrary bytes (any byte but NUL,
 * which ends the text) is executed against a small database: it must come back either executed or rejected with a
 * message, leave the database as it was when rejected, release what it allocated, and the next statement must work.
 * args: template, number of bytes (or words) in the hole, 1: the hole is filled with arbitrary words of the language */
#include "vp_sql.h"
#include <string.h>
#include <stdio.h>
#include <datastructure/hashtable.h>
#include "vp_snap.h"
static const char *T[] = {
  /* 0 */ "?", "?;", "I?", "INSERT INTO T?VALUES (1, 'x', 1.5, '2000-01-01');", "INSERT INTO ? VALUES (1, 'x', 1.5, '2000-01-01');",
  /* 5 */ "INSERT INTO T VALUES (?, 'x', 1.5, '2000-01-01');", "INSERT INTO T VALUES (1, '?', 1.5, '2000-01-01');", "INSERT INTO T VALUES (1, \"?\", 1.5, '2000-01-01');", "INSERT INTO T VALUES (1, 'x', 1.?, '2000-01-01');", "INSERT INTO T VALUES (1, 'x', 1.5, '2000-0?-01');",
  /* 10 */ "INSERT INTO T (a, ?) VALUES (1, 'x');", "INSERT INTO T VALUES (1 ? 2, 'x', 1.5, '2000-01-01');", "INSERT INTO T VALUES (1, 'x', 1.5, '2000-01-01')?;", "INSERT INTO T VALUES (1, 'x', 1.5, '2000-01-01');?",
  /* 14 */ "SELECT ? FROM T;", "SELECT * FROM ?;", "SELECT * FROM T WHERE ?;", "SELECT * FROM T WHERE a ? 2;", "SELECT * FROM T WHERE a = ?;", "SELECT * FROM T WHERE s = '?';", "SELECT a FROM T ?;", "SELECT a FROM T GROUP BY ?;", "SELECT COUNT(?) FROM T;", "SELECT * FROM T JOIN U ON T.a = U.?;",
  /* 24 */ "DELETE FROM T?;", "DELETE FROM T WHERE ?;", "DELETE FROM T WHERE a ? 1;", "DELETE FROM T WHERE a IN (1, ?);", "DELETE FROM T WHERE a IS ? NULL;", "DELETE FROM T WHERE a = 1 ? a = 2;",
  /* 30 */ "UPDATE T SET ?;", "UPDATE T SET a = ?;", "UPDATE T SET a ? 1 WHERE a = 1;", "UPDATE T SET s = '?' WHERE a = 1;", "UPDATE ? SET a = 1;", "UPDATE T SET a = 1 WHERE ?;",
  /* 36 */ "CREATE TABLE ? (x INTEGER);", "CREATE TABLE V (? INTEGER);", "CREATE TABLE V (x ?);", "CREATE TABLE V (x VARCHAR(?));", "CREATE TABLE V (x INTEGER ?);", "CREATE TABLE V (x INTEGER?y DOUBLE);", "CREATE TABLE V (x INTEGER) ?;",
  /* 43 */ "SELECT * FROM T WHERE a = 1 /* ? */;", "SELECT * FROM T WHERE a = 1 /*?", "SELECT * FROM `?`;", "SELECT * FROM T WHERE `?` = 1;", "SELECT '?' FROM T;", "SELECT * FROM T -- ?", "SELECT * FROM T WHERE a = 1.0e?;", "SELECT * FROM T WHERE a IN (?);", "SELECT * FROM T WHERE (a = 1 ?);", "SELECT T.? FROM T;",
  /* 53 */ "INSERT INTO T VALUES (1, 'x', 1.5, '?');", "SELECT 'abc?", "\"?", "`?", "SELECT * FROM T WHERE a = 1?", "DELETE FROM T WHERE a = 0?;", "SELECT X'?' FROM T;", "SELECT 0B? FROM T;", "SELECT * FROM T WHERE e > '2000-01-01' AND ? a = 1;", "INSERT INTO T VALUES (-?, 'x', 1.5, NULL);",
  /* 63 */ "SELECT a FROM T LEFT JOIN U ON ?;", "SELECT a FROM T t JOIN U u ON t.a = u.a AND ?;", "SELECT T.a FROM T JOIN U ON T.a = U.a ?;", "SELECT a, COUNT(*) FROM T GROUP BY a ?;", "SELECT a FROM T ORDER BY ?;", "SELECT a AS ? FROM T;", "SELECT a, COUNT(*) FROM T GROUP BY a HAVING ?;", "SELECT a FROM T LIMIT ?;",
  /* 71 */ "SELECT a ? FROM T;", "SELECT DISTINCT ? FROM T;", "SELECT COUNT(*), ? FROM T;", "SELECT T.a, U.a FROM ?;", "SELECT * FROM T, ?;", "SELECT * FROM T WHERE NOT ?;", "SELECT * FROM T WHERE s LIKE ?;", "SELECT * FROM T WHERE a BETWEEN ?;", "SELECT * FROM T WHERE ? IS NULL;", "SELECT * FROM T WHERE ? IN (1);",
  /* 81 */ "UPDATE T SET a = 1, ? WHERE a = 1;", "UPDATE T SET a = 1 WHERE s = 'one' ?;", "UPDATE T SET s = ?;", "UPDATE T SET e = ?;", "DELETE FROM T WHERE s = ?;", "DELETE FROM T WHERE e < ?;", "DELETE FROM T WHERE ? = a;", "DELETE FROM ? WHERE a = 1;", "DROP ?;",
  /* 90 */ "CREATE TABLE V (a INTEGER, ?);", "CREATE TABLE V (a INTEGER NOT NULL ?, b DOUBLE);", "CREATE TABLE V (a VARCHAR(3) ?);", "CREATE ? V (a INTEGER);", "INSERT INTO T (s, a) VALUES (?);", "INSERT INTO U VALUES (1, 2), (?);", "INSERT INTO U VALUES (1, (2 ?));", "INSERT INTO U (?) VALUES (1);", "INSERT INTO U ? (1, 2);", "INSERT ? U VALUES (1, 2);",
  /* 100 */ "UPDATE `T` SET `a` = ? WHERE `T`.a = 1;", "SELECT `T`.`a` FROM `T` JOIN `U` ON `T`.`a` = ?;", "SELECT a FROM T WHERE a = 1 AND (? OR a = 2);", "SELECT a FROM T WHERE T.a ?;", "SELECT d FROM T GROUP BY d ?;" };
/* words of the language: every kind of name, literal and operator, and the keywords the grammar knows */
static const char *W[] = { "a", "b", "s", "d", "e", "T", "U", "V", "T.a", "U.b", "V.a", "T.zz", "`a`", "1", "-7", "99999999999", "1.5", "'one'", "'2001-01-01'", "\"two\"", "TRUE", "FALSE", "NULL", "(", ")", ",", ";", "*", "+", "-", "/", "%", "=", "<>", "<", ">=", "!", "AND", "OR", "XOR", "NOT", "IS", "IN", "LIKE", "BETWEEN", "IS NULL", "IN (1, 2)", "COUNT(*)", "COUNT(a)", "COUNT", "AS", "FROM", "WHERE", "GROUP BY", "ORDER BY", "HAVING", "LIMIT", "ASC", "DESC", "JOIN", "INNER", "LEFT", "RIGHT", "ON", "DISTINCT", "ALL", "SELECT", "VALUES", "INTO", "SET", "TABLE", "IF NOT EXISTS", "INTEGER", "VARCHAR(4)", "DOUBLE", "DATE", "NOT NULL", "UNIQUE", "PRIMARY KEY", "INDEX", "AUTO_INCREMENT", "TEMPORARY", "CREATE", "EXISTS" };
#define NW ((int)(sizeof W / sizeof *W))
#define NT ((int)(sizeof T / sizeof *T))
void vp_main(void) {
  int tn = (int)vp_arg(0), k = (int)vp_arg(1); vp_assert(tn < NT, "template exists");
  vp_open(); vp_ok("CREATE TABLE T (a INTEGER, s VARCHAR(8), d DOUBLE, e DATE);"); vp_ok("CREATE TABLE U (a INTEGER, b INTEGER);");
  vp_ok("INSERT INTO T VALUES (1, 'one', 1.5, '2001-01-01'), (2, 'two', NULL, NULL);"); vp_ok("INSERT INTO U VALUES (1, 2);");
  static char q[600000]; const char *t = T[tn]; int words = (int)vp_arg(2), n = 0, at = 0;
  for (int i = 0; t[i]; i++) if (t[i] != '?') q[n++] = t[i]; else if (words != 1) { /* 2: after [3] times the same character */ if (words == 2) { char c = "x7( '"[vp_choose("filling", 5)]; for (int j = (int)vp_arg(3); j > 0; j--) q[n++] = c; } else if (words == 3) { static const char *C[6] = {" AND a = 1", " OR a = 1", " XOR a = 1", ", 1", " + 1", " * - 1"}; const char *c = C[vp_choose("link", 6)]; for (int j = (int)vp_arg(3); j > 0; j--) n += sprintf(q + n, "%s", c); } at = n; n += k; } else for (int j = 0; j < k; j++) { if (j) q[n++] = ' '; n += sprintf(q + n, "%s", W[vp_choose("word", NW)]); }
  q[n] = 0; vp_assert(n < (int)sizeof q, "the statement fits");
  unsigned char hole[16]; if (words != 1) { vp_bytes(hole, k, "hole"); for (int i = 0; i < k; i++) { vp_assume(hole[i] != 0); q[at + i] = (char)hole[i]; } }
  struct table *T_ = vp_tbl("T"), *U_ = vp_tbl("U"); struct snap st, su; snap(T_, &st); snap(U_, &su); size_t tables = vp_db()->tables->count;
  vp_note(q); int before = vp_live(); struct query_output *o = query_execute(vp_db(), q); vp_assert(o != NULL, "a statement has an outcome");
  int ok = o->status == ST_OK_EXECUTED || o->status == ST_OK_WITH_RESULTS;
  vp_assert(ok || o->status == ST_ERROR, "the outcome is executed, results or error");
  if (!ok) { vp_assert(memchr(o->error.message, 0, sizeof o->error.message) && o->error.message[0], "a rejected statement carries an error message"); }
  if (o->status == ST_OK_WITH_RESULTS) { int rows = 0; while (rows < 100 && query_cur_step(&o->results) == MIDORIDB_ROW) rows++; vp_assert(rows < 100, "the results end"); vp_cover("results"); }
  int sel = o->status != ST_OK_EXECUTED; query_free(o);
  if (sel) { vp_assert(vp_live() == before, "a statement without effect keeps no memory"); vp_assert(same(T_, &st) && same(U_, &su), "a statement without effect leaves the rows as they were"); vp_assert(vp_db()->tables->count == tables, "a statement without effect leaves the tables as they were"); }
  if (!ok) vp_cover("rejected"); else vp_cover("accepted");
  struct query_output *p = query_execute(vp_db(), "SELECT a, b FROM U;"); vp_assert(p->status == ST_OK_WITH_RESULTS, "the next statement works"); vp_assert(query_cur_step(&p->results) == MIDORIDB_ROW || ok, "the next statement has its results"); query_free(p);
  vp_close(); vp_cover("end");
}

/* A failing allocation anywhere in a statement: the statement is executed as usual or rejected without effect; nothing leaks and the database stays usable. args: [0] statement [1] allocations that fail [2] 1: only where flex sets up its buffer. */
#include "vp_sql.h"
#include "vp_snap.h"
#include <stdio.h>
static const char *S[] = {
  "CREATE TABLE n (x INT NOT NULL, y VARCHAR(9), z DOUBLE UNIQUE);",
  "CREATE TABLE n (x INT, y DATE, PRIMARY KEY (x), INDEX (x, y));",
  "CREATE TABLE IF NOT EXISTS t (x INT);",
  "INSERT INTO t VALUES (90000000, 'four', 90000.5, TRUE);",
  "INSERT INTO t (b, a) VALUES ('five', 5);",
  "INSERT INTO t VALUES (90000000, 'six', 90000.5, FALSE), (7, NULL, NULL, NULL), (8, 'eight', 8.5, TRUE);",
  "INSERT INTO t (a, c) VALUES (90000000 + 2 * -3, (1.5 - 90000.5) / 2.0);",
  "UPDATE t SET a = 90000000;",
  "UPDATE t SET b = 'new', c = NULL WHERE a = 90000000 OR b = 'two' AND c < 90000.5;",
  "UPDATE t SET d = FALSE WHERE a IN (1, 90000000, NULL) XOR b IS NULL;",
  "DELETE FROM t;",
  "DELETE FROM t WHERE a = 90000000;",
  "DELETE FROM t WHERE (a NOT IN (90000000, 2) OR d = TRUE) AND b IS NOT NULL;",
  "SELECT * FROM t;",
  "SELECT a, t.b FROM t WHERE a >= 90000000 AND b <> 'x';",
  "SELECT COUNT(*) FROM t WHERE c > 90000.5;",
  "SELECT d, COUNT(*) FROM t GROUP BY d;",
  "SELECT * FROM t, u;",
  "SELECT t.a, w FROM t JOIN u ON t.a = u.k WHERE u.w > 90000000;",
  "SELECT p.a, q.w FROM t AS p, u q WHERE p.a = q.k;",
  "SELECT * FROM t JOIN u ON t.a = u.k JOIN v ON v.m = u.w;",
  "SELECT a FROM t WHERE a IN (90000000, 3) OR b IS NULL;",
  /* rejected in any case */
  "SELECT zz FROM t;", "INSERT INTO t VALUES (1, 2);", "DELETE FROM t WHERE zz = 1;", "UPDATE t SET a = 'x';", "CREATE TABLE t (a INT);", "SELECT a FROM;", "INSERT INTO t VALUES (1, 'x', 1.5, 'y');", "CREATE TABLE n (x INT, x INT);" };
static void setup(void) { vp_open(); vp_ok("CREATE TABLE t (a INT, b VARCHAR(20), c DOUBLE, d TINYINT);"); vp_ok("CREATE TABLE u (k INT, w INT);"); vp_ok("CREATE TABLE v (m INT);"); vp_ok("INSERT INTO t VALUES (1, 'one', 1.5, TRUE), (2, 'two', 2.5, FALSE), (3, NULL, NULL, TRUE);"); vp_ok("INSERT INTO u VALUES (1, 10), (2, 20), (3, 5);"); vp_ok("INSERT INTO v VALUES (10), (20);"); }
static struct snap t0, u0, v0; static struct pic t1, n1, r1; static size_t nt1; static int aff1, st1;
void vp_main(void) {
  const char *q = S[vp_arg(0)]; struct query_output *o; vp_lexfault = (int)vp_arg(2);
  for (int i = 0; i < 1; i++) { vpI[i] = vp_i64("int"); vpD[i] = vp_f64("dbl"); }
  /* what the statement does when memory suffices */
  setup(); o = vp_q(q); st1 = o->status; aff1 = o->n_rows_aff; if (st1 == ST_OK_WITH_RESULTS) pic(o->results.table, &r1); query_free(o); pic(vp_tbl("t"), &t1); nt1 = vp_db()->tables->count; if (nt1 > 3) pic(vp_tbl("n"), &n1); vp_close();
  setup(); struct table *t = vp_tbl("t"), *u = vp_tbl("u"), *v = vp_tbl("v"); snap(t, &t0); snap(u, &u0); snap(v, &v0); size_t nt = vp_db()->tables->count; int live = vp_live();
  vp_note(q); vp_fault_hold(vp_lexfault); vp_fault_arm((int)vp_arg(1)); o = query_execute(vp_db(), (char *)q); int k = vp_fault_disarm();
  vp_assert(o != NULL || k > 0, "a statement is answered unless memory runs out");
  if (o && o->status != ST_ERROR) { vp_cover("executed"); vp_assert(o->error.message[0] == 0, "an executed statement carries no error message"); vp_assert((int)o->status == st1, "a statement that is reported as executed did what it does when memory suffices");
    if (st1 == ST_OK_WITH_RESULTS) vp_assert(alike(o->results.table, &r1), "a statement that is reported as executed did what it does when memory suffices"); else vp_assert(o->n_rows_aff == aff1, "a statement that is reported as executed did what it does when memory suffices"); query_free(o);
    vp_assert(alike(t, &t1) && same(u, &u0) && same(v, &v0) && vp_db()->tables->count == nt1, "a statement that is reported as executed did what it does when memory suffices"); if (nt1 > 3) vp_assert(alike(vp_tbl("n"), &n1), "a statement that is reported as executed did what it does when memory suffices");
  } else { vp_assert(k > 0 || st1 == ST_ERROR, "a statement is executed unless memory runs out"); if (o) { vp_assert(o->error.message[0] != 0, "a rejected statement carries an error message"); query_free(o); } vp_cover("rejected");
    vp_assert(same(t, &t0) && same(u, &u0) && same(v, &v0) && vp_db()->tables->count == nt, "a statement that fails leaves the database as it was"); vp_assert(vp_live() == live, "a statement that fails keeps no memory"); }
  vp_assert(!vp_mutex_locked(&vp_db()->mutex) && !vp_mutex_locked(&t->mutex) && !vp_mutex_locked(&u->mutex), "no lock is left behind");
  vp_ok("INSERT INTO t VALUES (50, 'after', 5.5, TRUE);"); vp_assert(vp_ok("UPDATE t SET c = 7.5 WHERE b = 'after';") == 1, "the table can be used afterwards"); o = vp_q("SELECT * FROM t;"); vp_assert(o && o->status == ST_OK_WITH_RESULTS, "the table can be used afterwards"); query_free(o); vp_assert(vp_ok("DELETE FROM t WHERE b = 'after';") == 1, "the table can be used afterwards");
  vp_close(); vp_cover("end");
}

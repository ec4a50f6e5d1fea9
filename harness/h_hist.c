/* Histories of statements on two tables T(a INT, s VARCHAR(8)) and U(k INT, d DOUBLE), each step any statement of a menu with arbitrary literals, against a list-of-rows model.
   args: [0] mode: 0 contents after every step, 1 results taken before are kept and looked at again, 2 two databases of which every step uses either, 3 memory in use;
   [1] first statement (-1: any); [2] number of statements; [3] rows of T stored first (more than 10: with fixed contents but for the last, so that T fills more than a block); [4] menu (bit mask) */
#include "vp_sql.h"
#include "vp_model.h"
#include <stdarg.h>
#define MAXR 140
struct tab { int n; struct mrow r[MAXR]; };
static struct world { struct database own, *db; struct tab t, u; int v; } W[2]; static int nw = 1;
static struct row *R[MAXR + 60]; static char q[9000];
static struct query_output *Q(struct world *w, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(q, sizeof q, fmt, ap); va_end(ap); vp_note(w == W ? "(first database)" : "(second database)"); vp_note(q); return query_execute(w->db, q); }
#define OK(w, n, ...) do { struct query_output *o_ = Q(w, __VA_ARGS__); vp_assert(o_ && o_->status == ST_OK_EXECUTED, "a valid statement is executed"); vp_assert(o_->n_rows_aff == (size_t)(n), "the affected-row count is that of the model"); query_free(o_); } while (0)
#define ERR(w, ...) do { struct query_output *o_ = Q(w, __VA_ARGS__); vp_assert(o_ && o_->status == ST_ERROR, "an invalid statement is rejected"); vp_assert(o_->error.message[0] != 0, "a rejected statement carries an error message"); query_free(o_); vp_cover("rejected"); } while (0)
static int D(int c) { return (int)vp_concretize((uint64_t)(c != 0)); }
static struct mcell NUL_(void) { struct mcell c; memset(&c, 0, sizeof c); c.nul = 1; return c; }
static struct mcell STR(const char *s) { struct mcell c; memset(&c, 0, sizeof c); strcpy(c.s, s); return c; }
static struct mcell INTC(int64_t i) { struct mcell c; memset(&c, 0, sizeof c); c.i = i; return c; }
static void add(struct tab *t, struct mcell a, struct mcell b) { t->r[t->n].c[0] = a; t->r[t->n].c[1] = b; t->n++; }
static void keep(struct tab *t, const int *del) { int k = 0; for (int i = 0; i < t->n; i++) if (!del[i]) t->r[k++] = t->r[i]; t->n = k; }
static struct table *TB(struct world *w, const char *n) { return database_table_get(w->db, (char *)n); }
static const int TT[2] = {0, 2}, TU[2] = {0, 1};
static void check_tab(struct table *t, const char *pre, const char *a, const char *b, struct tab *m, const int *ty, const char *msg) {
  vp_assert(t != NULL, "the table is there"); int n = vp_rows(t, R, MAXR + 60); vp_assert(n == m->n, msg); char x[16], y[16]; sprintf(x, "%s%s", pre, a); sprintf(y, "%s%s", pre, b); int ca = vp_col(t, x), cb = vp_col(t, y); vp_assert(ca >= 0 && cb >= 0, "the column is there");
  for (int i = 0; i < n; i++) { mc_check(t, R[i], ca, ty[0], &m->r[i].c[0], msg, msg); mc_check(t, R[i], cb, ty[1], &m->r[i].c[1], msg, msg); }
}
static void check(struct world *w) { const char *m = "a table holds what a table model holds after the same statements"; check_tab(TB(w, "T"), "", "a", "s", &w->t, TT, m); check_tab(TB(w, "U"), "", "k", "d", &w->u, TU, m); vp_assert((TB(w, "V") != NULL) == (w->v > 0), "a table exists exactly when it has been created"); if (w->v) vp_assert(vp_rows(TB(w, "V"), R, MAXR) == w->v - 1, m); }
#define NMENU 20
static int del[MAXR], big;
/* a bound to compare with: arbitrary, or, with a large table, one of three values */
static void bound(char *l, struct mcell *c) { if (!big) { mc_lit(l, 0, c); return; } int b[3] = {9, 60, 10 + big - 3}; memset(c, 0, sizeof *c); c->i = b[vp_choose("bound", 3)]; sprintf(l, "%d", (int)c->i); }
static void step(struct world *w, int op) {
  char l[40], l2[40]; struct mcell c, c2; struct tab *t = &w->t; mk_reset(); int n = 0; memset(del, 0, sizeof del);
  switch (op) {
  case 0: mc_lit(l, 0, &c); mc_lit(l2, 2, &c2); OK(w, 1, "INSERT INTO T VALUES (%s, %s);", l, l2); add(t, c, c2); break;
  case 1: mc_lit(l2, 2, &c2); OK(w, 1, "INSERT INTO T (s) VALUES (%s);", l2); add(t, NUL_(), c2); break;
  case 2: mc_lit(l, 0, &c); OK(w, 3, "INSERT INTO T (s, a) VALUES (NULL, %s), ('bb', NULL), ('', 7);", l); add(t, c, NUL_()); add(t, NUL_(), STR("bb")); add(t, INTC(7), STR("")); break;
  case 3: mc_lit(l, 0, &c); OK(w, t->n, "UPDATE T SET a = %s;", l); for (int i = 0; i < t->n; i++) t->r[i].c[0] = c; break;
  case 4: bound(l, &c); mc_lit(l2, 2, &c2); { int hit[MAXR]; struct query_output *o = Q(w, "UPDATE T SET s = %s WHERE a > %s;", l2, l); for (int i = 0; i < t->n; i++) { hit[i] = D(m_cmp(4, &t->r[i].c[0], &c, 0)); n += hit[i]; } vp_assert(o && o->status == ST_OK_EXECUTED && (int)o->n_rows_aff == n, "the affected-row count is that of the model"); query_free(o); for (int i = 0; i < t->n; i++) if (hit[i]) t->r[i].c[1] = c2; } break;
  case 5: mc_lit(l2, 2, &c2); if (big) vp_assume(c2.s[0] == 'b'); { int hit[MAXR]; struct query_output *o = Q(w, "UPDATE T SET a = NULL, s = 'n' WHERE s = %s;", l2); for (int i = 0; i < t->n; i++) { hit[i] = D(m_cmp(0, &t->r[i].c[1], &c2, 2)); n += hit[i]; } vp_assert(o && o->status == ST_OK_EXECUTED && (int)o->n_rows_aff == n, "the affected-row count is that of the model"); query_free(o); for (int i = 0; i < t->n; i++) if (hit[i]) { t->r[i].c[0] = NUL_(); t->r[i].c[1] = STR("n"); } } break;
  case 6: bound(l, &c); { struct query_output *o = Q(w, "DELETE FROM T WHERE a = %s;", l); for (int i = 0; i < t->n; i++) n += del[i] = D(m_cmp(0, &t->r[i].c[0], &c, 0)); vp_assert(o && o->status == ST_OK_EXECUTED && (int)o->n_rows_aff == n, "the affected-row count is that of the model"); query_free(o); keep(t, del); } break;
  case 7: OK(w, t->n, "DELETE FROM T;"); t->n = 0; break;
  case 8: bound(l, &c); { struct query_output *o = Q(w, "DELETE FROM T WHERE s IS NULL OR a <= %s;", l); for (int i = 0; i < t->n; i++) n += del[i] = D(vp_or(t->r[i].c[1].nul, m_cmp(3, &t->r[i].c[0], &c, 0))); vp_assert(o && o->status == ST_OK_EXECUTED && (int)o->n_rows_aff == n, "the affected-row count is that of the model"); query_free(o); keep(t, del); } break;
  case 9: mc_lit(l, 0, &c); ERR(w, "INSERT INTO T VALUES (%s, 'a'), (1, 'much too long');", l); break;
  case 10: ERR(w, "UPDATE T SET a = 5, b = 1;"); break;
  case 11: ERR(w, "DELETE FROM T WHERE a = ;"); break;
  case 12: mc_lit(l, 0, &c); if (big) vp_assume(c.i < 12); mc_lit(l2, 1, &c2); OK(w, 1, "INSERT INTO U VALUES (%s, %s);", l, l2); add(&w->u, c, c2); break;
  case 13: bound(l, &c); { struct query_output *o = Q(w, "DELETE FROM U WHERE k <> %s;", l); for (int i = 0; i < w->u.n; i++) n += del[i] = D(m_cmp(1, &w->u.r[i].c[0], &c, 0)); vp_assert(o && o->status == ST_OK_EXECUTED && (int)o->n_rows_aff == n, "the affected-row count is that of the model"); query_free(o); keep(&w->u, del); } break;
  case 14: bound(l, &c); { static struct tab s; s.n = 0; struct query_output *o = Q(w, "SELECT * FROM T WHERE a >= %s;", l); vp_assert(o && o->status == ST_OK_WITH_RESULTS, "a valid SELECT returns results"); for (int i = 0; i < t->n; i++) if (D(m_cmp(5, &t->r[i].c[0], &c, 0))) s.r[s.n++] = t->r[i]; check_tab(o->results.table, "T.", "a", "s", &s, TT, "a SELECT returns what a table model returns"); query_free(o); } break;
  case 15: { struct query_output *o = Q(w, "SELECT a, COUNT(*) FROM T GROUP BY a;"); vp_assert(o && o->status == ST_OK_WITH_RESULTS, "a valid SELECT returns results"); int rep[MAXR], cnt[MAXR], g = 0, m = vp_rows(o->results.table, R, MAXR), ca = vp_col(o->results.table, "T.a"), cc = vp_col(o->results.table, "COUNT(*)"), used[MAXR] = {0}; vp_assert(ca >= 0 && cc >= 0, "the column is there");
    for (int i = 0; i < t->n; i++) { int k; for (k = 0; k < g; k++) if (D(m_same(&t->r[rep[k]].c[0], &t->r[i].c[0], 0))) break; if (k == g) { rep[g] = i; cnt[g++] = 0; } cnt[k]++; } vp_assert(m == g, "there is one result row for each group");
    for (int k = 0; k < m; k++) { int f = 0; for (int j = 0; j < g && !f; j++) if (!used[j]) { struct mcell x = mc_read(o->results.table, R[k], ca, 0); if (D(m_same(&x, &t->r[rep[j]].c[0], 0))) { f = used[j] = 1; vp_assert(vp_geti(o->results.table, R[k], cc) == cnt[j], "COUNT(*) is the number of rows of the group"); } } vp_assert(f, "each result row is a group of the table"); } query_free(o); } break;
  case 16: { struct query_output *o = Q(w, "SELECT T.s, U.k FROM T JOIN U ON T.a = U.k;"); vp_assert(o && o->status == ST_OK_WITH_RESULTS, "a valid SELECT returns results"); for (int i = 0; i < t->n; i++) for (int j = 0; j < w->u.n; j++) n += D(m_cmp(0, &t->r[i].c[0], &w->u.r[j].c[0], 0)); vp_assert(vp_rows(o->results.table, R, MAXR) == n, "a join returns as many rows as a table model"); query_free(o); } break;
  case 17: if (w->v) ERR(w, "CREATE TABLE V (x INT);"); else { OK(w, 0, "CREATE TABLE V (x INT);"); w->v = 1; } break;
  case 18: vp_note("vacuum of T"); vp_assert(table_vacuum(TB(w, "T")), "vacuum succeeds"); break;
  case 19: if (w->v) { OK(w, 2, "INSERT INTO V VALUES (1), (2);"); w->v += 2; } else ERR(w, "INSERT INTO V VALUES (1), (2);"); break;
  }
}
static int pick(int64_t mask) { int m[NMENU], n = 0; for (int i = 0; i < NMENU; i++) if (mask >> i & 1) m[n++] = i; return m[vp_choose("statement", n)]; }
/* one step of the cursor over a kept result of two columns: row i of n, the integer column ci holding (v, nul) */
static void walk(struct query_output *o, const char *col, int i, int n, struct mcell *c) {
  int k = vp_col(o->results.table, col); vp_assert(k >= 0, "the column is there"); vp_assert(query_cur_step(&o->results) == (i < n ? MIDORIDB_ROW : MIDORIDB_OK), "the cursor of a result visits its rows, whatever happens in between"); if (i < n && !D(c->nul)) vp_assert(query_column_int64(&o->results, k) == c->i, "the cursor of a result visits its rows, whatever happens in between");
}
static void start(struct world *w, int pre) {
  OK(w, 0, "CREATE TABLE T (a INT, s VARCHAR(8));"); OK(w, 0, "CREATE TABLE U (k INT, d DOUBLE);"); struct mcell a, b; char l[40], l2[40];
  if (pre > 10) { static char z[900]; for (int i = 0; i < pre - 1;) { char *p = z; p += sprintf(p, "INSERT INTO T VALUES "); int k; for (k = 0; k < 12 && i < pre - 1; k++, i++) { p += sprintf(p, "%s(%d, '%c%d')", k ? ", " : "", i + 10, 'a' + i % 20, i); struct mcell s; memset(&s, 0, sizeof s); sprintf(s.s, "%c%d", 'a' + i % 20, i); add(&w->t, INTC(i + 10), s); } OK(w, k, "%s;", z); } pre = 1; }
  for (int i = 0; i < pre; i++) { mk_reset(); mc_lit(l, 0, &a); mc_lit(l2, 2, &b); OK(w, 1, "INSERT INTO T VALUES (%s, %s);", l, l2); add(&w->t, a, b); }
  if (nw == 1) { mk_reset(); mc_lit(l, 0, &a); if (big) vp_assume(a.i < 13); OK(w, 1, "INSERT INTO U VALUES (%s, 1.5);", l); b = NUL_(); b.nul = 0; b.d = 1.5; add(&w->u, a, b); }
}
/* two tables with the same rows, stored afresh in a database of their own: how much memory that takes */
static int fresh(struct world *w) {
  static struct database f; struct world x; memset(&x, 0, sizeof x); memset(&f, 0, sizeof f); int b = vp_live(); vp_assert(database_open(&f) == MIDORIDB_OK, "database opens"); x.db = &f; vp_nobind = 1;
  OK(&x, 0, "CREATE TABLE T (a INT, s VARCHAR(8));"); OK(&x, 0, "CREATE TABLE U (k INT, d DOUBLE);"); if (w->v) OK(&x, 0, "CREATE TABLE V (x INT);");
  for (int i = w->t.n; i > 0;) { int k = i >= 10 ? 10 : 1; OK(&x, k, k == 1 ? "INSERT INTO T VALUES (1, 'x');" : "INSERT INTO T VALUES (1, 'x'), (1, 'x'), (1, 'x'), (1, 'x'), (1, 'x'), (1, 'x'), (1, 'x'), (1, 'x'), (1, 'x'), (1, 'x');"); i -= k; } for (int i = 0; i < w->u.n; i++) OK(&x, 1, "INSERT INTO U VALUES (1, 1.5);"); for (int i = 1; i < w->v; i++) OK(&x, 1, "INSERT INTO V VALUES (1);");
  int r = vp_live() - b; database_close(&f); vp_assert(vp_live() == b, "closing the database releases all memory"); vp_nobind = 0; return r;
}
void vp_main(void) {
  int mode = (int)vp_arg(0), first = (int)vp_arg(1), n = (int)vp_arg(2), pre = (int)vp_arg(3), base = vp_live(); int64_t mask = vp_arg(4); big = pre > 10 ? pre : 0; mk_fixlen = 1; if (mode == 2) nw = 2;
  for (int k = 0; k < nw; k++) { W[k].db = &W[k].own; vp_assert(database_open(W[k].db) == MIDORIDB_OK, "database opens"); } for (int k = 0; k < nw; k++) start(&W[k], mode == 2 ? 1 : pre);
  struct query_output *o1 = NULL, *o2 = NULL; static struct tab s1; int j1 = 0; static int64_t jk[MAXR]; static struct mcell js[MAXR]; int opened = vp_live();
  if (mode == 1) { o1 = Q(W, "SELECT * FROM T;"); vp_assert(o1 && o1->status == ST_OK_WITH_RESULTS, "a valid SELECT returns results"); s1 = W->t; o2 = Q(W, "SELECT U.k, U.d, T.s FROM T, U;"); vp_assert(o2 && o2->status == ST_OK_WITH_RESULTS, "a valid SELECT returns results"); for (int i = 0; i < W->t.n; i++) { jk[j1] = W->u.r[0].c[0].i; js[j1++] = W->t.r[i].c[1]; } }
  for (int i = 0; i < n; i++) {
    struct world *w = nw == 2 ? &W[vp_choose("database", 2)] : W; if (mode == 1 && !big) { struct mcell z; memset(&z, 0, sizeof z); z.i = i < j1 ? jk[i] : 0; walk(o1, "T.a", i, s1.n, &s1.r[i].c[0]); walk(o2, "U.k", i, j1, &z); } int op = i == 0 && first >= 0 ? first : pick(mask), l0 = vp_live(), r0 = w->t.n + w->u.n + w->v, v0 = w->v; step(w, op);
    if (mode == 3) { int d = vp_live() - l0, r1 = w->t.n + w->u.n + w->v; int query = op >= 14 && op <= 16, rej = op >= 9 && op <= 11; if (query || rej || ((op == 17 || op == 19) && v0 == w->v)) vp_assert(d == 0, "a query or a rejected statement keeps no memory once its result is released"); else if (op == 17) vp_cover("created"); else if (r1 > r0) vp_assert(d <= r1 - r0 + 3, "an insertion takes memory for its rows only"); else vp_assert(d <= 0, "a statement that stores nothing new takes no memory"); }
    for (int k = 0; k < nw; k++) if (mode != 2 || k != w - W || i == n - 1) check(&W[k]);
  }
  if (mode == 1) {
    if (vp_choose("close", 2)) { database_close(W->db); vp_cover("result outlives the database"); }
    check_tab(o1->results.table, "T.", "a", "s", &s1, TT, "a result stays as it was when the query was executed"); struct table *u = o2->results.table; int m = vp_rows(u, R, MAXR), ck = vp_col(u, "U.k"), cs = vp_col(u, "T.s"); vp_assert(m == j1 && ck >= 0 && cs >= 0, "a result stays as it was when the query was executed"); for (int i = 0; i < m; i++) { vp_assert(vp_geti(u, R[i], ck) == jk[i], "a result stays as it was when the query was executed"); mc_check(u, R[i], cs, 2, &js[i], "a result stays as it was when the query was executed", "a result stays as it was when the query was executed"); }
    if (big) for (int i = 0; i <= s1.n; i++) { struct mcell z; memset(&z, 0, sizeof z); z.i = i < j1 ? jk[i] : 0; walk(o2, "U.k", i, j1, &z); walk(o1, "T.a", i, s1.n, &s1.r[i].c[0]); }
    query_free(o1); query_free(o2); if (W->db->tables) check(W);
  }
  if (mode == 3) { vp_assert(table_vacuum(TB(W, "T")) && table_vacuum(TB(W, "U")), "vacuum succeeds"); check(W); vp_assert(vp_live() - base <= fresh(W) + 2, "after a vacuum the tables take no more memory than freshly stored ones"); }
  (void)opened; for (int k = 0; k < nw; k++) if (W[k].db->tables) { if (nw == 2 && k == 0) { database_close(W[0].db); check(&W[1]); vp_assert(database_open(W[0].db) == MIDORIDB_OK, "database opens"); vp_assert(!database_table_exists(W[0].db, "T") && !database_table_exists(W[0].db, "U"), "a database opened anew is empty"); ERR(&W[0], "INSERT INTO T VALUES (1, 'a');"); OK(&W[0], 0, "CREATE TABLE T (z VARCHAR(5), y INT, x INT);"); OK(&W[0], 1, "INSERT INTO T VALUES ('q', 1, 2);"); check(&W[1]); database_close(W[0].db); check(&W[1]); } else database_close(W[k].db); }
  vp_assert(vp_live() == base, "closing the database releases all memory"); vp_cover("end");
}

/* SQL-level harness helpers: statements are concrete text, their placeholder literals stand for symbolic values.
 *   integer literal 90000000+k  -> vpI[k]        (k < 64)
 *   float literal   90000.5+k   -> vpD[k]        (k < 64)
 *   string literal  'vpsK'      -> vpS[K]        (K is a digit)
 *   date literal    '2000-01-0K' (after semantic checks) -> vpT[K], and the same with ' 00:00:00' */
#ifndef VP_SQL_H
#define VP_SQL_H
#include <engine/query.h>
#include <engine/database.h>
#include <primitive/row.h>
#include <parser/ast.h>
#include <parser/semantic.h>
#include "vp.h"
extern int64_t vpI[64]; extern double vpD[64]; extern char vpS[10][64]; extern int vpS_on[10]; extern time_t vpT[10]; extern int vpT_on[10];
extern int vp_lexfault, vp_nobind;
#define I(k) "9000000" #k
struct database *vp_db(void);
void vp_open(void);
void vp_close(void);
struct query_output *vp_q(const char *fmt, ...);        /* executes, whatever the outcome */
size_t vp_ok(const char *fmt, ...);                     /* must be executed; returns rows affected */
void vp_err(const char *fmt, ...);                      /* must be rejected with a message */
struct table *vp_tbl(const char *name);
int vp_rows(struct table *t, struct row **out, int max); /* live rows in storage order */
int vp_col(struct table *t, const char *name);
int vp_isnull(struct table *t, struct row *r, int col);
int64_t vp_geti(struct table *t, struct row *r, int col);
double vp_getd(struct table *t, struct row *r, int col);
char *vp_gets(struct table *t, struct row *r, int col);
/* a deleted row among the others: inserted before a row, deleted once all rows are there */
#define vp_gap(tbl, idcol) vp_assert(vp_ok("INSERT INTO %s (%s) VALUES (7654321);", tbl, idcol) == 1, "one row is inserted")
#define vp_gaps_done(tbl, idcol, n) vp_assert(vp_ok("DELETE FROM %s WHERE %s = 7654321;", tbl, idcol) == (size_t)(n), "the rows with that id are deleted")
#endif

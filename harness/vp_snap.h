/* A picture of a table's rows (place and content), to show that a statement had no effect on it. */
#ifndef VP_SNAP_H
#define VP_SNAP_H
#include <string.h>
struct snap { struct row *r[8]; int n, cols; unsigned char bytes[8][256], str[8][4][48]; int ns; size_t z; };
static void snap(struct table *t, struct snap *s) { memset(s, 0, sizeof *s); s->n = vp_rows(t, s->r, 8); s->cols = t->column_count; s->z = table_calc_row_size(t); vp_assert(s->z <= 256 && s->n <= 8, "snapshot fits"); for (int i = 0; i < s->n; i++) { memcpy(s->bytes[i], s->r[i], s->z); s->ns = 0; size_t off = 0; for (int c = 0; c < t->column_count; c++) { struct column *k = &t->columns[c]; if (k->type == CT_VARCHAR && s->ns < 4) { memcpy(s->str[i][s->ns], *(char **)(s->r[i]->data + off), k->precision < 48 ? k->precision : 48); s->ns++; } off += table_calc_column_space(k); } } }
static int same(struct table *t, struct snap *a) { struct snap b; snap(t, &b); if (a->n != b.n || a->cols != b.cols || a->z != b.z) return 0; for (int i = 0; i < a->n; i++) { if (a->r[i] != b.r[i]) return 0; int e = 1; for (size_t k = 0; k < a->z; k++) e = vp_and(e, a->bytes[i][k] == b.bytes[i][k]); for (int c = 0; c < a->ns; c++) for (size_t k = 0; k < 48; k++) e = vp_and(e, a->str[i][c][k] == b.str[i][c][k]); if (!e) return 0; } return 1; }
/* what a table holds, wherever it is stored */
struct pic { int n, cols; char nul[12][12]; int64_t v[12][12]; char s[12][12][24], nm[12][24]; int ty[12]; };
static void pic(struct table *t, struct pic *p) { static struct row *r[12]; memset(p, 0, sizeof *p); p->n = vp_rows(t, r, 12); p->cols = t->column_count; vp_assert(p->n <= 12 && p->cols <= 12, "picture fits"); for (int c = 0; c < p->cols; c++) { struct column *k = &t->columns[c]; strncpy(p->nm[c], k->name, 23); p->ty[c] = k->type | k->nullable << 8 | k->unique << 9 | k->primary_key << 10 | k->indexed << 11 | k->auto_inc << 12 | k->precision << 13; } for (int i = 0; i < p->n; i++) { size_t off = 0; for (int c = 0; c < p->cols; c++) { struct column *k = &t->columns[c]; size_t z = table_calc_column_space(k); if (vp_isnull(t, r[i], c)) p->nul[i][c] = 1; else if (k->type == CT_VARCHAR) strncpy(p->s[i][c], *(char **)(r[i]->data + off), 23); else memcpy(&p->v[i][c], r[i]->data + off, z); off += z; } } }
static int alike(struct table *t, struct pic *a) { static struct pic b; pic(t, &b); if (a->n != b.n || a->cols != b.cols || memcmp(a->nm, b.nm, sizeof b.nm) || memcmp(a->ty, b.ty, sizeof b.ty) || memcmp(a->nul, b.nul, sizeof b.nul)) return 0; int e = 1;
  for (int i = 0; i < a->n; i++) for (int c = 0; c < a->cols; c++) { if (a->nul[i][c]) continue; e = vp_and(e, a->v[i][c] == b.v[i][c]); if (b.ty[c] == -1) continue; for (int k = 0; k < 24; k++) e = vp_and(e, a->s[i][c][k] == b.s[i][c][k]); } return e; }
/* a statement that must be rejected with a message and without any effect on t1, t2 */
static void rejected(struct table *t1, struct table *t2, const char *why) {
  extern char vp_stmt[]; struct snap a, b; snap(t1, &a); if (t2) snap(t2, &b); size_t nt = vp_db()->tables->count; int live = vp_live();
  struct query_output *o = vp_q("%s", vp_stmt); vp_assert(o != NULL && o->status == ST_ERROR, why); vp_assert(o->error.message[0] != 0, "a rejected statement carries an error message"); query_free(o);
  vp_assert(same(t1, &a) && (!t2 || same(t2, &b)) && vp_db()->tables->count == nt, "a rejected statement leaves the database as it was"); vp_assert(vp_live() == live, "a rejected statement keeps no memory"); vp_cover("rejected");
}
static void accepted(const char *why) { extern char vp_stmt[]; struct query_output *o = vp_q("%s", vp_stmt); vp_assert(o != NULL && o->status != ST_ERROR, why); vp_assert(o->error.message[0] == 0, "an accepted statement carries no error message"); query_free(o); vp_cover("accepted"); }
static void verdict(int valid, struct table *t1, struct table *t2, const char *yes, const char *no) { if (valid) accepted(yes); else rejected(t1, t2, no); }
char vp_stmt[12000];
#endif

/* Row storage of one table against a list model.
 * args: [0] integer columns, [1] 1: a VARCHAR column after the first, [2] rows inserted first, [3] symbolic operations, [4] operations allowed (bit mask:
 * 1 insert, 2 delete, 4 update, 8 vacuum, 16 add a column, 32 remove a column, 64 add a VARCHAR column, 128 refused requests), [5] 1: first delete an arbitrary subset of the rows and vacuum. */
#include <primitive/table.h>
#include <primitive/row.h>
#include <primitive/column.h>
#include "vp.h"
#include "vp_sql.h"
#define MAXR 40
#define SLEN 6
struct m { int64_t v[2]; int nul[3]; char s[SLEN]; };
static struct m M[MAXR]; static int n; static struct table *t; static int has_s, serial;
static int ca, cz, cs; /* current positions of the observed columns: first int, last int, VARCHAR; -1 removed */
static void addcol(const char *nm, enum COLUMN_TYPE ty, int prec) { struct column c; memset(&c, 0, sizeof c); strcpy(c.name, nm); c.type = ty; c.precision = prec; c.nullable = true; int k = t->column_count; vp_assert(table_add_column(t, &c), "a new column is accepted"); vp_assert(t->column_count == k + 1, "the column count grows by one"); }
static size_t offs(int col) { size_t o = 0; for (int i = 0; i < col; i++) o += t->columns[i].type == CT_VARCHAR ? 8 : (size_t)t->columns[i].precision; return o; }
static char rowbuf[4096] __attribute__((aligned(8))); static char sbuf[SLEN];
static struct row *mk(struct m *x) { /* fresh arbitrary content */
  struct row *r = (struct row *)rowbuf; memset(rowbuf, 0, sizeof rowbuf); memset(x, 0, sizeof *x);
  unsigned nb = (unsigned)vp_range("nulls", 0, 3); x->nul[0] = nb & 1; x->nul[1] = (nb >> 1) & 1; x->nul[2] = has_s && cs >= 0 && serial % 3 == 0 ? vp_choose("snull", 2) : 0; serial++;
  x->v[0] = vp_i64("a"); x->v[1] = vp_i64("z");
  if (ca >= 0) { memcpy(r->data + offs(ca), &x->v[0], 8); r->null_bitmap[ca / 8] |= (char)(x->nul[0] << (ca % 8)); }
  if (cz >= 0) { memcpy(r->data + offs(cz), &x->v[1], 8); r->null_bitmap[cz / 8] |= (char)(x->nul[1] << (cz % 8)); }
  if (cs >= 0) { if (!x->nul[2]) { vp_bytes(x->s, SLEN - 1, "s"); memcpy(sbuf, x->s, SLEN); char *p = sbuf; memcpy(r->data + offs(cs), &p, 8); } else r->null_bitmap[cs / 8] |= (char)(1 << (cs % 8)); }
  static char zs[SLEN]; for (int c = 0; c < t->column_count; c++) if (c != cs && t->columns[c].type == CT_VARCHAR) { char *p = zs; memcpy(r->data + offs(c), &p, 8); }
  return r;
}
static size_t rsz(void) { return table_calc_row_size(t); }
static struct datablock *fb; static size_t fo;
static struct row *nth(int k) { struct list_head *p; int i = 0; list_for_each(p, t->datablock_head) { struct datablock *b = list_entry(p, struct datablock, head); for (size_t q = 0; (q + 1) * rsz() <= DATABLOCK_PAGE_SIZE; q++) { struct row *r = (struct row *)&b->data[q * rsz()]; if (!r->flags.empty && !r->flags.deleted && i++ == k) { fb = b; fo = q * rsz(); return r; } } } return NULL; }
static void verify(void) {
  static struct row *R[MAXR]; int k = vp_rows(t, R, MAXR); vp_assert(k == n, "the table holds exactly the live rows"); if (k > n) k = n;
  for (int i = 0; i < k; i++) {
    if (ca >= 0) vp_assert(vp_and(vp_isnull(t, R[i], ca) == M[i].nul[0], vp_geti(t, R[i], ca) == M[i].v[0]), "a live row keeps its first column");
    if (cz >= 0) vp_assert(vp_and(vp_isnull(t, R[i], cz) == M[i].nul[1], vp_geti(t, R[i], cz) == M[i].v[1]), "a live row keeps its last column");
    if (cs >= 0) { vp_assert(vp_isnull(t, R[i], cs) == M[i].nul[2], "a live row keeps the NULL mark of its string column"); if (!M[i].nul[2]) vp_assert(memcmp(vp_gets(t, R[i], cs), M[i].s, SLEN) == 0, "a live row keeps its string"); }
    for (int c = 0; c < t->column_count; c++) if (c != ca && c != cz && c != cs && c < 100) vp_assert(!vp_isnull(t, R[i], c), "a column that was not NULL does not become NULL");
  }
}
static int has_add;
static void ins(void) { struct m x; struct row *r = mk(&x); vp_assert(table_insert_row(t, r, rsz()), "a row is inserted"); M[n++] = x; }
static void del(int k) { vp_assert(nth(k) != NULL, "the row is there"); vp_assert(table_delete_row(t, fb, fo), "a row is deleted"); for (int i = k; i + 1 < n; i++) M[i] = M[i + 1]; n--; }
static int pick(void) { return n > 3 ? (vp_choose("which", 3) == 0 ? 0 : vp_choose("mid", 2) ? n - 1 : n / 2) : (int)vp_concretize((uint64_t)vp_range("k", 0, n - 1)); }
static void full(void) { /* the column limit */
  char nm[16]; for (int i = 0; i < 128; i++) { snprintf(nm, sizeof nm, "c%d", i); if (i == 0) ca = 0; if (i == 127) cz = 127; addcol(nm, CT_INTEGER, 8); }
  struct column c; memset(&c, 0, sizeof c); strcpy(c.name, "extra"); c.type = CT_INTEGER; c.precision = 8; vp_assert(!table_add_column(t, &c) && t->column_count == 128, "no more than 128 columns are accepted");
  for (int i = 0; i < 4; i++) ins(); verify(); struct column k = t->columns[0]; vp_assert(table_rem_column(t, &k), "a column is removed"); ca = -1; cz = 126; verify(); ins(); verify(); addcol("extra", CT_INTEGER, 8); verify(); ins(); verify();
}
void vp_main(void) {
  int base = vp_live(); t = table_init("T"); vp_assert(t != NULL, "the table is created"); int C = (int)vp_arg(0); has_s = (int)vp_arg(1);
  ca = cz = cs = -1; char nm[16];
  if (C == 128) { full(); goto out; }
  for (int i = 0; i < C; i++) { snprintf(nm, sizeof nm, "c%d", i); if (i == 0) ca = t->column_count; if (i == C - 1) cz = t->column_count; addcol(nm, CT_INTEGER, 8); if (i == 0 && has_s) { cs = t->column_count; addcol("s", CT_VARCHAR, SLEN); } }
  for (int i = 0; i < vp_arg(2); i++) ins();
  verify();
  if (vp_arg(5)) { int R = n; for (int i = R - 1; i >= 0; i--) if (vp_choose("del", 2)) del(i); verify(); vp_assert(table_vacuum(t), "the table is vacuumed"); verify(); vp_cover("vacuumed"); }
  long mask = vp_arg(4);
  for (int i = 0; i < vp_arg(3); i++) {
    int ops[8], no = 0; for (int o = 0; o < 8; o++) if ((mask >> o) & 1) { if ((o == 1 || o == 2) && n == 0) continue; if (o == 5 && t->column_count < 2) continue; ops[no++] = o; }
    int op = ops[vp_choose("op", no)];
    if (op == 0) ins(); else if (op == 1) { del(pick()); vp_cover("deleted"); }
    else if (op == 2) { int k = pick(); struct m x; struct row *r = mk(&x); nth(k); vp_assert(table_update_row(t, fb, fo, r, rsz()), "a row is updated"); M[k] = x; vp_cover("updated"); }
    else if (op == 3) { vp_assert(table_vacuum(t), "the table is vacuumed"); vp_cover("vacuumed"); }
    else if (op == 4) { snprintf(nm, sizeof nm, "x%d", has_add++); addcol(nm, CT_INTEGER, 8); vp_cover("column added"); }
    else if (op == 6) { snprintf(nm, sizeof nm, "x%d", has_add++); addcol(nm, CT_VARCHAR, SLEN); vp_cover("column added"); }
    else if (op == 7) { int k = t->column_count; struct column c; memset(&c, 0, sizeof c); c.type = CT_INTEGER; c.precision = 8;
      int w = vp_choose("refused", 3); if (w == 0) { strcpy(c.name, t->columns[vp_choose("dup", 2) ? k - 1 : 0].name); vp_assert(!table_add_column(t, &c), "a duplicate column is refused"); }
      else if (w == 1) { strcpy(c.name, "nope"); c.precision = (int)vp_range("prec", -8, 0); vp_assert(!table_add_column(t, &c), "a column without space is refused"); }
      else { strcpy(c.name, "nope"); vp_assert(!table_rem_column(t, &c), "removing an unknown column is refused"); }
      vp_assert(!table_insert_row(t, (struct row *)rowbuf, rsz() + (size_t)vp_range("len", 1, 100)) && !table_insert_row(t, NULL, rsz()) && !table_insert_row(NULL, (struct row *)rowbuf, rsz()), "a malformed insert is refused");
      vp_assert(t->column_count == k, "a refused request leaves the columns alone"); vp_cover("refused"); }
    else { /* remove the first, the last or the string column */
      int w = vp_choose("col", 3), c = w == 0 ? ca : w == 1 ? cz : cs; if (c < 0) c = t->column_count - 1; struct column cc = t->columns[c]; int k = t->column_count; vp_assert(table_rem_column(t, &cc), "a column is removed"); vp_assert(t->column_count == k - 1, "the column count shrinks by one");
      if (c == ca) ca = -1; else if (ca > c) ca--; if (c == cz) cz = -1; else if (cz > c) cz--; if (c == cs) cs = -1; else if (cs > c) cs--; vp_cover("column removed"); }
    verify();
  }
out:
  vp_assert(table_destroy(&t), "the table is destroyed"); vp_assert(vp_live() == base, "no memory is leaked"); vp_cover("end");
}

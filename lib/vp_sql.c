/* SQL-level harness helpers (see vp_sql.h). Compiled into the encoding and into the native replay alike. */
#include "vp_sql.h"
#include <string.h>
#include <stdarg.h>
int64_t vpI[64]; double vpD[64]; char vpS[10][64]; int vpS_on[10]; time_t vpT[10]; int vpT_on[10];
bool __real_semantic_analyse(struct database *db, struct ast_node *node, char *e, size_t n);
struct vt { bool is_name, is_intnum, is_str, is_approxnum, is_bool, is_null; };
struct view { int64_t *i; char *s; double *d; time_t *t; struct vt v; };
static int view(struct ast_node *n, struct view *o) {
  switch (n->node_type) {
#define V(T) { struct T *x = (struct T *)n; o->i = &x->int_val; o->s = x->str_val; o->d = &x->double_val; o->t = &x->date_val; o->v.is_intnum = x->value_type.is_intnum; o->v.is_str = x->value_type.is_str; o->v.is_approxnum = x->value_type.is_approxnum; return 1; }
  case AST_TYPE_INS_EXPRVAL: V(ast_ins_exprval_node)
  case AST_TYPE_DEL_EXPRVAL: V(ast_del_exprval_node)
  case AST_TYPE_UPD_EXPRVAL: V(ast_upd_exprval_node)
  case AST_TYPE_SEL_EXPRVAL: V(ast_sel_exprval_node)
#undef V
  default: return 0; }
}
int vp_nobind; /* set by harnesses whose literals stand for themselves */
static void bind(struct ast_node *n, int after) {
  struct view v; struct list_head *p;
  if (view(n, &v)) {
    if (!after && v.v.is_intnum && !vp_is_symbolic((uint64_t)*v.i) && *v.i >= 90000000 && *v.i < 90000064) *v.i = vpI[*v.i - 90000000];
    else if (!after && v.v.is_approxnum) { uint64_t b; memcpy(&b, v.d, 8); if (!vp_is_symbolic(b) && *v.d >= 90000.5 && *v.d < 90064) *v.d = vpD[(int)(*v.d - 90000.5)]; }
    else if (v.v.is_str && !vp_is_symbolic((uint64_t)(unsigned char)v.s[0])) { char *s = v.s;
      if (!after && s[0] == 'v' && s[1] == 'p' && s[2] == 's' && s[3] >= '0' && s[3] <= '9' && !s[4] && vpS_on[s[3] - '0']) memcpy(s, vpS[s[3] - '0'], 64);
      else if (after && s[0] == '2' && !strncmp(s, "2000-01-0", 9) && (!s[10] || !strcmp(s + 10, " 00:00:00")) && vpT_on[s[9] - '0']) *v.t = vpT[s[9] - '0'];
    }
  }
  if (n->node_children_head) list_for_each(p, n->node_children_head) bind(list_entry(p, struct ast_node, head), after);
}
bool __wrap_semantic_analyse(struct database *db, struct ast_node *node, char *e, size_t n) {
  if (vp_nobind) return __real_semantic_analyse(db, node, e, n);
  bind(node, 0); bool r = __real_semantic_analyse(db, node, e, n); if (r) bind(node, 1); return r;
}
/* flex gives up (YY_FATAL_ERROR) when it cannot set up its scan buffer: no allocation fails there, or, if a harness asks for it, none but those */
int vp_lexfault; void *__real_yy_scan_string(const char *s, void *sc);
void *__wrap_yy_scan_string(const char *s, void *sc) { vp_fault_hold(!vp_lexfault); void *r = __real_yy_scan_string(s, sc); vp_fault_hold(vp_lexfault); return r; }
static struct database db; static int base_live;
struct database *vp_db(void) { return &db; }
void vp_open(void) { memset(&db, 0, sizeof db); base_live = vp_live(); vp_assert(database_open(&db) == MIDORIDB_OK, "database opens"); }
void vp_close(void) { database_close(&db); vp_assert(vp_live() == base_live, "closing the database releases all memory"); }
static char buf[16384];
static struct query_output *run(const char *fmt, va_list ap) { char *q = buf; vsnprintf(q, sizeof buf, fmt, ap); vp_note(q); struct query_output *o = query_execute(&db, q); if (o && o->status == ST_ERROR) vp_note(o->error.message); return o; }
struct query_output *vp_q(const char *fmt, ...) { va_list ap; va_start(ap, fmt); struct query_output *o = run(fmt, ap); va_end(ap); return o; }
size_t vp_ok(const char *fmt, ...) { va_list ap; va_start(ap, fmt); struct query_output *o = run(fmt, ap); va_end(ap); vp_assert(o && o->status == ST_OK_EXECUTED, "a valid statement is executed"); size_t n = o->n_rows_aff; query_free(o); return n; }
void vp_err(const char *fmt, ...) { va_list ap; va_start(ap, fmt); struct query_output *o = run(fmt, ap); va_end(ap); vp_assert(o && o->status == ST_ERROR, "an invalid statement is rejected"); vp_assert(o->error.message[0] != 0, "a rejected statement carries an error message"); query_free(o); }
struct table *vp_tbl(const char *name) { return database_table_get(&db, (char *)name); }
int vp_rows(struct table *t, struct row **out, int max) {
  int n = 0; struct list_head *p; size_t z = table_calc_row_size(t);
  list_for_each(p, t->datablock_head) { struct datablock *b = list_entry(p, struct datablock, head);
    for (size_t i = 0; i < DATABLOCK_PAGE_SIZE / z; i++) { struct row *r = (struct row *)&b->data[i * z]; if (!r->flags.empty && !r->flags.deleted) { if (n < max) out[n] = r; n++; } } }
  return n;
}
static size_t off(struct table *t, int col) { size_t o = 0; for (int i = 0; i < col; i++) o += table_calc_column_space(&t->columns[i]); return o; }
int vp_col(struct table *t, const char *name) { for (int i = 0; i < t->column_count; i++) if (!strcmp(t->columns[i].name, name)) return i; return -1; }
int vp_isnull(struct table *t, struct row *r, int col) { (void)t; return (r->null_bitmap[col / 8] >> (col % 8)) & 1; }
int64_t vp_geti(struct table *t, struct row *r, int col) { int64_t v; if (t->columns[col].precision == 1) return r->data[off(t, col)]; memcpy(&v, r->data + off(t, col), 8); return v; }
double vp_getd(struct table *t, struct row *r, int col) { double v; memcpy(&v, r->data + off(t, col), 8); return v; }
char *vp_gets(struct table *t, struct row *r, int col) { char *v; memcpy(&v, r->data + off(t, col), 8); return v; }

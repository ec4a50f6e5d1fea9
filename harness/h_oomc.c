/* Failing allocations in the containers and in table storage: an operation that reports failure has no effect, one that reports success took effect, nothing leaks. args: [0] structure [1] allocations that fail [2] table: 1 a VARCHAR column is added, 2 rows that fill several blocks. */
#include "vp_sql.h"
#include "vp_snap.h"
#include <datastructure/btree.h>
#include <datastructure/hashtable.h>
#include <datastructure/vector.h>
#include <datastructure/queue.h>
#include <datastructure/stack.h>
static const char *W = "an operation that runs out of memory has no effect, any other takes effect";
static uint64_t K[40]; static int has[40];
static void bt_check(struct btree_head *h) { for (int i = 0; i < 26; i++) vp_assert((btree_lookup(h, &K[i]) != NULL) == has[i], W); }
static void bt(void) {
  int F = (int)vp_arg(1); for (int i = 0; i < 40; i++) K[i] = i; vp_fault_arm(F); struct btree_head *h = btree_init(2, btree_cmp_ul); if (!h) { vp_cover("refused"); return; }
  static const int order[26] = { 7, 3, 11, 1, 5, 9, 13, 0, 2, 4, 6, 8, 10, 12, 14, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15 };
  for (int i = 0; i < 26; i++) { int rc = btree_insert(h, &K[order[i]], &K[order[i]]); if (rc == 0) has[order[i]] = 1; else vp_cover("refused"); }
  bt_check(h);
  static const int out[26] = { 7, 0, 14, 25, 3, 20, 11, 22, 1, 9, 13, 5, 17, 24, 2, 4, 15, 6, 8, 18, 10, 12, 21, 23, 16, 19 };
  for (int i = 0; i < 26; i++) { int rc = btree_remove(h, &K[out[i]]); if (rc == 0) has[out[i]] = 0; else vp_cover("refused"); if (i % 4 == 3 || rc) bt_check(h); }
  int k = vp_fault_disarm(); vp_assert(k <= F, "faults"); for (int i = 0; i < 5; i++) { vp_assert(btree_insert(h, &K[30 + i], &K[30 + i]) == 0, "usable afterwards"); } for (int i = 0; i < 5; i++) vp_assert(btree_lookup(h, &K[30 + i]) == &K[30 + i], "usable afterwards"); bt_check(h); btree_destroy(&h); vp_cover("survived");
}
static void ht(void) {
  struct hashtable t; static int in[24]; vp_fault_arm((int)vp_arg(1)); if (!hashtable_init(&t, &hashtable_str_compare, &hashtable_str_hash)) { vp_cover("refused"); return; } size_t n = 0;
  for (int i = 0; i < 20; i++) { char key[8] = { 'k', 'a' + i, 0 }; int v = i * 3; if (hashtable_put(&t, key, 3, &v, sizeof v)) { in[i] = 1; n++; } else vp_cover("refused"); vp_assert(t.count == n, W); }
  int k = vp_fault_disarm(); (void)k;
  for (int i = 0; i < 20; i++) { char key[8] = { 'k', 'a' + i, 0 }; struct hashtable_value *v = hashtable_get(&t, key, 3); vp_assert((v != NULL) == in[i] && (!v || *(int *)v->content == i * 3), W); }
  char nk[4] = "zz"; int nv = 77; vp_assert(hashtable_put(&t, nk, 3, &nv, sizeof nv), "usable afterwards"); struct hashtable_entry *e = hashtable_remove(&t, nk, 3); vp_assert(e && *(int *)e->value.content == 77, "usable afterwards"); hashtable_free_entry(e);
  for (int i = 0; i < 20; i++) { char key[8] = { 'k', 'a' + i, 0 }; e = hashtable_remove(&t, key, 3); vp_assert((e != NULL) == in[i], W); if (e) hashtable_free_entry(e); }
  hashtable_free(&t); vp_cover("survived");
}
static void vec(void) {
  struct vector v; static char model[400]; size_t n = 0; vp_fault_arm((int)vp_arg(1)); if (!vector_init(&v)) { vp_cover("refused"); return; }
  for (int i = 0; i < 14; i++) { char b[40]; size_t z = 1 + (i * 7) % 23; for (size_t j = 0; j < z; j++) b[j] = (char)(i * 5 + j); if (vector_push(&v, b, z)) { memcpy(model + n, b, z); n += z; } else vp_cover("refused"); vp_assert(v.len == n && v.data && memcmp(v.data, model, n) == 0, W); }
  vp_fault_disarm(); vp_assert(vector_push(&v, "tail", 5) && v.len == n + 5 && memcmp(v.data + n, "tail", 5) == 0 && memcmp(v.data, model, n) == 0, "usable afterwards"); vector_free(&v); vp_cover("survived");
}
static void que(void) {
  struct queue q; int m[24], h = 0, n = 0; vp_fault_arm((int)vp_arg(1)); if (!queue_init(&q)) { vp_cover("refused"); return; }
  for (int i = 0; i < 16; i++) { if (queue_offer(&q, &i, sizeof i)) m[n++] = i; else vp_cover("refused"); vp_assert(queue_length(&q) == (size_t)(n - h), W); if (i % 5 == 4 && h < n) { int *p = queue_poll(&q); vp_assert(p && *p == m[h], W); h++; free(p); } for (int j = h; j < n; j++) vp_assert(*(int *)queue_peek_pos(&q, j - h) == m[j], W); }
  vp_fault_disarm(); int x = 99; vp_assert(queue_offer(&q, &x, sizeof x) && *(int *)queue_peek_pos(&q, queue_length(&q) - 1) == 99, "usable afterwards"); queue_free(&q); vp_cover("survived");
}
static void stk(void) {
  struct stack s; int m[24], n = 0; vp_fault_arm((int)vp_arg(1)); if (!stack_init(&s)) { vp_cover("refused"); return; }
  for (int i = 0; i < 16; i++) { bool ok; if (i % 4 == 3) { int *p = malloc(sizeof i); if (!p) continue; *p = i; ok = stack_unsafe_push(&s, p); if (!ok) free(p); } else ok = stack_push(&s, &i, sizeof i); if (ok) m[n++] = i; else vp_cover("refused"); if (i % 6 == 5 && n) { int *p = (int *)stack_pop(&s); vp_assert(*p == m[--n], W); free(p); } vp_assert(stack_empty(&s) == (n == 0), W); for (int j = 0; j < n; j++) vp_assert(*(int *)stack_peek_pos(&s, j) == m[j], W); }
  vp_fault_disarm(); int x = 99; vp_assert(stack_push(&s, &x, sizeof x) && *(int *)stack_peek(&s) == 99, "usable afterwards"); stack_free(&s); vp_cover("survived");
}
/* table storage: rows in, out and moved about, columns added and removed */
static struct { int live; int64_t a; char s[8]; int snul; int64_t x; int xnul; } R[40];
static struct table *T; static int pad, nr;
static void setcol(struct column *c, const char *n, enum COLUMN_TYPE ty, int prec) { memset(c, 0, sizeof *c); strcpy(c->name, n); c->type = ty; c->precision = prec; c->nullable = true; }
static void tchk(int nr, int hasx, int hass) {
  static struct row *r[40]; int n = vp_rows(T, r, 40), k = 0; vp_assert(T->column_count == 1 + hass + hasx + pad, W);
  for (int i = 0; i < nr; i++) if (R[i].live) { vp_assert(k < n && vp_geti(T, r[k], 0) == R[i].a, W); if (hass) { vp_assert(vp_isnull(T, r[k], 1) == R[i].snul, W); if (!R[i].snul) vp_assert(strcmp(vp_gets(T, r[k], 1), R[i].s) == 0, W); } if (hasx) { int c = 1 + hass + pad; vp_assert(vp_isnull(T, r[k], c) == R[i].xnul, W); if (!R[i].xnul) vp_assert(vp_geti(T, r[k], c) == R[i].x, W); } k++; }
  vp_assert(k == n, W);
}
static void tins(int i) { static char b[2000]; struct row *row = (struct row *)b; memset(b, 0, sizeof b); char s[600] = { 0 }; char *p = s; sprintf(s, "s%d", i); int64_t a = i * 11; memcpy(row->data, &a, 8); memcpy(row->data + 8, &p, sizeof p); int nul = i % 3 == 2; if (nul) bit_set(row->null_bitmap, 1, sizeof row->null_bitmap); if (table_insert_row(T, row, table_calc_row_size(T))) { R[nr].live = 1; R[nr].a = a; R[nr].snul = nul; strcpy(R[nr].s, s); nr++; } else vp_cover("refused"); }
static void del(int idx) { struct list_head *p; int k = 0; size_t z = table_calc_row_size(T); list_for_each(p, T->datablock_head) { struct datablock *b = list_entry(p, struct datablock, head); for (size_t i = 0; i < DATABLOCK_PAGE_SIZE / z; i++) { struct row *r = (struct row *)&b->data[i * z]; if (r->flags.empty || r->flags.deleted) continue; if (k++ == idx) { vp_assert(table_delete_row(T, b, i * z), W); int c = 0; for (int j = 0; j < nr; j++) if (R[j].live && c++ == idx) { R[j].live = 0; return; } } } } }
static void tbl(void) {
  vp_fault_arm((int)vp_arg(1)); T = table_init("tab"); if (!T) { vp_cover("refused"); return; } static struct column c; setcol(&c, "a", CT_INTEGER, 8); vp_assert(table_add_column(T, &c), W); setcol(&c, "s", CT_VARCHAR, 200); vp_assert(table_add_column(T, &c), W);
  if (vp_arg(2) > 1) { setcol(&c, "p", CT_INTEGER, 1100); vp_assert(table_add_column(T, &c), W); pad = 1; } /* three rows per block */
  for (int i = 0; i < 6 + 3 * pad; i++) tins(i); tchk(nr, 0, 1); if (nr > 2) del(1); tchk(nr, 0, 1);
  int hasx = 0; int kind = vp_arg(2) & 1; setcol(&c, "x", kind ? CT_VARCHAR : CT_INTEGER, kind ? 50 : 8); if (table_add_column(T, &c)) { hasx = 1; } else vp_cover("refused");
  /* a column that is added holds whatever rows had there: read only what was there before */
  { static struct row *r[40]; int n = vp_rows(T, r, 40), k = 0; vp_assert(T->column_count == 2 + hasx + pad, W); for (int i = 0; i < nr; i++) if (R[i].live) { vp_assert(k < n && vp_geti(T, r[k], 0) == R[i].a && vp_isnull(T, r[k], 1) == R[i].snul, W); if (!R[i].snul) vp_assert(strcmp(vp_gets(T, r[k], 1), R[i].s) == 0, W); k++; } vp_assert(k == n, W); }
  if (hasx) { setcol(&c, "x", kind ? CT_VARCHAR : CT_INTEGER, kind ? 50 : 8); vp_assert(table_rem_column(T, &c), W); } tchk(nr, 0, 1);
  if (nr > 1) del(0); vp_assert(table_vacuum(T), W); tchk(nr, 0, 1); tins(9); tchk(nr, 0, 1);
  vp_fault_disarm(); int before = nr; tins(10); vp_assert(nr == before + 1, "usable afterwards"); tchk(nr, 0, 1); vp_assert(table_destroy(&T), "usable afterwards"); vp_cover("survived");
}
void vp_main(void) { int l = vp_live(); switch (vp_arg(0)) { case 0: bt(); break; case 1: ht(); break; case 2: vec(); break; case 3: que(); break; case 4: stk(); break; default: tbl(); } vp_fault_disarm(); vp_assert(vp_live() == l, "nothing leaks when memory runs out"); vp_cover("end"); }

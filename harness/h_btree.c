/* B-tree as an ordered map. args: [0] build order / scenario, [1] keys built, [2] minimum degree, [3] symbolic removals.
 * Scenario 9: every key symbolic. Scenario 8: string keys. */
#include <datastructure/btree.h>
#include "vp.h"
#define MAX 64
static uint64_t K[MAX], V[MAX]; static int in[MAX]; static uint64_t *W[MAX]; static int n;
static struct btree_head *h;
static int find(uint64_t k) { for (int i = 0; i < n; i++) if (in[i] && K[i] == k) return i; return -1; }
static void put(uint64_t k) { int i = n++; K[i] = k; V[i] = i; in[i] = 1; W[i] = &V[i]; vp_assert(btree_insert(h, &K[i], &V[i]) == 0, "insert succeeds"); }
static void look(uint64_t k) { int i = find(k); void *r = btree_lookup(h, &k); if (i < 0) vp_assert(r == NULL, "a key that is not stored is not found"); else vp_assert(r == W[i], "a stored key is found with its value"); }
static int leafd, cntk; static uint64_t *prevk;
static void shape(struct btree_node *x, int d, int root) { int t = h->min_degree; vp_assert(x->key_count <= 2 * t - 1 && x->key_count >= (root ? 1 : t - 1), "every node holds a legal number of keys");
  if (x->is_leaf) { vp_assert(leafd < 0 || leafd == d, "all leaves have the same depth"); leafd = d; }
  for (int i = 0; i <= x->key_count; i++) { if (!x->is_leaf) shape(&x->children[i], d + 1, 0); if (i < x->key_count) { uint64_t *k = x->keys[i].key; cntk++; vp_assert(!prevk || *prevk < *k, "keys are in ascending order"); prevk = k; } } }
static void check_all(void) { int c = 0; for (int i = 0; i < n; i++) { look(K[i]); c += in[i]; } leafd = -1; cntk = 0; prevk = NULL; if (h->root) shape(h->root, 0, 1); vp_assert(cntk == c, "the tree holds every stored key once"); }
static void ints(void) {
  int base = vp_live(), sc = (int)vp_arg(0), m = (int)vp_arg(1), rem = (int)vp_arg(3); static uint64_t rk[8];
  h = btree_init((int)vp_arg(2), btree_cmp_ul);
  for (int i = 0; i < m; i++) {
    uint64_t k;
    if (sc == 9) { k = (uint64_t)vp_i64("key"); vp_assume(find(k) < 0); }
    else { int p = sc == 0 ? i : sc == 1 ? m - 1 - i : (i & 1) ? m / 2 - (i + 1) / 2 : m / 2 + i / 2; k = 1000 + 10 * (uint64_t)p; }
    put(k);
  }
  for (int r = 0; r < rem; r++) {
    rk[r] = (uint64_t)vp_i64("remove"); int i = find(rk[r]);
    vp_assert(btree_remove(h, &rk[r]) == 0, "remove succeeds");
    if (i >= 0) { in[i] = 0; vp_cover("removed a stored key"); } else vp_cover("removed an absent key");
    look(rk[r]);
  }
  int tail = vp_choose("tail", 3);
  if (tail == 0) { uint64_t p = (uint64_t)vp_i64("probe"); check_all(); look(p); }
  else if (tail == 1) {
    uint64_t u = (uint64_t)vp_i64("update"); int ui = find(u); static uint64_t nv;
    int rc = btree_update(h, &u, &nv); vp_assert(rc == (ui >= 0), "update reports whether the key is stored"); if (ui >= 0) { W[ui] = &nv; vp_cover("updated a stored key"); }
    check_all(); look(u);
  } else { uint64_t k = (uint64_t)vp_i64("insert"); vp_assume(find(k) < 0); put(k); check_all(); if (sc != 9) look(k + 1); }
  btree_destroy(&h); vp_assert(h == NULL, "destroy clears the handle"); vp_assert(vp_live() == base, "no memory is leaked"); vp_cover("end");
}
/* drain: remove every key in an order chosen by the solver */
static void drain(void) {
  int base = vp_live(), m = (int)vp_arg(1); h = btree_init((int)vp_arg(2), btree_cmp_ul);
  for (int i = 0; i < m; i++) put(10 * (uint64_t)i);
  int left = m;
  static uint64_t rk[MAX];
  for (int r = 0; r < m; r++) { rk[r] = (uint64_t)vp_i64("remove"); int i = find(rk[r]); vp_assume(i >= 0); vp_assert(btree_remove(h, &rk[r]) == 0, "remove succeeds"); in[i] = 0; left--; }
  check_all(); put(5); put(15); check_all();
  btree_destroy(&h); vp_assert(vp_live() == base, "no memory is leaked"); vp_cover("end");
}
static void strs(void) {
  int base = vp_live(), m = (int)vp_arg(1); static char k[8][3]; static int v[8]; h = btree_init(2, btree_cmp_str);
  for (int i = 0; i < m; i++) { vp_bytes(k[i], 2, "str"); vp_assume(k[i][0] != 0); for (int j = 0; j < i; j++) vp_assume(strcmp(k[i], k[j]) != 0); vp_assert(btree_insert(h, k[i], &v[i]) == 0, "insert succeeds"); }
  for (int i = 0; i < m; i++) vp_assert(btree_lookup(h, k[i]) == &v[i], "a stored key is found with its value");
  char q[3] = {0}; vp_bytes(q, 2, "probe"); int w = -1; for (int i = 0; i < m; i++) if (strcmp(q, k[i]) == 0) w = i;
  vp_assert(btree_lookup(h, q) == (w < 0 ? NULL : &v[w]), "a key that is not stored is not found");
  btree_destroy(&h); vp_assert(vp_live() == base, "no memory is leaked"); vp_cover("end");
}
void vp_main(void) { if (vp_arg(0) == 8) strs(); else if (vp_arg(0) == 7) drain(); else ints(); }

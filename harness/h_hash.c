/* Hash table as a map. args: [0] hash function (0 the real string hash, 1 constant, 2 low bits), [1] concrete keys stored first, [2] symbolic operations. */
#include <datastructure/hashtable.h>
#include "vp.h"
#define MAX 80
static char K[MAX][4]; static int V[MAX], in[MAX], n; static struct hashtable t; static int visits[MAX];
static size_t h_const(const void *k, size_t l) { (void)k; (void)l; return 5; }
static size_t h_low(const void *k, size_t l) { (void)l; return ((const unsigned char *)k)[0] & 3; }
static int find(const char *k) { for (int i = 0; i < n; i++) if (in[i] && strcmp(K[i], k) == 0) return i; return -1; }
static void look(const char *k) {
  int i = find(k); struct hashtable_value *v = hashtable_get(&t, k, strlen(k) + 1);
  if (i < 0) vp_assert(v == NULL, "a key that is not stored is not found"); else vp_assert(v != NULL && v->len == sizeof(int) && *(int *)v->content == V[i], "a stored key is found with its value");
}
static void put(const char *k, int val) {
  int i = find(k); bool ok = hashtable_put(&t, k, strlen(k) + 1, &val, sizeof val);
  if (i >= 0) { vp_assert(!ok, "storing a key twice is refused"); vp_cover("duplicate"); } else { vp_assert(ok, "a new key is stored"); strcpy(K[n], k); V[n] = val; in[n++] = 1; }
}
static void del(const char *k) {
  int i = find(k); struct hashtable_entry *e = hashtable_remove(&t, k, strlen(k) + 1);
  if (i < 0) vp_assert(e == NULL, "removing an absent key returns nothing"); else { vp_assert(e != NULL && strcmp(e->key.content, k) == 0 && *(int *)e->value.content == V[i], "removing a stored key returns its entry"); hashtable_free_entry(e); in[i] = 0; vp_cover("removed"); }
}
static int live(void) { int c = 0; for (int i = 0; i < n; i++) c += in[i]; return c; }
static void visit(struct hashtable *ht, const void *k, size_t kl, const void *v, size_t vl, void *arg) { (void)ht; (void)kl; (void)vl; int i = find(k); vp_assert(i >= 0 && *(int *)v == V[i] && arg == &t, "iteration yields stored entries"); visits[i]++; }
static void drop(struct hashtable *ht, const void *k, size_t kl, const void *v, size_t vl, void *arg) { (void)v; (void)vl; (void)arg; int i = find(k); struct hashtable_entry *e = hashtable_remove(ht, k, kl); vp_assert(e && i >= 0, "an entry can be removed during iteration"); if (i >= 0) in[i] = 0; hashtable_free_entry(e); }
void vp_main(void) {
  int base = vp_live(); long f = vp_arg(0);
  vp_assert(hashtable_init(&t, hashtable_str_compare, f == 0 ? hashtable_str_hash : f == 1 ? h_const : h_low), "init");
  for (int i = 0; i < vp_arg(1); i++) { char k[4] = {(char)('a' + i % 26), (char)('A' + i / 26), 0, 0}; put(k, 100 + i); }
  for (int i = 0; i < vp_arg(2); i++) {
    char k[4] = {0}; vp_bytes(k, 2, "key"); vp_assume(k[0] != 0); if (f == 0) { vp_assume((unsigned char)k[0] < 128); vp_assume((unsigned char)k[1] < 128); }
    int op = vp_choose("op", 3); if (op == 0) put(k, 200 + i); else if (op == 1) del(k); else look(k);
    vp_assert(t.count == (size_t)live(), "the count equals the number of stored keys");
  }
  for (int i = 0; i < n; i++) look(K[i]);
  hashtable_foreach(&t, visit, &t); for (int i = 0; i < n; i++) vp_assert(visits[i] == in[i], "iteration visits every entry exactly once");
  hashtable_foreach(&t, drop, NULL); vp_assert(t.count == 0 && live() == 0, "removing during iteration empties the table");
  hashtable_free(&t); vp_assert(vp_live() == base, "no memory is leaked"); vp_cover("end");
}

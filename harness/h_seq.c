/* Vector, queue, stack and linked list. args: [0] container, [1] operations, [2] prefill; container 4: a large vector (pushes of [1] bytes, [2] of them). */
#include <datastructure/vector.h>
#include <datastructure/queue.h>
#include <datastructure/stack.h>
#include <datastructure/linkedlist.h>
#include "vp.h"
static unsigned char D[4096]; static size_t N;
static void vec(void) {
  struct vector v; vp_assert(vector_init(&v) && v.len == 0, "init");
  for (int i = 0; i < vp_arg(1); i++) {
    if (i && vp_choose("clear", 2)) { vector_clear(&v); N = 0; vp_assert(v.len == 0, "clear empties the vector"); vp_cover("cleared"); continue; }
    size_t z = (size_t)vp_concretize((uint64_t)vp_range("len", 1, 40)); unsigned char b[40]; vp_bytes(b, z > 3 ? 3 : z, "data"); for (size_t k = 3; k < z; k++) b[k] = (unsigned char)(7 * k + i);
    vp_assert(vector_push(&v, b, z), "push succeeds"); memcpy(D + N, b, z); N += z;
    vp_assert(v.len == N && v.len <= v.capacity, "the length is the sum of the pushed lengths");
  }
  for (size_t k = 0; k < N; k++) vp_assert((unsigned char)v.data[k] == D[k], "pushed bytes are kept in order");
  vp_assert(!vector_push(&v, D, 0) && !vector_push(&v, NULL, 1) && !vector_push(NULL, D, 1) && v.len == N, "bad arguments are refused without effect");
  vector_free(&v); vp_assert(v.data == NULL && v.len == 0 && v.capacity == 0, "free resets the vector");
}
static void que(void) {
  struct queue q; static int64_t m[4096]; int h = 0, t = 0; vp_assert(queue_init(&q) && queue_empty(&q), "init");
  for (int i = 0; i < vp_arg(2); i++) { m[t] = vp_i64("pre"); vp_assert(queue_offer(&q, &m[t], 8), "offer succeeds"); t++; }
  for (int i = 0; i < vp_arg(1); i++) {
    int op = vp_choose("op", 3);
    if (op == 0) { m[t] = vp_i64("v"); vp_assert(queue_offer(&q, &m[t], 8), "offer succeeds"); t++; }
    else if (op == 1) { int64_t *p = queue_poll(&q); if (h == t) vp_assert(p == NULL, "an empty queue yields nothing"); else { vp_assert(p != NULL && *p == m[h], "elements leave in arrival order"); h++; free(p); } }
    else { int64_t *p = queue_peek(&q); if (h == t) vp_assert(p == NULL, "an empty queue yields nothing"); else { vp_assert(p != NULL && *p == m[h], "peek shows the oldest element"); int k = t - h > 100 ? vp_choose("far", 3) * ((t - h - 1) / 2) : (int)vp_concretize((uint64_t)vp_range("pos", 0, t - h - 1)); vp_assert(*(int64_t *)queue_peek_pos(&q, k) == m[h + k], "peek at a position shows that element"); } }
    vp_assert(queue_length(&q) == (size_t)(t - h) && queue_empty(&q) == (h == t), "the length counts the elements");
  }
  while (h < t) { int64_t *p = queue_poll(&q); vp_assert(p && *p == m[h], "elements leave in arrival order"); free(p); h++; if (t - h == 2) break; }
  queue_free(&q);
}
static void stk(void) {
  struct stack s; static int64_t m[4096]; int t = 0; vp_assert(stack_init(&s) && stack_empty(&s), "init");
  for (int i = 0; i < vp_arg(2); i++) { m[t] = vp_i64("pre"); vp_assert(stack_push(&s, &m[t], 8), "push succeeds"); t++; }
  for (int i = 0; i < vp_arg(1); i++) {
    int op = vp_choose("op", 4);
    if (op == 0) { m[t] = vp_i64("v"); vp_assert(stack_push(&s, &m[t], 8), "push succeeds"); t++; }
    else if (op == 1) { int64_t *p = malloc(8); m[t] = vp_i64("u"); *p = m[t]; vp_assert(stack_unsafe_push(&s, p), "push succeeds"); t++; }
    else if (t == 0) vp_assert(stack_empty(&s), "emptiness is reported");
    else if (op == 2) { int64_t *p = (int64_t *)stack_pop(&s); vp_assert(p && *p == m[t - 1], "the last element pushed leaves first"); t--; free(p); }
    else { vp_assert(*(int64_t *)stack_peek(&s) == m[t - 1], "peek shows the last element"); int k = t > 100 ? vp_choose("far", 3) * ((t - 1) / 2) : (int)vp_concretize((uint64_t)vp_range("pos", 0, t - 1)); vp_assert(*(int64_t *)stack_peek_pos(&s, k) == m[k], "peek at a position shows that element"); }
    vp_assert(stack_empty(&s) == (t == 0), "emptiness is reported");
  }
  while (t > 2) { int64_t *p = (int64_t *)stack_pop(&s); vp_assert(p && *p == m[--t], "the last element pushed leaves first"); free(p); }
  stack_free(&s);
}
static void lst(void) {
  struct node { int id; struct list_head l; } nd[8]; int ord[8], n = 0, used = 0; struct list_head h; list_head_init(&h); vp_assert(list_is_empty(&h), "init");
  for (int i = 0; i < vp_arg(1); i++) {
    if (n == 0 || vp_choose("op", 2) == 0) { /* add after the head or after an existing node */
      int at = (int)vp_concretize((uint64_t)vp_range("after", 0, n)); nd[used].id = used; list_add(&nd[used].l, at ? &nd[ord[at - 1]].l : &h); for (int k = n; k > at; k--) ord[k] = ord[k - 1]; ord[at] = used++; n++;
    } else { int at = (int)vp_concretize((uint64_t)vp_range("del", 0, n - 1)); list_del(&nd[ord[at]].l); for (int k = at; k < n - 1; k++) ord[k] = ord[k + 1]; n--; vp_cover("deleted"); }
    struct list_head *p; int k = 0; list_for_each(p, &h) { vp_assert(k < n && list_entry(p, struct node, l)->id == ord[k], "forward traversal yields the elements in order"); vp_assert(p->next->prev == p && p->prev->next == p, "links are symmetric"); k++; }
    vp_assert(k == n && list_length(&h) == (size_t)n && list_is_empty(&h) == (n == 0), "the length counts the elements");
    k = n; for (p = h.prev; p != &h; p = p->prev) { k--; vp_assert(k >= 0 && list_entry(p, struct node, l)->id == ord[k], "backward traversal yields the elements in order"); } vp_assert(k == 0, "backward traversal is complete");
  }
  struct list_head *p, *q; list_for_each_safe(p, q, &h) { list_del(p); n--; } vp_assert(n == 0 && list_is_empty(&h), "every element can be removed while iterating");
}
static void bigvec(void) { /* the contents are the same arbitrary bytes in every push, next to its number */
  struct vector v; int z = (int)vp_arg(1), n = (int)vp_arg(2); static unsigned char b[70000]; vp_assert(vector_init(&v), "init"); unsigned char f = (unsigned char)vp_range("first", 0, 255), l = (unsigned char)vp_range("last", 0, 255);
  for (int r = 0; r < 2; r++) {
    for (int i = 0; i < n; i++) { b[0] = f; if (z > 4) { b[1] = (unsigned char)i; b[2] = (unsigned char)(i >> 8); } b[z - 1] = l; vp_assert(vector_push(&v, b, z), "push succeeds"); vp_assert(v.len == (size_t)z * (i + 1) && v.len <= v.capacity, "the length is the sum of the pushed lengths"); }
    for (int i = 0; i < n; i++) { unsigned char *p = (unsigned char *)v.data + (size_t)z * i; vp_assert((z < 2 || p[0] == f) && p[z - 1] == l && (z <= 4 || (p[1] == (unsigned char)i && p[2] == (unsigned char)(i >> 8))), "pushed bytes are kept in order"); }
    vector_clear(&v); vp_assert(v.len == 0, "clear empties the vector");
  }
  vector_free(&v);
}
void vp_main(void) { int base = vp_live(); switch (vp_arg(0)) { case 0: vec(); break; case 1: que(); break; case 2: stk(); break; case 4: bigvec(); break; default: lst(); } vp_assert(vp_live() == base, "no memory is leaked"); vp_cover("end"); }

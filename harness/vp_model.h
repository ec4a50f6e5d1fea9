/* Model cells: a value of one of the six column types (0 INT, 1 DOUBLE, 2 VARCHAR, 3 TINYINT, 4 DATE, 5 DATETIME), arbitrary where the statement text uses a placeholder. */
#ifndef VP_MODEL_H
#define VP_MODEL_H
struct mcell { int nul; int64_t i; double d; char s[8]; };
struct mrow { struct mcell c[8]; };
static int mk_i, mk_d, mk_s, mk_t, mk_fixlen; /* mk_fixlen: every string has the full length */
static void mk_reset(void) { mk_i = mk_d = mk_s = 0; } /* before each statement: placeholders are per statement */
static const char *MDL[6] = {"1999-12-31", "2000-03-01", "2024-02-29", "1970-01-02", "2038-01-19", "2001-01-01"};
static const int64_t MDV[6] = {946598400, 951868800, 1709164800, 86400, 2147472000, 978307200};
static int m_streq(const char *a, const char *b) { int e = 1, live = 1; for (int i = 0; i < 6; i++) { e = vp_and(e, vp_or(vp_not(live), a[i] == b[i])); live = vp_and(live, a[i] != 0); } return e; }
static void mc_lit(char *o, int ty, struct mcell *c) {
  memset(c, 0, sizeof *c);
  switch (ty) {
  case 0: c->i = vpI[mk_i] = vp_i64("int"); sprintf(o, "900000%02d", mk_i++); break;
  case 1: c->d = vpD[mk_d] = vp_f64("double"); vp_assume(c->d == c->d); sprintf(o, "900%02d.5", mk_d++); break;
  case 2: memset(vpS[mk_s], 0, 64); vp_bytes(vpS[mk_s], 3, "str"); if (mk_fixlen) vp_assume(vp_and(vp_and(vpS[mk_s][0] != 0, vpS[mk_s][1] != 0), vpS[mk_s][2] != 0)); memcpy(c->s, vpS[mk_s], 8); vpS_on[mk_s] = 1; sprintf(o, "'vps%d'", mk_s++); break;
  case 3: c->i = mk_t++ & 1; strcpy(o, c->i ? "TRUE" : "FALSE"); break;
  default: { int q = mk_t++ % 6; c->i = MDV[q]; if (ty == 5) { c->i += 12 * 3600 + 34 * 60 + 56; } sprintf(o, "'%s%s'", MDL[q], ty == 5 ? " 12:34:56" : ""); } }
}
static void mc_check(struct table *t, struct row *r, int col, int ty, struct mcell *c, const char *vmsg, const char *nmsg) {
  vp_assert(col >= 0, "the column is there"); vp_assert(vp_isnull(t, r, col) == c->nul, nmsg);
  if (vp_is_symbolic(c->nul) || !c->nul) {
    if (ty == 1) { double d = vp_getd(t, r, col); uint64_t a, b; memcpy(&a, &d, 8); memcpy(&b, &c->d, 8); vp_assert(vp_or(c->nul, a == b), vmsg); }
    else if (ty == 2) vp_assert(vp_or(c->nul, m_streq(vp_gets(t, r, col), c->s)), vmsg);
    else vp_assert(vp_or(c->nul, vp_geti(t, r, col) == c->i), vmsg);
  }
}
/* comparison of two cells of one type: op 0 =, 1 <>, 2 <, 3 <=, 4 >, 5 >= ; never true when one is NULL */
static const char *M_OP[6] = {"=", "<>", "<", "<=", ">", ">="};
static int m_cmp(int op, struct mcell *x, struct mcell *y, int ty) {
  int r;
  if (ty == 1) r = op == 0 ? x->d == y->d : op == 1 ? x->d != y->d : op == 2 ? x->d < y->d : op == 3 ? x->d <= y->d : op == 4 ? x->d > y->d : x->d >= y->d;
  else if (ty == 2) { r = m_streq(x->s, y->s); if (op == 1) r = vp_not(r); }
  else r = op == 0 ? x->i == y->i : op == 1 ? x->i != y->i : op == 2 ? x->i < y->i : op == 3 ? x->i <= y->i : op == 4 ? x->i > y->i : x->i >= y->i;
  return vp_and(vp_and(vp_not(x->nul), vp_not(y->nul)), r);
}
/* the arbitrary content of a stored cell */
static char *m_colp(struct table *t, struct row *r, int c) { size_t o = 0; for (int i = 0; i < c; i++) o += table_calc_column_space(&t->columns[i]); return r->data + o; }
static void mc_poke(struct table *t, struct row *r, int k, int ty, struct mcell *x) {
  char *d = m_colp(t, r, k); memset(x, 0, sizeof *x); x->nul = vp_bool("null");
  if (ty == 1) { x->d = vp_f64("v"); vp_assume(x->d == x->d); memcpy(d, &x->d, 8); } else if (ty == 2) { char *s; memcpy(&s, d, 8); vp_bytes(s, 2, "v"); s[2] = 0; memcpy(x->s, s, 3); } else if (ty == 3) { x->i = vp_bool("v"); *d = (char)x->i; } else { x->i = vp_i64("v"); memcpy(d, &x->i, 8); }
  r->null_bitmap[k / 8] |= (char)(x->nul << (k % 8));
}
/* same group: both NULL, or equal */
static int m_same(struct mcell *x, struct mcell *y, int ty) { int e = ty == 1 ? x->d == y->d : ty == 2 ? m_streq(x->s, y->s) : x->i == y->i; return vp_or(vp_and(!!x->nul, !!y->nul), vp_and(vp_and(vp_not(x->nul), vp_not(y->nul)), e)); }
static struct mcell mc_read(struct table *t, struct row *r, int col, int ty) { struct mcell c; memset(&c, 0, sizeof c); c.nul = vp_isnull(t, r, col); if (ty == 1) { if (!c.nul) c.d = vp_getd(t, r, col); } else if (ty == 2) { if (!c.nul) { char *s = vp_gets(t, r, col); for (int i = 0; i < 6; i++) { c.s[i] = s[i]; } } } else if (!c.nul) c.i = vp_geti(t, r, col); return c; }
#endif

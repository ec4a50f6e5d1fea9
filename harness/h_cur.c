/* The cursor over a result table. args: [0] smallest number of columns, [1] largest. Every number of columns in between (so every row size) is explored, in four layouts:
   all INT; INT and TINYINT taking turns; INT first, then TINYINT and INT in the pattern of a fixed word; INT with a VARCHAR at the end. */
#include <engine/query.h>
#include <primitive/table.h>
#include <primitive/column.h>
#include <primitive/row.h>
#include <lib/bit.h>
#include "vp.h"
static int64_t val(int r, int i) { return r * 1000 + i - 64; }
void vp_main(void) {
  int lo = (int)vp_arg(0), hi = (int)vp_arg(1), base = vp_live(), nc = lo + vp_choose("columns", hi - lo + 1), lay = nc > 1 ? vp_choose("layout", 4) : 0;
  struct table *t = table_init("R"); struct column c; char nm[16]; static int ty[128]; static size_t off[128]; size_t o = 0;
  for (int i = 0; i < nc; i++) {
    ty[i] = lay == 1 ? (i & 1 ? CT_TINYINT : CT_INTEGER) : lay == 2 ? (i && (0x5b1d6a >> (i % 24) & 1) ? CT_TINYINT : CT_INTEGER) : lay == 3 && i == nc - 1 ? CT_VARCHAR : CT_INTEGER;
    memset(&c, 0, sizeof c); sprintf(nm, "c%d", i); strcpy(c.name, nm); c.type = ty[i]; c.precision = ty[i] == CT_VARCHAR ? 4 : ty[i] == CT_TINYINT ? 1 : 8;
    vp_assert(table_add_column(t, &c), "a column is added"); off[i] = o; o += ty[i] == CT_TINYINT ? 1 : 8;
  }
  size_t z = table_calc_row_size(t); int per = (int)((4096 - 1) / z); /* rows that fit in one block */
  int e = vp_choose("rows", 6), n = e == 0 ? 0 : e == 1 ? 1 : e == 2 ? per : e == 3 ? per + 1 : e == 4 ? 2 * per : 2 * per + 1;
  static int64_t first[128], last[128]; static char buf[4096]; struct row *r = (struct row *)buf; static char sv[4] = "abc";
  if (n) for (int i = 0; i < nc; i++) if (ty[i] != CT_VARCHAR) { first[i] = vp_i64("first"); last[i] = vp_i64("last"); if (ty[i] == CT_TINYINT) { first[i] = (int8_t)first[i]; last[i] = (int8_t)last[i]; } }
  for (int k = 0; k < n; k++) {
    memset(buf, 0, z);
    for (int i = 0; i < nc; i++) { int64_t v = k == 0 ? first[i] : k == n - 1 ? last[i] : val(k, i); char *p = sv; if (ty[i] == CT_VARCHAR) memcpy(r->data + off[i], &p, 8); else if (ty[i] == CT_TINYINT) r->data[off[i]] = (char)v; else memcpy(r->data + off[i], &v, 8); }
    vp_assert(table_insert_row(t, r, z), "a row is inserted");
  }
  struct query_output *out = calloc(1, sizeof *out); out->status = ST_OK_WITH_RESULTS; out->results.table = t;
  for (int k = 0; k < n; k++) {
    vp_assert(query_cur_step(&out->results) == MIDORIDB_ROW, "the cursor reaches every row");
    int all = k == 0 || k == n - 1; /* every column of the rows with arbitrary contents, one of the others */
    for (int i = all ? 0 : k % nc; i < (all ? nc : k % nc + 1); i++) {
      if (ty[i] == CT_VARCHAR) continue;
      int64_t v = k == 0 ? first[i] : k == n - 1 ? last[i] : val(k, i); if (ty[i] == CT_TINYINT) v = (int8_t)v;
      vp_assert(query_column_int64(&out->results, i) == v, "the cursor visits the rows in order, each once, and returns the values of their columns");
      vp_assert(query_column_int64(&out->results, i) == v, "reading a column does not move the cursor");
    }
  }
  for (int k = 0; k < 2; k++) vp_assert(query_cur_step(&out->results) == MIDORIDB_OK, "after the last row the cursor reports the end, and keeps doing so");
  query_free(out); vp_assert(vp_live() == base, "the result is released"); vp_cover("end");
}

/* want(query, "T.a,T.b", "1|NULL;2|x;") compares a result (rows in order) with the expected text. */
#include <engine/query.h>
#include <engine/database.h>
#include <primitive/table.h>
#include <primitive/column.h>
#include <primitive/row.h>
#include <lib/bit.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
static struct database db; static int bad;
static size_t ok(const char *q) { char *s = strdup(q); struct query_output *o = query_execute(&db, s); size_t n = o->n_rows_aff; if (o->status != ST_OK_EXECUTED) { printf("not executed: %s: %s\n", q, o->error.message); bad = 1; } query_free(o); free(s); return n; }
static void aff(const char *q, size_t n) { size_t k = ok(q); if (k != n) { printf("%s: %zu rows affected instead of %zu\n", q, k, n); bad = 1; } }
static void rejected(const char *q) { char *s = strdup(q); struct query_output *o = query_execute(&db, s); if (o->status != ST_ERROR || !o->error.message[0]) { printf("accepted (or without a message): %s\n", q); bad = 1; } query_free(o); free(s); }
static void want_t(const char *what, struct table *t, const char *cols, const char *exp) {
	static char out[1 << 20]; char *p = out; struct list_head *l; size_t z = table_calc_row_size(t); *p = 0;
	list_for_each(l, t->datablock_head) { struct datablock *b = list_entry(l, struct datablock, head);
		for (size_t i = 0; (i + 1) * z <= DATABLOCK_PAGE_SIZE; i++) { struct row *r = (struct row*)&b->data[i * z]; if (r->flags.empty || r->flags.deleted) continue;
			char c[2000]; strcpy(c, cols);
			for (char *n = strtok(c, ","), *first = n; n; n = strtok(NULL, ",")) { size_t off = 0; int k; for (k = 0; k < t->column_count && strcmp(t->columns[k].name, n); k++) off += table_calc_column_space(&t->columns[k]);
				if (n != first) *p++ = '|';
				if (k == t->column_count) { p += sprintf(p, "<no column %s>", n); continue; }
				if (bit_test(r->null_bitmap, k, sizeof(r->null_bitmap))) { p += sprintf(p, "NULL"); continue; }
				switch (t->columns[k].type) { case CT_DOUBLE: p += sprintf(p, "%.17g", *(double*)&r->data[off]); break; case CT_VARCHAR: p += sprintf(p, "%s", *(char**)&r->data[off]); break; case CT_TINYINT: p += sprintf(p, "%d", r->data[off]); break; default: p += sprintf(p, "%lld", (long long)*(int64_t*)&r->data[off]); } }
			*p++ = ';'; *p = 0; } }
	if (strcmp(out, exp)) { printf("%s: got %s instead of %s\n", what, out, exp); bad = 1; }
}
static void want(const char *q, const char *cols, const char *exp) { char *s = strdup(q); struct query_output *o = query_execute(&db, s); free(s); if (o->status != ST_OK_WITH_RESULTS) { printf("no result: %s: %s\n", q, o->error.message); bad = 1; } else want_t(q, o->results.table, cols, exp); query_free(o); }
static void test(void);
int main(void) { setenv("TZ", "UTC", 1); memset(&db, 0, sizeof db); if (database_open(&db)) return 2; test(); if (!bad) database_close(&db); return bad; }

/* scenario(): builds the database; the statement STMT is then run with its k-th allocation failing, for every k.
   It must be rejected or executed, leave no lock and no memory behind when it is rejected, and the database must go on working. */
#include <engine/query.h>
#include <engine/database.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
static struct database db; static int bad, arm; static long live, cnt;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void*, size_t); void __real_free(void*);
extern char yyalloc[], yyrealloc[]; /* the lexer's own buffers always get their memory */
#define fail() failing(__builtin_return_address(0))
static int failing(char *from) { if ((size_t)(from - yyalloc) < 90 || (size_t)(from - yyrealloc) < 90) return 0; return arm && ++cnt == arm; }
void *__wrap_malloc(size_t n) { if (fail()) return NULL; live++; return __real_malloc(n); }
void *__wrap_calloc(size_t m, size_t n) { if (fail()) return NULL; live++; return __real_calloc(m, n); }
void *__wrap_realloc(void *p, size_t n) { if (fail()) return NULL; if (!p) live++; return __real_realloc(p, n); }
void *__wrap_strdup(const char *s) { if (fail()) return NULL; live++; return strcpy(__real_malloc(strlen(s) + 1), s); }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
static const char *setup, *stmt, *after;
static int run(const char *q, int k) { char *s = strdup(q); cnt = 0; arm = k; struct query_output *o = query_execute(&db, s); arm = 0; int r = o ? o->status : ST_ERROR; if (o) query_free(o); free(s); return r; }
static void scenario(void);
int main(void) { scenario(); setbuf(stdout, NULL); alarm(30);
	for (int k = 1; k < 400; k++) { char b[4000]; memset(&db, 0, sizeof db); if (database_open(&db)) return 2;
		strcpy(b, setup); for (char *t = b, *e; *t && (e = strchr(t, ';')); t = e + 1) { char q[1000]; snprintf(q, sizeof q, "%.*s", (int)(e - t + 1), t); if (run(q, 0) == ST_ERROR) { printf("setup: %s\n", q); return 2; } }
		long l = live; int r = run(stmt, k), hit = cnt >= k;
		if (hit && r == ST_ERROR && live != l) { printf("failing allocation %d: %ld blocks lost\n", k, live - l); bad = 1; }
		if (run(after, 0) == ST_ERROR) { printf("failing allocation %d: the database no longer works\n", k); bad = 1; }
		database_close(&db); if (!hit) break; }
	return bad; }

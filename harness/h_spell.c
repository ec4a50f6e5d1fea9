/* The case of keywords, white space and comments do not change what a statement means. args: [0] template, [1] mode: 0 keyword case, 1 white space in one gap, 2 comment in one gap; [2] bytes. */
#include "vp_sql.h"
#include <stdio.h>
#include <string.h>
/* capital letters: keywords; ' ': gap; '~': place where a gap may stand; strings stay as they are */
static const char *TP[] = {
  "CREATE TABLE new~(~x INT NOT NULL~,~y VARCHAR~(~20~)~,~z DOUBLE UNIQUE~,~d DATE NULL~,~e DATETIME PRIMARY KEY~,~f TINYINT AUTO_INCREMENT~)~;~",
  "CREATE TABLE IF NOT EXISTS new~(~x INTEGER~,~PRIMARY KEY~(~x~)~,~INDEX~(~x~)~)~;~",
  "CREATE TABLE IF NOT EXISTS t~(~q INT~)~;~",
  "INSERT INTO t~(~a~,~b~)~VALUES~(~1 + 2 * (~3~)~,~'Ab cD'~)~,~(~NULL~,~\"x\"~)~;~",
  "INSERT t VALUES~(~5~,~'s'~,~2.5~,~TRUE~)~,~(~6~,~NULL~,~-1.5E2~,~FALSE~)~;~",
  "UPDATE t SET a~=~9~,~b~=~'New tExt' WHERE a~=~2 OR b~=~'two' AND c IS NOT NULL~;~",
  "UPDATE t SET d~=~FALSE WHERE a NOT IN~(~1~,~2~)~XOR d~=~TRUE~;~",
  "DELETE FROM t WHERE a IN~(~1~,~3~,~NULL~)~AND c~>=~1.5~;~",
  "DELETE FROM t WHERE NOT a IS NULL OR b IS NULL~;~",
  "SELECT a~,~b FROM t WHERE t~.~a~<>~2 AND d IS NOT NULL~;~",
  "SELECT~*~FROM t INNER JOIN u ON t~.~a~=~u~.~k WHERE w~<=~20~;~",
  "SELECT a~,~COUNT(*)~FROM t WHERE c~<~9.5 GROUP BY a~;~",
  "SELECT p~.~a FROM t AS p~,~u q WHERE p~.~a~=~q~.~k~;~",
  "SELECT COUNT(*)~FROM t~;~",
  "INSERT INTO t VALUES~(~7~,~'x'~)~;~",   /* rejected either way */
  "SELECT zz FROM t~;~" };
static char out[2][20000]; static char st[3000], *P;
static char *dump(char *o, struct table *t) {
  struct row *R[40]; int n = vp_rows(t, R, 40); o += sprintf(o, "%s[", t->name); for (int c = 0; c < t->column_count; c++) { struct column *k = &t->columns[c]; o += sprintf(o, "%s:%d:%d:%d%d%d%d%d,", k->name, (int)k->type, k->precision, k->nullable, k->unique, k->auto_inc, k->primary_key, k->indexed); }
  for (int r = 0; r < n; r++) for (int c = 0; c < t->column_count; c++) if (vp_isnull(t, R[r], c)) o += sprintf(o, "-,"); else if (t->columns[c].type == CT_VARCHAR) o += sprintf(o, "'%s',", vp_gets(t, R[r], c)); else o += sprintf(o, "%lld,", (long long)vp_geti(t, R[r], c)); o += sprintf(o, "]"); return o;
}
static void run(const char *q, char *o) {
  vp_open(); vp_nobind = 1; vp_ok("CREATE TABLE t (a INT, b VARCHAR(20), c DOUBLE, d TINYINT);"); vp_ok("CREATE TABLE u (k INT, w INT);"); vp_ok("INSERT INTO t VALUES (1, 'one', 1.5, TRUE), (2, 'two', 2.5, FALSE), (3, NULL, NULL, TRUE), (NULL, 'Two', 4.5, NULL), (1, 'two', 1.25, FALSE);"); vp_ok("INSERT INTO u VALUES (1, 10), (2, 20), (2, 21), (7, 5);");
  struct query_output *r = vp_q("%s", q); vp_assert(r != NULL, "a statement is answered"); o += sprintf(o, "%d:%d:", (int)r->status, r->status == ST_OK_EXECUTED ? (int)r->n_rows_aff : 0); if (r->status == ST_ERROR) { vp_assert(r->error.message[0] != 0, "a rejected statement carries an error message"); vp_cover("rejected"); } else vp_cover("accepted"); if (r->status == ST_OK_WITH_RESULTS) o = dump(o, r->results.table); query_free(r);
  o += sprintf(o, " n%d ", (int)vp_db()->tables->count); o = dump(o, vp_tbl("t")); o = dump(o, vp_tbl("u")); if (vp_tbl("new")) o = dump(o, vp_tbl("new")); vp_close();
}
static void any(int n, const char *nm) { vp_bytes(P, n, nm); for (int i = 0; i < n; i++) vp_assume(P[i] != 0); P += n; }
void vp_main(void) {
  const char *t = TP[vp_arg(0)]; int mode = (int)vp_arg(1), k = (int)vp_arg(2), gaps = 0, quote = 0; P = st;
  for (const char *s = t; *s; s++) { if (*s == '~') { gaps++; continue; } if (*s == ' ') gaps++; *P++ = *s; } *P = 0; run(st, out[0]);
  int g = mode ? vp_choose("gap", gaps) : -1, form = mode == 2 ? vp_choose("comment", 4) : 0; P = st; gaps = 0;
  for (const char *s = t; *s; s++) {
    if (*s == '\'' || *s == '"') quote = !quote;
    if (!mode && !quote && ((*s >= 'A' && *s <= 'Z'))) { vp_bytes(P, 1, "letter"); vp_assume(vp_or(*P == *s, *P == *s + 32)); P++; continue; }
    if (*s != '~' && (*s != ' ' || quote)) { *P++ = *s; if (*s == ' ') gaps++; continue; }
    if (gaps++ != g) { if (*s == ' ') *P++ = ' '; continue; }
    if (mode == 1) { char *q = P; any(k, "space"); for (; q < P; q++) vp_assume(vp_or(vp_or(*q == ' ', *q == '\t'), vp_or(*q == '\r', *q == '\n'))); continue; }
    char *q; switch (form) {
    case 0: case 1: *P++ = '/'; *P++ = '*'; q = P; any(k, "comment"); for (int i = 0; i + 1 < k; i++) vp_assume(vp_not(vp_and(q[i] == '*', q[i + 1] == '/'))); if (form) *P++ = '*'; else vp_assume(q[k - 1] != '*'); *P++ = '*'; *P++ = '/'; if (form) vp_assume(vp_not(0)); break;
    default: if (form == 3 && *s == '~') *P++ = ' '; if (form == 2) *P++ = '#'; else { *P++ = '-'; *P++ = '-'; vp_bytes(P, 1, "blank"); vp_assume(vp_or(*P == ' ', *P == '\t')); P++; } q = P; any(k, "comment"); for (; q < P; q++) vp_assume(*q != '\n'); *P++ = '\n'; }
  }
  *P = 0; run(st, out[1]); vp_assert(!strcmp(out[0], out[1]), "the statement means the same however it is spelled"); vp_cover("end");
}

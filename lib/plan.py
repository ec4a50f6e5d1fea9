"""Which jobs decide which property."""
ASSUMPTIONS = [
    "the encoding is LLVM bitcode produced by clang 18 at -O0 from /repo's working tree (lexer and parser regenerated by flex and bison); differences between that and the shipped gcc build are covered only by native replay",
    "malloc and calloc succeed unless a job injects failures; fresh heap memory holds arbitrary bytes (a read of it before it is written counts as a finding)",
    "libc: string and memory functions, qsort and printf-style formatting are executed from models in lib/vp_libc.c and engine/exts.h; regexec, strptime, mktime and strtod are run concretely on concrete arguments",
    "one thread, TZ=UTC, LC_ALL=C"]
PLAN = {}
def J(name, harness, args=(), **k):
    return dict(name=name, harness=harness, args=list(args), **k)
PLAN["C19"] = dict(jobs=
    [J("bt-o%d-n%d-t%d" % (o, n, t), "h_btree.c", [o, n, t, 2], covers=["end"], tiers=("thorough",) if n > 11 else ("quick", "thorough")) for o in (0, 1, 2) for n, t in ((3, 2), (9, 2), (11, 3), (14, 3))] +
    [J("bt-one-o%d-n%d-t%d" % (o, n, t), "h_btree.c", [o, n, t, 1], covers=["end"]) for o in (0, 1, 2) for n, t in ((14, 3), (20, 3), (30, 4))] + [J("bt-deep-o%d" % o, "h_btree.c", [o, 22, 2, 1], covers=["end"]) for o in (0, 1, 2)] +
    [J("bt-allsym3", "h_btree.c", [9, 3, 2, 1], covers=["end"]), J("bt-allsym", "h_btree.c", [9, 4, 2, 1], covers=["end"], tiers=("thorough",)), J("bt-drain", "h_btree.c", [7, 6, 2, 0], covers=["end"]), J("bt-str", "h_btree.c", [8, 3, 2, 0], covers=["end"])])
PLAN["C20"] = dict(jobs=[J("ht-f%d-m%d-k%d" % (f, m, k), "h_hash.c", [f, m, k], covers=["end"], tiers=t) for f, m, k, t in
    [(f, m, k, ("quick", "thorough")) for f, m, k in ((0, 0, 2), (0, 7, 1), (0, 15, 1), (0, 31, 1), (1, 3, 2), (1, 7, 2), (1, 33, 0), (2, 9, 2), (2, 33, 0), (2, 63, 0))] + [(0, 7, 2, ("thorough",)), (0, 15, 2, ("thorough",))]])
PLAN["C21"] = dict(jobs=[J("sq-vec", "h_seq.c", [0, 3], covers=["end", "cleared"]), J("sq-que", "h_seq.c", [1, 6, 0], covers=["end"]), J("sq-que-pre", "h_seq.c", [1, 4, 9], covers=["end"]), J("sq-stk", "h_seq.c", [2, 5, 0], covers=["end"]), J("sq-stk-pre", "h_seq.c", [2, 4, 9], covers=["end"]), J("sq-list", "h_seq.c", [3, 6], covers=["end", "deleted"]), J("sq-que-big", "h_seq.c", [1, 2, 3000], covers=["end"]), J("sq-stk-big", "h_seq.c", [2, 2, 3000], covers=["end"]), J("sq-big-1", "h_seq.c", [4, 1, 2000], covers=["end"]), J("sq-big-8", "h_seq.c", [4, 8, 10000], covers=["end"]), J("sq-big-4k", "h_seq.c", [4, 4096, 40], covers=["end"]), J("sq-big-64k", "h_seq.c", [4, 65536, 3], covers=["end"])])
PLAN["C23"] = dict(jobs=[J("bit-%d" % n, "h_bit.c", [n], covers=["end"]) for n in (1, 2, 8, 16, 32, 0)])
PLAN["C24"] = dict(jobs=[J("nm-all-%d" % n, "h_name.c", [0, n], covers=["end", "invalid"]) for n in (0, 1, 2, 3, 4)] + [J("nm-len-%d" % n, "h_name.c", [1, n], covers=["end"]) for n in (16, 126, 127, 128, 255)])
PLAN["C13"] = dict(jobs=[
    J("row-del-int", "h_row.c", [100, 0, 9, 1, 15, 1], covers=["end"]), J("row-del-str", "h_row.c", [100, 1, 6, 1, 15, 1], covers=["end"]),
    J("row-del-1024", "h_row.c", [125, 0, 7, 1, 15, 1], covers=["end"]), J("row-seq-int", "h_row.c", [100, 0, 5, 3, 15, 0], covers=["end"]), J("row-seq-str", "h_row.c", [100, 1, 4, 3, 15, 0], covers=["end"]),
    J("row-seq-empty", "h_row.c", [2, 1, 0, 4, 15, 0], covers=["end"]), J("row-seq-one", "h_row.c", [100, 1, 1, 4, 15, 0], covers=["end"])])
PLAN["C14"] = dict(jobs=[
    J("col-int", "h_row.c", [100, 0, 5, 2, 191, 0], covers=["end", "column added", "column removed", "refused"]), J("col-str", "h_row.c", [100, 1, 5, 2, 63, 0], covers=["end"]), J("col-small", "h_row.c", [3, 1, 2, 3, 63, 0], covers=["end"]),
    J("col-addstr", "h_row.c", [60, 1, 2, 3, 100, 0], covers=["end"]),    J("col-addstr2", "h_row.c", [2, 0, 2, 3, 79, 0], covers=["end"]), J("col-128", "h_row.c", [128, 0, 0, 0, 0, 0], covers=["end"])])

TYN = ["int", "dbl", "str", "bool", "date", "dtm"]
STN = ["del", "upd", "sel", "selq"]
def WH(st, ty, sh, rows=2, fill=0, forms=63, mask=-1, **k):
    return J("wh-%s-%s-s%d-r%d%s" % (STN[st], TYN[ty], sh, rows, "-f%d" % fill if fill else "") + ("" if forms == 63 else "-m%d" % forms), "h_where.c", [st, ty, sh, rows, fill, forms, mask], covers=["end"], **k)
for pid, sts in (("C02", [0]), ("C03", [1]), ("C04", [2, 3])):
    PLAN[pid] = dict(jobs=[WH(st, ty, sh, rows=1 if ty == 2 and sh in (2, 3) else 2) for st in sts for ty in range(6) for sh in (0, 1, 2, 3, 6)] + [WH(st, 0, sh) for st in sts for sh in (4, 5)])

PLAN["C02"]["jobs"] += [WH(0, 0, sh, rows=6, fill=100, forms=1, mask=24) for sh in (0, 1)]
PLAN["C03"]["jobs"] += [WH(1, 0, sh, rows=6, fill=100, forms=1, mask=24) for sh in (0, 1)] + [J("upd-assign-r%d" % r, "h_upd.c", [0, r, 0], covers=["end"]) for r in (1, 2)] + [J("upd-self", "h_upd.c", [2, 2, 0], covers=["end"])]
PLAN["C04"]["jobs"] += [WH(2, 0, sh, rows=6, fill=100, forms=1, mask=24) for sh in (0, 1)] + [J("sel-list-r%d" % r, "h_upd.c", [1, r, r - 1], covers=["end"]) for r in (1, 2)]
PLAN["C09"] = dict(jobs=[J("cur-%d" % a, "h_cur.c", [a, b], covers=["end"]) for a, b in ((1, 4), (5, 10), (11, 20), (21, 40), (41, 70), (71, 100), (101, 128))])

PLAN["C01"] = dict(jobs=[J("ins-types-%d" % r, "h_ins.c", [0, r], covers=["end"]) for r in (1, 2)] + [J("ins-lists", "h_ins.c", [1, 0], covers=["end"]), J("ins-multi", "h_ins.c", [2, 0], covers=["end"])] +
    [J("ins-wide-%d" % f, "h_ins.c", [3, f], covers=["end"]) for f in (60, 98, 122)])

PLAN["C10"] = dict(jobs=[J("expr-%s-s%d" % (("int", "dbl")[ty], sh), "h_expr.c", [ty, sh], covers=["end"]) for ty in (0, 1) for sh in range(7)])

PLAN["C07"] = dict(jobs=[J("join-%s-%d%d" % (TYN[ty], a, b), "h_join.c", [0, ty, a, b, 0, 0, 1023, 0], covers=["end"]) for ty, a, b in ((0, 2, 2), (1, 2, 1), (2, 1, 1), (3, 2, 1), (4, 1, 2), (5, 2, 1), (0, 0, 2), (0, 2, 0), (0, 3, 1), (0, 3, 2), (1, 2, 2), (2, 2, 1))] +
    [J("join3-%s-%d%d%d-m%d" % (TYN[ty], a, b, c, m), "h_join.c", [1, ty, a, b, c, 0, m, 0], covers=["end"]) for ty, a, b, c, m in ((0, 2, 2, 2, 63), (0, 2, 1, 2, 63), (0, 1, 2, 2, 63), (0, 2, 2, 1, 63), (2, 1, 1, 2, 63), (1, 1, 2, 1, 63))] +
    [J("join-big", "h_join.c", [0, 0, 75, 2, 0, 0, 1 + 256, 1], covers=["end"]), J("join-wide", "h_join.c", [0, 0, 9, 2, 0, 57, 1, 1], covers=["end"]), J("join3-big", "h_join.c", [1, 0, 18, 3, 2, 0, 17, 1], covers=["end"])])

PLAN["C08"] = dict(jobs=[J("grp-%s-f%d-r%d%s" % (TYN[ty], f, r, "-w" if w else ""), "h_group.c", [f, ty, r, 0, 0, w], covers=["end"]) for f, ty, r, w in [(0, 0, 3, 1), (0, 0, 0, 1), (0, 0, 2, 0), (2, 0, 0, 0), (2, 0, 1, 0)] + [(f, 0, 3, 0) for f in range(1, 8)] + [(2, 0, 4, 0), (2, 0, 5, 0), (4, 0, 4, 0), (3, 0, 4, 1), (2, 0, 3, 1), (4, 0, 3, 1)] + [(f, ty, 3 if ty == 3 else 2, 0) for ty in range(1, 6) for f in (2, 4)]] +
    [J("grp-big-f%d" % f, "h_group.c", [f, 0, 60 if f < 5 else 30, 6 if f < 5 else 16, 1, 0], covers=["end"]) for f in (0, 1, 2, 5)] + [J("grp-big-dbl", "h_group.c", [2, 1, 12, 58, 1, 0], covers=["end"]), J("grp-big-where", "h_group.c", [0, 0, 60, 6, 1, 1], covers=["end"])])

_TX, _TW2 = range(105), [11, 12, 14, 16, 17, 20, 21, 23, 25, 26, 29, 31, 32, 35, 40, 42, 51, 63, 64, 65, 66, 67, 69, 71, 74, 75, 76, 79, 82, 90, 91, 96, 98, 102, 103]
PLAN["C17"] = dict(jobs=[J("tx-%d-%d" % (t, k), "h_parse.c", [t, k, 0], covers=["end"], time=300) for t in _TX for k in (1, 2)]
  + [J("tw-%d-1" % t, "h_parse.c", [t, 1, 1], covers=["end"]) for t in _TX] + [J("tw-%d-2" % t, "h_parse.c", [t, 2, 1], covers=["end"], time=300) for t in _TW2]
  + [J("tl-%d-%d" % (t, n), "h_parse.c", [t, 1, 2, n], covers=["end"]) for t in _TX for n in (300, 1100, 5000)] + [J("tl-%d-66000" % t, "h_parse.c", [t, 1, 2, 66000], covers=["end"], tiers=("thorough",)) for t in _TX] + [J("tc-%d-300" % t, "h_parse.c", [t, 1, 3, 300], covers=["end"]) for t in (11, 27, 57, 58, 82)]
  + [J("tx-%d-3" % t, "h_parse.c", [t, 3, 0], covers=["end"], tiers=("thorough",), time=1200) for t in _TX]
  + [J("tw-%d-2" % t, "h_parse.c", [t, 2, 1], covers=["end"], tiers=("thorough",), time=600) for t in _TX if t not in _TW2]
  + [J("tw-%d-3" % t, "h_parse.c", [t, 3, 1], covers=["end"], tiers=("thorough",), time=4000) for t in (16, 20, 25, 82, 90, 98)])
_AR = ["end", "accepted", "rejected"]
PLAN["C11"] = dict(jobs=[J("rj-nn-%d-%d" % (ty, u), "h_rej.c", [0, ty, u], covers=_AR) for ty in range(6) for u in (0, 1)] + [J("rj-len-%d" % k, "h_rej.c", [1, k], covers=_AR) for k in (1, 2, 5, 20)] + [J("rj-len-%d-%d" % (k, b), "h_rej.c", [1, k, b], covers=_AR if b < k - 1 < b + 5 else ["end"]) for k, b in ((5, 254), (10, 510), (129, 126), (255, 253), (257, 254), (300, 254), (514, 511), (1026, 1023), (4097, 4094))]
  + [J("rj-type-%d" % ty, "h_rej.c", [2, ty], covers=_AR) for ty in range(6)] + [J("rj-name-%d" % k, "h_rej.c", [3, k], covers=_AR, time=300) for k in (1, 2, 3)] + [J("rj-count", "h_rej.c", [4], covers=_AR), J("rj-refs", "h_rej.c", [5], covers=_AR)])
PLAN["C18"] = dict(jobs=[J("li-int-%d-%d" % (n, f), "h_lit.c", [0, n, f, 6], covers=["accepted", "end"]) for n in (1, 2, 3, 6, 10, 18, 19, 20) for f in (0, 6)] + [J("li-str-%d-%d" % (k, f), "h_lit.c", [1, k, f, 4], covers=["accepted", "end"]) for k in (0, 1, 2, 3) for f in (0, 4, 8)]
  + [J("li-long-%d" % n, "h_lit.c", [2, n, 0, 12], covers=["accepted", "end"]) for n in (62, 126, 254, 510, 1022, 4094)] + [J("li-flt-%d" % n, "h_lit.c", [3, n, 0, 12], covers=["accepted", "end"]) for n in range(12)] + [J("li-word", "h_lit.c", [4, 0, 0, 12], covers=["accepted", "end"])])
PLAN["C12"] = dict(jobs=[J("cr-cols-%d" % t, "h_crt.c", [0, t], covers=["accepted", "end"]) for t in (0, 3, 6, 8)] + [J("cr-keys-%d" % s, "h_crt.c", [1, s], covers=_AR) for s in (0, 1, 2)] + [J("cr-name-%d" % k, "h_crt.c", [2, k], covers=_AR) for k in (1, 2, 3)]
  + [J("cr-many-%d" % n, "h_crt.c", [3, n], covers=["rejected", "end"] + (["accepted"] if n < 129 else [])) for n in (4, 127, 128, 129)] + [J("cr-exists", "h_crt.c", [4], covers=_AR + ["again"])] + [J("cr-len-%d" % k, "h_crt.c", [5, k], covers=_AR if k > 0 else []) for k in (1, 2, 5, 6)] + [J("cr-longest", "h_crt.c", [6], covers=_AR)])
PLAN["C05"] = dict(jobs=[J("sp-%s-%d" % (("case", "gap", "comment")[m], t), "h_spell.c", [t, m, 2 if m else 0], tiers=("quick",) if m else ("quick", "thorough"), covers=["end"]) for t in range(16) for m in (0, 1, 2)] + [J("sp-%s3-%d" % (("case", "gap", "comment")[m], t), "h_spell.c", [t, m, 3], tiers=("thorough",), covers=["end"], time=600) for t in range(16) for m in (1, 2)])
PLAN["C25"] = dict(jobs=[J("dt-%s-%d-%d" % (("date", "time")[d], n, c), "h_lit.c", [5 + d, n, c, 2], covers=(["rejected"] if n < 3 and (d, n) != (1, 2) else []) + ["end"], time=240) for d in (0, 1) for n in range(4) for c in range(0, 12, 2)]
  + [J("dc-%d-%d" % (s, f), "h_date.c", [s, f], covers=["accepted", "end"]) for s in range(4) for f in range(10 if s < 3 else 8)])
PLAN["C15"] = dict(jobs=[J("oom-%d" % n, "h_oom.c", [n, 1], covers=["rejected", "end"]) for n in range(30)] + [J("oomc-%s" % w, "h_oomc.c", a, covers=["refused", "survived", "end"]) for w, a in (("tree", [0, 1]), ("tree2", [0, 2]), ("hash", [1, 1]), ("vector", [2, 3]), ("queue", [3, 2]), ("stack", [4, 2]), ("table", [5, 2]), ("table-str", [5, 2, 1]), ("blocks", [5, 2, 2]), ("blocks-str", [5, 2, 3]))]
  + [J("oom-lexer", "h_oom.c", [10, 1, 1])]
  + [J("oom2-%d" % n, "h_oom.c", [n, 2], tiers=("thorough",), covers=["rejected", "end"], time=900) for n in range(30)] + [J("oomc-%s-deep" % w, "h_oomc.c", a, tiers=("thorough",), covers=["refused", "survived", "end"], time=600) for w, a in (("hash", [1, 2]), ("queue", [3, 3]), ("stack", [4, 3]), ("table", [5, 3]), ("blocks-str", [5, 4, 3]))])
_ALL, _BIG = 1048575, 1015807 # statements of h_hist.c: all, without GROUP BY
PLAN["C27"] = dict(jobs=[J("hi-%d-r%d" % (f, r), "h_hist.c", [0, f, 3, r, _ALL], covers=["end"], time=240) for f in range(20) for r in (0, 1, 2) if r != 2 or f not in (0, 1, 2)] + [J("hi-%d-r2" % f, "h_hist.c", [0, f, 2, 2, _ALL], covers=["end"]) for f in (0, 1, 2)]
  + [J("hi-big-%d-r%d" % (f, r), "h_hist.c", [0, f, 2, r, _BIG], steps=4000000000, covers=["end"], time=240) for f in range(20) if f != 15 for r in (101, 104)] + [J("hi-deep-%d" % f, "h_hist.c", [0, f, 4, 1, _ALL], covers=["end"], tiers=("thorough",), time=1500) for f in range(20)])
PLAN["C06"] = dict(jobs=[J("sn-%d-r%d" % (f, r), "h_hist.c", [1, f, 3 if r == 1 else 2, r, _ALL], covers=["end", "result outlives the database"]) for f in range(20) for r in (0, 1, 2)] + [J("sn-big-%d-r%d" % (f, r), "h_hist.c", [1, f, 1, r, _BIG], steps=4000000000, covers=["end", "result outlives the database"]) for f in range(20) if f != 15 for r in (102, 104)]
  + [J("sn-deep-%d" % f, "h_hist.c", [1, f, 3, 2, _ALL], covers=["end"], tiers=("thorough",), time=1200) for f in range(20)])
PLAN["C16"] = dict(jobs=[J("me-%d-r%d" % (f, r), "h_hist.c", [3, f, 2, r, _ALL], covers=["end"]) for f in range(20) for r in (0, 2)] + [J("me-big-%d-r%d" % (f, r), "h_hist.c", [3, f, 1, r, _BIG], steps=4000000000, covers=["end"], time=240) for f in range(20) if f != 15 for r in (103, 105)]
  + [J("me-deep-%d" % f, "h_hist.c", [3, f, 3, 2, _ALL], covers=["end"], tiers=("thorough",), time=1200) for f in range(20)])
PLAN["C26"] = dict(jobs=[J("db-%d" % f, "h_hist.c", [2, f, 2, 1, _ALL], covers=["end"]) for f in range(20)] + [J("db-deep-%d" % f, "h_hist.c", [2, f, 3, 1, _ALL], covers=["end"], tiers=("thorough",), time=1200) for f in range(20)]
  + [J("tb-names-%d-%d-%d" % (a, b, c), "h_tabs.c", [0, a, b, c], covers=["end", "unknown", "found"] + (["duplicate"] if a in (2, 7) else []), time=240, tiers=t) for a, b, c, t in ((0, 2, 1, ("quick", "thorough")), (8, 1, 1, ("quick", "thorough")), (7, 2, 1, ("quick", "thorough")), (3, 3, 1, ("thorough",)), (2, 1, 2, ("thorough",)), (31, 2, 1, ("thorough",)))]
  + [J("tb-similar", "h_tabs.c", [1], covers=["end"]), J("tb-long-127", "h_tabs.c", [2, 127], covers=["end"]), J("tb-long-60", "h_tabs.c", [2, 60], covers=["end"]), J("tb-many", "h_tabs.c", [3, 60], covers=["end"])])
_STC = ["sel", "selq", "del", "upd", "on", "from"]
PLAN["C22"] = dict(jobs=[J("cd-%s-%d-p%d-f%d-a%d" % (_STC[st], n, p, f, a), "h_cond.c", [st, n, f, p, a], covers=["end", "selected", "not selected"], time=240) for st in range(6) for n, p, f, a in ((3, 1, 0, 0), (3, 1, 3, 1), (4, 1, 1, 0), (4, 1, 5, 1), (5, 0, 2, 0), (3, 2, 4, 0), (3, 2, 6, 1), (2, 1, 6, 1))]
  + [J("cd-deep-%s-%d-p%d-f%d" % (_STC[st], n, p, f), "h_cond.c", [st, n, f, p, 0], covers=["end"], tiers=("thorough",), time=1500) for st in range(6) for n, p, f in ((4, 1, 3), (4, 1, 7), (5, 1, 0), (6, 0, 0), (6, 0, 4))])
PLAN["C28"] = dict(jobs=[J("pp-%d-%d%d-t%d" % (f, a, b, t), "h_pipe.c", [f, a, b, t, -1], covers=["end"], time=240) for f in range(6) for a, b, t in (((1, 1, 0), (2, 1, 0), (1, 2, 1), (2, 1, 2), (1, 2, 3), (0, 1, 0)) if f < 4 else ((2, 0, 0), (2, 0, 2), (2, 0, 3), (1, 0, 0), (0, 0, 0)))] + [J("pp-%d-22-w%d" % (f, w), "h_pipe.c", [f, 2, 2, 0, w], covers=["end"], time=240, tiers=("quick", "thorough") if w == 1 and f in (0, 2) else ("thorough",)) for f in range(4) for w in range(5)] + [J("pp-%d-3-w%d" % (f, w), "h_pipe.c", [f, 3, 0, 0, w], covers=["end"], tiers=("thorough",), time=1200) for f in (4, 5) for w in range(5)])
import props
for _i, _p in PLAN.items():
    if _i in props.PROPS:
        _p.update(bounds=props.PROPS[_i]["bounds"], outside=props.PROPS[_i]["outside"])

// Models of libc, of the LLVM intrinsics and of the harness API (vp_*).
void Exec::registerExts() {
#define X(n) exts[n] = [this](State &s, Inst &I, std::vector<Val> &a, Val &r) -> bool
  auto noop = [](State &, Inst &, std::vector<Val> &, Val &r) { r = CV(0); return true; };
  for (const char *n : {"fprintf", "printf", "vfprintf", "perror", "fflush", "puts", "putchar", "fputs", "fputc", "putc", "fwrite", "llvm.dbg", "llvm.prefetch", "setbuf", "clearerr"}) exts[n] = noop;
  X("llvm.va_start") { Frame &f = s.st.back(); uint32_t go = 48, fo = 304; uint64_t z = 0; putMem(s, a[0].c, &go, 4); putMem(s, a[0].c + 4, &fo, 4); putMem(s, a[0].c + 8, &f.va, 8); putMem(s, a[0].c + 16, &z, 8); return true; };
  exts["llvm.va_end"] = noop;
  X("llvm.va_copy") { copyBytes(s, a[0].c, a[1].c, 24); return true; };
  auto mcpy = [this](State &s, Inst &, std::vector<Val> &a, Val &r) { uint64_t n = concretize(s, a[2], 64, "memcpy size"); if (!n) { r = a[0]; return true; } uint64_t d = concAddr(s, a[0], n, true), q = concAddr(s, a[1], n, false); copyBytes(s, d, q, n); r = CV(d); return true; };
  exts["llvm.memcpy"] = exts["llvm.memmove"] = exts["memcpy"] = exts["memmove"] = mcpy;
  exts["mempcpy"] = [mcpy](State &s, Inst &I, std::vector<Val> &a, Val &r) { mcpy(s, I, a, r); r.c += a[2].c; return true; };
  auto mset = [this](State &s, Inst &, std::vector<Val> &a, Val &r) { uint64_t n = concretize(s, a[2], 64, "memset size"); r = a[0]; if (!n) return true; uint64_t d = concAddr(s, a[0], n, true); checkAccess(s, d, n, true); Obj *o = s.mem.findW(d); uint32_t off = d & 0xffffff; if (!a[1].e) { memset(o->c + off, (int)a[1].c, n); if (o->m) memset(o->m + off, 0, n); } else { E b = P->extract(a[1].e, 0, 8); for (uint64_t i = 0; i < n; i++) storeObj(o, off + i, 1, EV(b)); } r = CV(d); return true; };
  exts["llvm.memset"] = exts["memset"] = mset;
  exts["bzero"] = [mset](State &s, Inst &I, std::vector<Val> &a, Val &r) { std::vector<Val> b{a[0], CV(0), a[1]}; return mset(s, I, b, r); };
  X("llvm.floor") { r = a[0].e ? EV(P->un(FFLOOR, a[0].e, 64)) : CV(d2bits(floor(bits2d(a[0].c)))); return true; }; exts["floor"] = exts["floorl"] = exts["llvm.floor"];
  X("llvm.ceil") { r = a[0].e ? EV(P->un(FCEIL, a[0].e, 64)) : CV(d2bits(ceil(bits2d(a[0].c)))); return true; }; exts["ceil"] = exts["ceill"] = exts["llvm.ceil"];
  X("llvm.fabs") { r = a[0].e ? EV(P->un(FABS_, a[0].e, 64)) : CV(a[0].c & 0x7fffffffffffffffull); return true; }; exts["fabs"] = exts["llvm.fabs"];
  X("fmod") { r = CV(ExprPool::apply(FREM, 64, 64, 0, concretize(s, a[0], 64, "fmod"), concretize(s, a[1], 64, "fmod"), 0)); return true; };
  auto mm = [this](bool sgn, bool max) { return [this, sgn, max](State &, Inst &I, std::vector<Val> &a, Val &r) { E x = toE(a[0], I.w), y = toE(a[1], I.w); E c = P->bin(sgn ? SLT : ULT, x, y); r = EV(P->ite(c, max ? y : x, max ? x : y)); return true; }; };
  exts["llvm.smax"] = mm(true, true); exts["llvm.smin"] = mm(true, false); exts["llvm.umax"] = mm(false, true); exts["llvm.umin"] = mm(false, false);
  X("llvm.abs") { E x = toE(a[0], I.w); r = EV(P->ite(P->bin(SLT, x, P->konst(0, I.w)), P->bin(SUB, P->konst(0, I.w), x), x)); return true; };
  X("abs") { E x = toE(a[0], 32); r = EV(P->ite(P->bin(SLT, x, P->konst(0, 32)), P->bin(SUB, P->konst(0, 32), x), x)); return true; };
  X("labs") { E x = toE(a[0], 64); r = EV(P->ite(P->bin(SLT, x, P->konst(0, 64)), P->bin(SUB, P->konst(0, 64), x), x)); return true; }; exts["llabs"] = exts["labs"];
  X("llvm.bswap") { E x = toE(a[0], I.w); E o = P->extract(x, 0, 8); for (unsigned i = 8; i < I.w; i += 8) o = P->concat(o, P->extract(x, i, 8)); r = EV(o); return true; };
  X("llvm.ctpop") { E x = toE(a[0], I.w); E t = P->konst(0, I.w); for (unsigned i = 0; i < I.w; i++) t = P->bin(ADD, t, P->zext(P->extract(x, i, 1), I.w)); r = EV(t); return true; };
  X("llvm.fshl") { unsigned w = I.w; uint64_t k = concretize(s, a[2], w, "fshl") % w; E x = toE(a[0], w), y = toE(a[1], w); r = k ? EV(P->bin(OR, P->bin(SHL, x, P->konst(k, w)), P->bin(LSHR, y, P->konst(w - k, w)))) : a[0]; return true; };
  auto ovf = [this](K k, bool sgn) { return [this, k, sgn](State &s, Inst &I, std::vector<Val> &a, Val &) { unsigned w = I.aw[0]; E x = toE(a[0], w), y = toE(a[1], w); E res = P->bin(k, x, y); E o;
      if (w <= 32) { E wx = sgn ? P->sext(x, 2 * w) : P->zext(x, 2 * w), wy = sgn ? P->sext(y, 2 * w) : P->zext(y, 2 * w); E wr = P->bin(k, wx, wy); o = P->notE(P->bin(EQ, wr, sgn ? P->sext(res, 2 * w) : P->zext(res, 2 * w))); }
      else if (k == ADD) { if (sgn) { E sx1 = P->bin(SLT, x, P->konst(0, w)), sy = P->bin(SLT, y, P->konst(0, w)), sr = P->bin(SLT, res, P->konst(0, w)); o = P->andE(P->bin(EQ, sx1, sy), P->notE(P->bin(EQ, sx1, sr))); } else o = P->bin(ULT, res, x); }
      else if (k == SUB) { if (sgn) { E sx1 = P->bin(SLT, x, P->konst(0, w)), sy = P->bin(SLT, y, P->konst(0, w)), sr = P->bin(SLT, res, P->konst(0, w)); o = P->andE(P->notE(P->bin(EQ, sx1, sy)), P->notE(P->bin(EQ, sx1, sr))); } else o = P->bin(ULT, x, y); }
      else { uint64_t p = concretize(s, a[0], w, "mul overflow"), q = concretize(s, a[1], w, "mul overflow"); bool f; if (sgn) { int64_t z; f = __builtin_mul_overflow((int64_t)p, (int64_t)q, &z); } else { uint64_t z; f = __builtin_mul_overflow(p, q, &z); } o = P->konst(f, 1); }
      Frame &f = s.st.back(); s.regs[f.base + I.dst] = EV(res); s.regs[f.base + I.dst + 1] = EV(o); f.pc++; return false; }; };
  exts["llvm.sadd"] = ovf(ADD, true); exts["llvm.uadd"] = ovf(ADD, false); exts["llvm.ssub"] = ovf(SUB, true); exts["llvm.usub"] = ovf(SUB, false); exts["llvm.smul"] = ovf(MUL, true); exts["llvm.umul"] = ovf(MUL, false);
  X("llvm.expect") { r = a[0]; return true; }; X("llvm.is.constant") { r = CV(0); return true; }; exts["llvm.is"] = exts["llvm.is.constant"];
  X("llvm.objectsize") { r = CV(~0ull); return true; }; X("llvm.trap") { fail(s, "crash", "trap instruction (bounds or undefined-behaviour check)"); return true; }; exts["llvm.ubsantrap"] = exts["llvm.trap"];
  X("llvm.fmuladd") { r = binop(s, FADD, I.w, binop(s, FMUL, I.w, a[0], a[1]), a[2]); return true; };
  X("llvm.stacksave") { r = CV(0); return true; }; exts["llvm.stackrestore"] = noop;

  // ----- allocation
  X("malloc") { r = doMalloc(s, a[0], false); return true; };
  X("calloc") { uint64_t n = concretize(s, a[0], 64, "calloc n"), m = concretize(s, a[1], 64, "calloc size"); unsigned __int128 t = (unsigned __int128)n * m; r = doMalloc(s, CV(t >> 24 ? ~0ull : (uint64_t)t), true); return true; };
  X("free") { doFree(s, a[0]); return true; };
  X("realloc") { uint64_t p = concretize(s, a[0], 64, "realloc"), n = concretize(s, a[1], 64, "realloc size"); if (!p) { r = doMalloc(s, CV(n), false); return true; } Obj *o = s.mem.find(p); if (!o || o == &FREED || o->kind != O_HEAP || (p & 0xffffff)) fail(s, "memory", "realloc of invalid pointer"); if (allocOutcome(s, n)) { setErrno(s, ENOMEM); r = CV(0); return true; } o = s.mem.find(p); uint64_t old = o->size; uint64_t q = heapAlloc(s, n, false); copyBytes(s, q, p, std::min(old, n)); doFree(s, CV(p)); r = CV(q); return true; };
  X("reallocarray") { uint64_t n = concretize(s, a[1], 64, "realloc") * concretize(s, a[2], 64, "realloc"); std::vector<Val> b{a[0], CV(n)}; return exts["realloc"](s, I, b, r); };
  auto sdup = [this](State &s, uint64_t p, uint64_t max, Val &r) { uint64_t n = 0; for (; n < max; n++) { Val b = loadByte(s, p + n); if (b.e ? decide(s, P->bin(EQ, b.e, P->konst(0, 8))) : !b.c) break; } if (allocOutcome(s, n + 1)) { setErrno(s, ENOMEM); r = CV(0); return true; } uint64_t q = heapAlloc(s, n + 1, true); copyBytes(s, q, p, n); r = CV(q); return true; };
  X("strdup") { return (void)0, false; };
  exts["strdup"] = [this, sdup](State &s, Inst &, std::vector<Val> &a, Val &r) { return sdup(s, concAddr(s, a[0], 1, false), ~0ull, r); };
  exts["strndup"] = [this, sdup](State &s, Inst &, std::vector<Val> &a, Val &r) { return sdup(s, concAddr(s, a[0], 1, false), concretize(s, a[1], 64, "strndup"), r); };

  // ----- strings: native when concrete, interpreted C model (lib/vp_libc.c) otherwise
  auto str1 = [this](const char *model, std::function<Val(const std::string &, uint64_t)> f) { return [this, model, f](State &s, Inst &, std::vector<Val> &a, Val &r) { if (!a[0].e) { std::string x; if (concStr(s, a[0].c, x)) { r = f(x, a[0].c); return true; } } return callModel(s, model, a); }; };
  exts["strlen"] = str1("vpm_strlen", [](const std::string &x, uint64_t) { return CV(x.size()); });
  exts["atoi"] = [this](State &s, Inst &, std::vector<Val> &a, Val &r) { return atoiModel(s, a, r, 32); };
  exts["atol"] = exts["atoll"] = [this](State &s, Inst &, std::vector<Val> &a, Val &r) { return atoiModel(s, a, r, 64); };
  X("atof") { std::string x; uint64_t p = concAddr(s, a[0], 1, false); if (!concStr(s, p, x)) { x.clear(); for (uint64_t k = 0;; k++) { Val b = loadByte(s, p + k); uint64_t c = concretize(s, b, 8, "atof"); if (!c) break; x.push_back((char)c); } } r = CV(d2bits(atof(x.c_str()))); return true; };
  auto strtox = [this](bool uns) { return [this, uns](State &s, Inst &, std::vector<Val> &a, Val &r) { std::string x; uint64_t p = concAddr(s, a[0], 1, false); if (!concStr(s, p, x)) { uint64_t de; if (!uns && !a[2].e && a[2].c == 10 && digitsModel(s, p, r, 64, de)) { if (a[1].c) putMem(s, a[1].c, &de, 8); return true; } if (!uns && !a[2].e && a[2].c == 10) return callModel(s, "vpm_strtoll", a); x.clear(); for (uint64_t k = 0;; k++) { Val b = loadByte(s, p + k); uint64_t c = concretize(s, b, 8, "strtol"); if (!c) break; x.push_back((char)c); } } char *e; errno = 0; uint64_t v = uns ? strtoull(x.c_str(), &e, (int)a[2].c) : (uint64_t)strtoll(x.c_str(), &e, (int)a[2].c); if (errno) setErrno(s, errno); if (a[1].c) { uint64_t q = p + (e - x.c_str()); putMem(s, a[1].c, &q, 8); } r = CV(v); return true; }; };
  exts["strtol"] = exts["strtoll"] = exts["__isoc23_strtol"] = exts["__isoc23_strtoll"] = strtox(false); exts["strtoul"] = exts["strtoull"] = strtox(true);
  X("strtod") { std::string x; uint64_t p = concAddr(s, a[0], 1, false); if (!concStr(s, p, x)) { x.clear(); for (uint64_t k = 0;; k++) { Val b = loadByte(s, p + k); uint64_t c = concretize(s, b, 8, "strtod"); if (!c) break; x.push_back((char)c); } } char *e; double d = strtod(x.c_str(), &e); if (a[1].c) { uint64_t q = p + (e - x.c_str()); putMem(s, a[1].c, &q, 8); } r = CV(d2bits(d)); return true; };
  auto str2 = [this](const char *model, std::function<int(const std::string &, const std::string &)> f) { return [this, model, f](State &s, Inst &, std::vector<Val> &a, Val &r) { if (!a[0].e && !a[1].e) { std::string x, y; if (concStr(s, a[0].c, x) && concStr(s, a[1].c, y)) { r = CV((uint32_t)f(x, y)); return true; } } return callModel(s, model, a); }; };
  exts["strcmp"] = str2("vpm_strcmp", [](const std::string &x, const std::string &y) { int c = strcmp(x.c_str(), y.c_str()); return c < 0 ? -1 : c > 0; });
  exts["strcasecmp"] = str2("vpm_strcasecmp", [](const std::string &x, const std::string &y) { int c = strcasecmp(x.c_str(), y.c_str()); return c < 0 ? -1 : c > 0; });
  exts["strcoll"] = exts["strcmp"];
  for (auto p : {std::make_pair("strncmp", "vpm_strncmp"), {"memcmp", "vpm_memcmp"}, {"bcmp", "vpm_memcmp"}, {"strncpy", "vpm_strncpy"}, {"strcpy", "vpm_strcpy"}, {"stpcpy", "vpm_stpcpy"}, {"strcat", "vpm_strcat"}, {"strncat", "vpm_strncat"}, {"strchr", "vpm_strchr"}, {"strrchr", "vpm_strrchr"}, {"strstr", "vpm_strstr"}, {"memccpy", "vpm_memccpy"}, {"memchr", "vpm_memchr"}, {"strnlen", "vpm_strnlen"}, {"strncasecmp", "vpm_strncasecmp"}, {"qsort", "vpm_qsort"}, {"strspn", "vpm_strspn"}, {"strcspn", "vpm_strcspn"}, {"strpbrk", "vpm_strpbrk"}, {"strtok_r", "vpm_strtok_r"}, {"bsearch", "vpm_bsearch"}}) {
    std::string m = p.second; exts[p.first] = [this, m](State &s, Inst &, std::vector<Val> &a, Val &) { return callModel(s, m.c_str(), a); };
  }
  X("strerror") { r = CV(heapAlloc(s, 32, true, O_HIDDEN)); const char *m = "error"; putMem(s, r.c, m, 6); return true; };
  X("__errno_location") { r = CV(addrErrno); return true; };
  X("__ctype_b_loc") { r = CV(addrCtypeB); return true; }; X("__ctype_tolower_loc") { r = CV(addrToLower); return true; }; X("__ctype_toupper_loc") { r = CV(addrToUpper); return true; };
  auto cmap = [this](uint64_t *tbl) { return [this, tbl](State &s, Inst &, std::vector<Val> &a, Val &r) { Val i = a[0]; uint64_t t; memcpy(&t, s.mem.find(*tbl)->c, 8); Val addr = i.e ? EV(P->bin(ADD, P->bin(MUL, P->sext(i.e, 64), P->konst(4, 64)), P->konst(t, 64))) : CV(t + (uint64_t)(sx(i.c, 32) * 4)); r = load(s, addr, 4); return true; }; };
  exts["tolower"] = cmap(&addrToLower); exts["toupper"] = cmap(&addrToUpper);
  auto ccls = [this](int bit) { return [this, bit](State &s, Inst &, std::vector<Val> &a, Val &r) { Val i = a[0]; uint64_t t; memcpy(&t, s.mem.find(addrCtypeB)->c, 8); Val addr = i.e ? EV(P->bin(ADD, P->bin(MUL, P->sext(i.e, 64), P->konst(2, 64)), P->konst(t, 64))) : CV(t + (uint64_t)(sx(i.c, 32) * 2)); Val v = load(s, addr, 2); r = v.e ? EV(P->zext(P->bin(AND, v.e, P->konst(bit, 16)), 32)) : CV(v.c & bit); return true; }; };
  exts["isdigit"] = ccls(_ISdigit); exts["isalpha"] = ccls(_ISalpha); exts["isalnum"] = ccls(_ISalnum); exts["isspace"] = ccls(_ISspace); exts["isupper"] = ccls(_ISupper); exts["islower"] = ccls(_ISlower); exts["isxdigit"] = ccls(_ISxdigit); exts["ispunct"] = ccls(_ISpunct); exts["isprint"] = ccls(_ISprint);

  // ----- formatted output to memory
  auto doFmt = [this](State &s, std::vector<Val> &a, size_t fmtIdx, bool va, Out &o, Inst &I) {
    std::string f; if (!concStr(s, concAddr(s, a[fmtIdx], 1, false), f)) { incomplete("symbolic format string"); throw PathEnd(); }
    if (!va) { size_t k = fmtIdx + 1; format(s, f, [&, k](bool) mutable -> Val { if (k >= a.size()) fail(s, "memory", "format reads a missing argument"); return a[k++]; }, o); }
    else { uint64_t ap = a[fmtIdx + 1].c; uint64_t p; if (!concMem(s, ap + 8, &p, 8)) { fail(s, "memory", "invalid va_list"); } uint64_t p0 = p; (void)p0; format(s, f, [&, ap](bool) mutable -> Val { Val v = load(s, CV(p), 8); p += 8; return v; }, o); if (!concMem(s, ap + 8, &p0, 8)) {} putMem(s, ap + 8, &p, 8); }
    (void)I;
  };
  exts["snprintf"] = [this, doFmt](State &s, Inst &I, std::vector<Val> &a, Val &r) { Out o; uint64_t cap = concretize(s, a[1], 64, "snprintf size"); doFmt(s, a, 2, false, o, I); emitBytes(s, a[0].c, o, cap); r = CV(o.b.size()); return true; };
  exts["sprintf"] = [this, doFmt](State &s, Inst &I, std::vector<Val> &a, Val &r) { Out o; doFmt(s, a, 1, false, o, I); emitBytes(s, a[0].c, o, 1u << 23); r = CV(o.b.size()); return true; };
  exts["vsnprintf"] = [this, doFmt](State &s, Inst &I, std::vector<Val> &a, Val &r) { Out o; uint64_t cap = concretize(s, a[1], 64, "snprintf size"); doFmt(s, a, 2, true, o, I); emitBytes(s, a[0].c, o, cap); r = CV(o.b.size()); return true; };
  exts["vsprintf"] = [this, doFmt](State &s, Inst &I, std::vector<Val> &a, Val &r) { Out o; doFmt(s, a, 1, true, o, I); emitBytes(s, a[0].c, o, 1u << 23); r = CV(o.b.size()); return true; };

  // ----- process, time, locking, randomness
  auto quit = [this](const char *what) { return [this, what](State &s, Inst &, std::vector<Val> &, Val &) -> bool { fail(s, "exit", std::string("process terminated by ") + what); return true; }; };
  exts["exit"] = quit("exit()"); exts["_exit"] = quit("_exit()"); exts["abort"] = quit("abort()"); exts["__assert_fail"] = quit("assert()"); exts["raise"] = quit("raise()");
  X("rand") { s.rnd = s.rnd * 1103515245u + 12345u; r = CV((s.rnd >> 1) & 0x7fffffff); return true; }; exts["random"] = exts["rand"]; exts["srand"] = noop;
  X("time") { r = CV(1700000000); if (a[0].c) { uint64_t t = r.c; putMem(s, a[0].c, &t, 8); } return true; };
  X("pthread_mutex_init") { s.mtx[concAddr(s, a[0], 1, false)] = 0; std::vector<char> z(40, 0); putMem(s, a[0].c, z.data(), 40); return true; };
  X("pthread_mutex_destroy") { uint64_t m = concAddr(s, a[0], 1, false); checkAccess(s, m, 40, false); if (s.mtx.count(m) && s.mtx[m]) fail(s, "lock", "destroying a locked mutex"); s.mtx.erase(m); return true; };
  X("pthread_mutex_lock") { uint64_t m = concAddr(s, a[0], 1, false); checkAccess(s, m, 40, true); if (s.mtx[m]) fail(s, "lock", "self-deadlock: mutex already locked"); s.mtx[m] = 1; return true; };
  X("pthread_mutex_trylock") { uint64_t m = concAddr(s, a[0], 1, false); checkAccess(s, m, 40, true); if (s.mtx[m]) r = CV(EBUSY); else { s.mtx[m] = 1; r = CV(0); } return true; };
  X("pthread_mutex_unlock") { uint64_t m = concAddr(s, a[0], 1, false); checkAccess(s, m, 40, true); if (!s.mtx[m]) fail(s, "lock", "unlock of a mutex that is not locked"); s.mtx[m] = 0; return true; };
  X("strptime") { std::string str, fmt; uint64_t p = concAddr(s, a[0], 1, false); struct tm tm; uint64_t f = concretize(s, a[1], 64, "format"); if (!concStr(s, f, fmt)) { incomplete("symbolic strptime format"); throw PathEnd(); }
    if (!concStr(s, p, str)) { if (fn("vpm_strptime")) return callModel(s, "vpm_strptime", a); str.clear(); for (uint64_t k = 0;; k++) { uint64_t c = concretize(s, loadByte(s, p + k), 8, "strptime"); if (!c) break; str.push_back((char)c); } }
    memset(&tm, 0, sizeof tm); concMem(s, a[2].c, &tm, sizeof tm); char *e = strptime(str.c_str(), fmt.c_str(), &tm); if (e) putMem(s, a[2].c, &tm, sizeof tm); r = CV(e ? p + (e - str.c_str()) : 0); return true; };
  for (const char *nm : {"mktime", "timegm"}) exts[nm] = [this, nm](State &s, Inst &, std::vector<Val> &a, Val &r) { struct tm tm; if (!concMem(s, a[0].c, &tm, sizeof tm)) return callModel(s, (std::string("vpm_") + nm).c_str(), a); time_t t = timegm(&tm); tm.tm_zone = nullptr; putMem(s, a[0].c, &tm, sizeof tm); r = CV((uint64_t)t); return true; };
  X("localtime_r") { time_t t; uint64_t x = 0; Val v = load(s, a[0], 8); x = concretize(s, v, 64, "localtime"); t = x; struct tm tm; localtime_r(&t, &tm); tm.tm_zone = nullptr; putMem(s, a[1].c, &tm, sizeof tm); r = a[1]; return true; };
  X("localtime") { time_t t = concretize(s, load(s, a[0], 8), 64, "localtime"); struct tm tm; localtime_r(&t, &tm); tm.tm_zone = nullptr; uint64_t h = heapAlloc(s, sizeof tm, true, O_HIDDEN); putMem(s, h, &tm, sizeof tm); r = CV(h); return true; };
  X("strftime") { struct tm tm; std::string f; if (!concMem(s, a[3].c, &tm, sizeof tm) || !concStr(s, a[2].c, f)) { incomplete("symbolic strftime"); throw PathEnd(); } tm.tm_zone = ""; std::vector<char> b(a[1].c + 1); size_t n = strftime(b.data(), a[1].c, f.c_str(), &tm); putMem(s, a[0].c, b.data(), n + 1); r = CV(n); return true; };
  X("getenv") { r = CV(0); return true; }; exts["tzset"] = noop; exts["setenv"] = noop;

  // ----- regular expressions
  X("regcomp") { std::string p; if (!concStr(s, concAddr(s, a[1], 1, false), p)) { incomplete("symbolic regular expression"); throw PathEnd(); } regex_t rx; int rc = regcomp(&rx, p.c_str(), (int)a[2].c); regex_t z; memset(&z, 0, sizeof z); if (!rc) { z.re_nsub = rx.re_nsub; regfree(&rx); } putMem(s, a[0].c, &z, sizeof z); if (!rc) { s.regexes[a[0].c] = std::string(1, (char)(a[2].c + 1)) + p; s.live++; } r = CV(rc); return true; };
  X("regfree") { if (s.regexes.erase(a[0].c)) s.live--; return true; };
  X("regerror") { r = CV(0); return true; };
  X("regexec") { auto it = s.regexes.find(a[0].c); if (it == s.regexes.end()) fail(s, "memory", "regexec on an uncompiled expression"); std::string str; uint64_t p = concAddr(s, a[1], 1, false); int fl = it->second[0] - 1; std::string pat = it->second.substr(1);
    if (concStr(s, p, str)) { regex_t rx; regcomp(&rx, pat.c_str(), fl); size_t n = (fl & REG_NOSUB) ? 0 : a[2].c; std::vector<regmatch_t> m(n + 1); int rc = regexec(&rx, str.c_str(), n, m.data(), (int)a[4].c); regfree(&rx); if (!rc && n) putMem(s, a[3].c, m.data(), n * sizeof(regmatch_t)); r = CV(rc); return true; }
    Obj *o = newObj(pat.size() + 1, O_HIDDEN); memcpy(o->c, pat.c_str(), pat.size() + 1); uint64_t pa = s.mem.add(o); std::vector<Val> b{CV(pa), CV(fl), CV(p), a[2], a[3]}; return callModel(s, "vpm_regexec", b); };

  // ----- harness API
  auto name = [this](State &s, const Val &v) { std::string n; concStr(s, v.c, n); return n; };
  auto sym = [this, name](unsigned w) { return [this, name, w](State &s, Inst &, std::vector<Val> &a, Val &r) { std::string n = name(s, a[0]); E e = P->var(n, w); s.in.push_back({n, e, 0}); r = EV(e); return true; }; };
  exts["vp_i64"] = exts["vp_u64"] = sym(64); exts["vp_i32"] = exts["vp_u32"] = sym(32); exts["vp_u8"] = exts["vp_i8"] = sym(8); exts["vp_f64"] = sym(64); exts["vp_bool"] = sym(1); exts["vp_u16"] = sym(16);
  exts["vp_bool"] = [this, name](State &s, Inst &, std::vector<Val> &a, Val &r) { std::string n = name(s, a[0]); E e = P->var(n, 1); s.in.push_back({n, e, 0}); r = EV(P->zext(e, 32)); return true; };
  exts["vp_range"] = [this, name](State &s, Inst &, std::vector<Val> &a, Val &r) { std::string n = name(s, a[0]); int64_t lo = sx(a[1].c, 64), hi = sx(a[2].c, 64); E e = P->var(n, 64); E c = P->andE(P->bin(SLE, P->konst(lo, 64), e), P->bin(SLE, e, P->konst(hi, 64))); s.in.push_back({n, e, 0}); if (s.model.size() <= e->val) s.model.resize(e->val + 1, 0); s.model[e->val] = lo; addpc(s, c); r = EV(e); return true; };
  exts["vp_bytes"] = [this, name](State &s, Inst &, std::vector<Val> &a, Val &) { std::string n = name(s, a[2]); uint64_t z = a[1].c; checkAccess(s, a[0].c, z, true); Obj *o = s.mem.findW(a[0].c); for (uint64_t i = 0; i < z; i++) { E e = P->var(n, 8); s.in.push_back({n, e, 0}); storeObj(o, (a[0].c & 0xffffff) + i, 1, EV(e)); } return true; };
  exts["vp_choose"] = [this, name](State &s, Inst &, std::vector<Val> &a, Val &r) { r = CV(choose(s, name(s, a[0]), (int)a[1].c)); return true; };
  X("vp_concretize") { r = CV(concretize(s, a[0], 64, "harness")); return true; };
  X("vp_assume") { Val c = a[0]; if (!c.e) { if (!(c.c & 0xffffffff)) { throw PathEnd(); } return true; } E e = P->notE(P->bin(EQ, c.e, P->konst(0, c.e->w))); if (P->eval(e, s.model)) { addpc(s, e); return true; } std::vector<uint64_t> m; int q = sol->check(s.pc, e, s.model, m); if (q != 1) throw PathEnd(); s.model = m; addpc(s, e); return true; };
  exts["vp_assert"] = [this, name](State &s, Inst &, std::vector<Val> &a, Val &) {
    std::string n = name(s, a[1]); S.asserts++; assertHits[n]++; Val c = a[0];
    if (!c.e) { if (!(c.c & 0xffffffff)) fail(s, "assert", n); S.assertsProved++; return true; }
    S.assertsSym++; assertSymHits[n]++; E ok = P->notE(P->bin(EQ, c.e, P->konst(0, c.e->w))); E bad = P->notE(ok); std::vector<uint64_t> m;
    if (P->eval(bad, s.model)) { report(s, "assert", n, s.model); if (sol->check(s.pc, ok, s.model, m) != 1) throw PathEnd(); s.model = m; addpc(s, ok); return true; }
    int q = sol->check(s.pc, bad, s.model, m); if (q == 1) { s.in.swap(s.in); report(s, "assert", n, m); addpc(s, ok); } else if (q == 0) S.assertsProved++; return true; };
  exts["vp_cover"] = [this, name](State &s, Inst &, std::vector<Val> &a, Val &) { std::string n = name(s, a[0]); if (!covers[n]++ || coverSamples.size() < 3) { std::string t = optName + " reached '" + n + "' with"; int k = 0; for (auto &i : s.in) { if (k++ > 24) { t += " ..."; break; } uint64_t v = i.e ? P->eval(i.e, s.model) : i.c; t += " " + i.name + "=" + std::to_string((long long)(i.e ? sx(v, i.e->w) : (int64_t)v)); } if (coverSamples.size() < 12) coverSamples.push_back(t); } return true; };
  X("vp_live") { r = CV(s.live); return true; };
  X("vp_arg") { size_t i = a[0].c; r = CV(i < optArgs.size() ? optArgs[i] : 0); return true; };
  X("vp_fault_arm") { // which allocations fail is symbolic: fault[k] is the number of the k-th allocation that does
    s.faultOn = true; s.faultMax = std::min<int>((int)a[0].c, 4); s.faultUsed = 0; s.faultN = 0; const unsigned LIM = 1u << 20; std::vector<E> cs;
    for (int k = 0; k < s.faultMax; k++) { E e = P->var("fault", 32); s.in.push_back({"fault", e, 0}); if (s.model.size() <= e->val) s.model.resize(e->val + 1, 0); s.model[e->val] = LIM - s.faultMax + k; cs.push_back(P->bin(ULT, k ? s.faultE[k - 1] : P->konst(0, 32), e)); s.faultE[k] = e; s.faultLast[k] = nullptr; }
    if (s.faultMax) cs.push_back(P->bin(ULE, s.faultE[s.faultMax - 1], P->konst(LIM, 32))); for (E c : cs) addpc(s, c); return true; };
  X("vp_fault_hold") { s.faultHold = (int)a[0].c; return true; };
  X("vp_fault_disarm") { s.faultOn = false; r = CV(s.faultUsed); return true; };
  X("vp_mutex_locked") { auto it = s.mtx.find(a[0].c); r = CV(it != s.mtx.end() && it->second); return true; };
  X("vp_is_symbolic") { r = CV(a[0].e != nullptr); return true; };
  X("vp_done") { complete(s); throw PathEnd(); return true; };
  X("vp_note") { if (optVerbose) { std::string n; concStr(s, a[0].c, n); fprintf(stderr, "[note] %s", n.c_str()); for (size_t i = 1; i < a.size(); i++) { if (a[i].e) fprintf(stderr, " <sym %llx>", (unsigned long long)P->eval(a[i].e, s.model)); else fprintf(stderr, " %lld", (long long)a[i].c); } fprintf(stderr, "\n"); } return true; };
  // branch-free boolean connectives for oracles
  auto tobool = [this](const Val &v) { return v.e ? P->notE(P->bin(EQ, v.e, P->konst(0, v.e->w))) : P->konst((v.c & 0xffffffff) != 0, 1); };
  exts["vp_and"] = [this, tobool](State &, Inst &, std::vector<Val> &a, Val &r) { r = EV(P->zext(P->andE(tobool(a[0]), tobool(a[1])), 32)); return true; };
  exts["vp_or"] = [this, tobool](State &, Inst &, std::vector<Val> &a, Val &r) { r = EV(P->zext(P->orE(tobool(a[0]), tobool(a[1])), 32)); return true; };
  exts["vp_not"] = [this, tobool](State &, Inst &, std::vector<Val> &a, Val &r) { r = EV(P->zext(P->notE(tobool(a[0])), 32)); return true; };
  exts["vp_ite"] = [this, tobool](State &, Inst &, std::vector<Val> &a, Val &r) { r = EV(P->ite(tobool(a[0]), toE(a[1], 64), toE(a[2], 64))); return true; };
#undef X
}

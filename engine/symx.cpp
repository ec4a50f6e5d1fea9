// symx: bounded symbolic executor for LLVM-18 bitcode.
//
// Every branch, assertion, pointer dereference, divisor and allocation outcome that depends on a
// symbolic input is decided by Z3 over the path condition; both feasible sides are explored.
// See /verif/DESIGN.md for the memory model, the libc models and the soundness notes.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <chrono>
#include <map>
#include <set>
#include <cstdio>
#include <cstdarg>
#include <functional>
#include <regex.h>
#include <time.h>
#include <ctype.h>
#include <errno.h>
#include <unistd.h>
#include <sys/resource.h>
using namespace llvm;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
[[noreturn]] static void die(const std::string &m) { fprintf(stderr, "symx: %s\n", m.c_str()); exit(3); }

// ------------------------------------------------------------------ options
static std::string optEntry = "vp_main", optOut, optReplayDir = ".", optName = "h";
static double optMaxTime = 600; static uint64_t optMaxSteps = 20000000, optMaxPaths = 2000000; static unsigned optQueryMs = 20000;
static int optMaxViol = 8; static bool optUninit = true; static bool optVerbose = false; static bool optTrace = false;
static std::vector<long> optArgs; static size_t optMaxStates = 200000; static std::string optDumpSmt; static int optDumpMax = 0;
static bool optLookahead = false; static int optWit = 0;

static ExprPool *P; static Z3Tr *Z;

// ------------------------------------------------------------------ values and memory
struct Val { uint64_t c; E e; };
static inline Val CV(uint64_t c) { return Val{c, nullptr}; }
static inline Val EV(E e) { if (e->k == CONST) return Val{e->val, nullptr}; return Val{0, e}; }
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : P->konst(v.c, w); }

enum OK_ : uint8_t { O_HEAP, O_STACK, O_GLOBAL, O_FUNC, O_HIDDEN };
struct Obj {
  uint32_t rc; uint32_t size; OK_ kind; bool ro; uint32_t site; // site: interned allocation site
  uint8_t *c; uint8_t *m; E **s;                                 // m: 0 concrete, 1 symbolic, 2 uninitialised
};
static uint64_t liveObjBytes = 0;
static Obj *newObj(uint32_t size, OK_ k) { Obj *o = new Obj(); o->rc = 1; o->size = size; o->kind = k; o->ro = false; o->site = 0; o->c = (uint8_t *)calloc(1, size ? size : 1); o->m = nullptr; o->s = nullptr; liveObjBytes += size; return o; }
enum { PG = 64 };
static inline uint32_t npages(Obj *o) { return (o->size + PG - 1) / PG + 1; }
static void freeS(Obj *o) { if (o->s) { for (uint32_t i = 0, n = npages(o); i < n; i++) free(o->s[i]); free(o->s); o->s = nullptr; } }
static void unref(Obj *o) { if (o && --o->rc == 0) { liveObjBytes -= o->size; free(o->c); free(o->m); freeS(o); delete o; } }
static Obj *cloneObj(Obj *o) {
  Obj *n = new Obj(*o); n->rc = 1; uint32_t z = o->size ? o->size : 1; n->c = (uint8_t *)malloc(z); memcpy(n->c, o->c, z);
  if (o->m) { n->m = (uint8_t *)malloc(z); memcpy(n->m, o->m, z); }
  if (o->s) { uint32_t np = npages(o); n->s = (E **)calloc(np, sizeof(E *)); for (uint32_t i = 0; i < np; i++) if (o->s[i]) { n->s[i] = (E *)malloc(PG * sizeof(E)); memcpy(n->s[i], o->s[i], PG * sizeof(E)); } }
  liveObjBytes += n->size; return n;
}
static void needM(Obj *o) { if (!o->m) o->m = (uint8_t *)calloc(1, o->size ? o->size : 1); }
static inline E sget(Obj *o, uint32_t i) { return o->s[i / PG][i % PG]; }
static void sset(Obj *o, uint32_t i, E e) { needM(o); if (!o->s) o->s = (E **)calloc(npages(o), sizeof(E *)); E *&p = o->s[i / PG]; if (!p) p = (E *)calloc(PG, sizeof(E)); p[i % PG] = e; o->m[i] = 1; }
static Obj FREED;

enum { CH = 64 };
struct Chunk { uint32_t rc = 1; Obj *o[CH] = {0}; };
struct Mem {
  std::vector<Chunk *> ch; uint32_t next = 16;
  std::vector<Obj *> stk;
  Mem() {}
  Mem(const Mem &b) : ch(b.ch), next(b.next), stk(b.stk) { for (auto *c : ch) if (c) c->rc++; for (auto *o : stk) o->rc++; }
  ~Mem() { for (auto *c : ch) if (c && --c->rc == 0) { for (auto *o : c->o) if (o && o != &FREED) unref(o); delete c; } for (auto *o : stk) unref(o); }
  Chunk *wchunk(uint32_t ci) {
    if (ci >= ch.size()) ch.resize(ci + 1, nullptr);
    Chunk *c = ch[ci];
    if (!c) return ch[ci] = new Chunk();
    if (c->rc > 1) { Chunk *n = new Chunk(); for (int i = 0; i < CH; i++) { n->o[i] = c->o[i]; if (n->o[i] && n->o[i] != &FREED) n->o[i]->rc++; } c->rc--; ch[ci] = c = n; }
    return c;
  }
  uint64_t add(Obj *o) { uint32_t id = next++; wchunk(id / CH)->o[id % CH] = o; return (uint64_t)id << 24; }
  Obj *get(uint32_t id) const { uint32_t ci = id / CH; if (ci >= ch.size() || !ch[ci]) return nullptr; return ch[ci]->o[id % CH]; }
  Obj *wr(uint32_t id) { Chunk *c = wchunk(id / CH); Obj *&o = c->o[id % CH]; if (o->rc > 1) { Obj *n = cloneObj(o); o->rc--; o = n; } return o; }
  void kill(uint32_t id) { Chunk *c = wchunk(id / CH); Obj *&o = c->o[id % CH]; if (o && o != &FREED) unref(o); o = &FREED; }
  static constexpr uint64_t STKBIT = 1ull << 46;
  uint64_t push(Obj *o) { stk.push_back(o); return STKBIT | (uint64_t)(stk.size() - 1) << 24; }
  Obj *find(uint64_t a) const { if (a & STKBIT) { uint64_t i = (a & ~STKBIT) >> 24; return i < stk.size() ? stk[i] : (i < (1u << 22) ? &FREED : nullptr); } uint64_t id = a >> 24; if (id >= (1u << 22)) return nullptr; return get(id); }
  Obj *findW(uint64_t a) { if (a & STKBIT) { uint64_t i = (a & ~STKBIT) >> 24; Obj *&o = stk[i]; if (o->rc > 1) { Obj *n = cloneObj(o); o->rc--; o = n; } return o; } return wr(a >> 24); }
};

// ------------------------------------------------------------------ pre-compiled code
struct Opnd { int32_t slot; uint64_t c; };
enum Op : uint8_t { I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_BIN, I_CMP, I_FCMP, I_CAST, I_SELECT, I_BR, I_CBR, I_SWITCH, I_CALL, I_RET, I_COPY, I_INSERT, I_UNREACH, I_FNEG, I_FROUND };
struct Fn;
struct Inst {
  Op op; uint8_t sub = 0, w = 0, w2 = 0; int dst = -1; int nd = 1; Opnd o[3]; int t0 = -1, t1 = -1, e0 = -1, e1 = -1;
  uint64_t imm = 0; std::vector<Opnd> args; std::vector<uint64_t> ex; std::vector<uint8_t> aw; std::vector<int> tg, eg; Fn *callee = nullptr; uint32_t line = 0; std::vector<Type *> ltypes; uint32_t uid = 0;
};
typedef std::vector<std::pair<int, Opnd>> Moves;
struct State; struct Exec;
typedef std::function<bool(State &, Inst &, std::vector<Val> &, Val &)> Ext; // false = frame was pushed / no return
struct Fn {
  std::string name, file; Function *f = nullptr; bool decl = true; int nslots = 0, nargs = 0; std::vector<Inst> code; std::vector<Moves> edges; uint64_t addr = 0; Ext *ext = nullptr; bool var = false; bool hit = false; std::vector<uint8_t> argw;
  std::vector<int> argslot;
};
struct Frame { Fn *f; int pc; int base; int mark; uint64_t va; };

struct Input { std::string name; E e; uint64_t c; };
struct State {
  std::vector<Frame> st; std::vector<Val> regs; Mem mem; std::vector<E> pc; std::vector<uint64_t> model; uint64_t steps = 0; std::vector<Input> in; unsigned forks = 0;
  int live = 0; int faultMax = 0, faultUsed = 0, faultHold = 0; uint32_t faultN = 0; E faultE[4] = {}, faultLast[4] = {}; bool faultOn = false; unsigned nmalloc = 0; unsigned rnd = 1; bool incompletePath = false; uint64_t id = 0;
  std::map<uint64_t, std::string> regexes; int noexit = 0; std::map<uint64_t, int> mtx; int preset = -1;
};
struct PathEnd {};      // path finished
struct Restart {};      // re-run the current instruction

// ------------------------------------------------------------------ statistics
static struct { uint64_t intervalQ = 0, byteQ = 0, paths = 0, steps = 0, queries = 0, sat = 0, unsat = 0, unk = 0, cacheHit = 0, modelHit = 0, forks = 0, asserts = 0, assertsSym = 0, assertsProved = 0, derefSym = 0, validated = 0, mismatch = 0, completed = 0; double tsolve = 0, tmax = 0; } S;
static std::map<std::string, uint64_t> covers, incompletes, assertHits, assertSymHits, assumeCut; static std::vector<std::string> coverSamples;
static void incomplete(const std::string &why) { incompletes[why]++; }

// ------------------------------------------------------------------ solver
// Exact decision procedure for constraints over a single variable that compare it (possibly extended or shifted by a
// constant) with constants: the value set is a union of intervals. Every 64th verdict is cross-checked with Z3.
struct Intervals {
  typedef std::vector<std::pair<uint64_t, uint64_t>> Set; unsigned w; uint64_t M;
  static Set norm(Set a) { std::sort(a.begin(), a.end()); Set r; for (auto &p : a) { if (!r.empty() && (p.first <= r.back().second || p.first == r.back().second + 1)) r.back().second = std::max(r.back().second, p.second); else r.push_back(p); } return r; }
  static Set meet(const Set &a, const Set &b) { Set r; size_t i = 0, j = 0; while (i < a.size() && j < b.size()) { uint64_t l = std::max(a[i].first, b[j].first), h = std::min(a[i].second, b[j].second); if (l <= h) r.push_back({l, h}); if (a[i].second < b[j].second) i++; else j++; } return r; }
  static Set join(Set a, const Set &b) { a.insert(a.end(), b.begin(), b.end()); return norm(a); }
  static Set inv(const Set &a, uint64_t M) { Set r; uint64_t at = 0; bool done = false; for (auto &p : a) { if (p.first > at) r.push_back({at, p.first - 1}); if (p.second == M) { done = true; break; } at = p.second + 1; } if (!done) r.push_back({at, M}); return r; }
  // values of the variable for which term t lies in set s
  bool back(E t, Set s, Set &out) {
    if (t->k == VAR) { out = s; return true; }
    if (t->k == ZEXT) { uint64_t m = maskw(t->a[0]->w); return back(t->a[0], meet(s, {{0, m}}), out); }
    if (t->k == SEXT) { unsigned n = t->a[0]->w; uint64_t m = maskw(n), half = m >> 1, W = maskw(t->w); Set lo = meet(s, {{0, half}}), hi = meet(s, {{W - half, W}}); for (auto &p : hi) { p.first &= m; p.second &= m; } return back(t->a[0], join(lo, hi), out); }
    if (t->k == ADD && (t->a[1]->k == CONST || t->a[0]->k == CONST)) { bool c1 = t->a[1]->k == CONST; uint64_t c = t->a[c1]->val, W = maskw(t->w); Set r; for (auto &p : s) { uint64_t l = (p.first - c) & W, h = (p.second - c) & W; if (l <= h) r.push_back({l, h}); else { r.push_back({0, h}); r.push_back({l, W}); } } return back(t->a[!c1], norm(r), out); }
    return false;
  }
  bool of(E e, Set &o) {
    if (e->k == CONST) { o = e->val ? Set{{0, M}} : Set{}; return true; }
    if (e->k == VAR && e->w == 1) { o = {{1, 1}}; return true; }
    if (e->w == 1 && (e->k == AND || e->k == OR)) { Set a, b; if (!of(e->a[0], a) || !of(e->a[1], b)) return false; o = e->k == AND ? meet(a, b) : join(a, b); return true; }
    if (e->w == 1 && e->k == XOR && e->a[1]->k == CONST) { Set a; if (!of(e->a[0], a)) return false; o = e->a[1]->val ? inv(a, M) : a; return true; }
    if (e->k < EQ || e->k > SLE) return false;
    bool c0 = e->a[0]->k == CONST, c1 = e->a[1]->k == CONST; if (c0 == c1) return false;
    E t = e->a[c0 ? 1 : 0]; uint64_t c = e->a[c0 ? 0 : 1]->val, W = maskw(t->w); Set s;
    if (t->w == 1 && t->k != VAR) { if (e->k != EQ) return false; Set a; if (!of(t, a)) return false; o = c ? a : inv(a, M); return true; }
    auto rng = [&](uint64_t l, uint64_t h, bool ok) { if (ok) s.push_back({l, h}); };
    auto sgn = [&](uint64_t l, uint64_t h) { /* signed l..h as unsigned pieces */ if (sx(l, t->w) > sx(h, t->w)) return; l &= W; h &= W; if (l <= h) s.push_back({l, h}); else { s.push_back({0, h}); s.push_back({l, W}); } };
    uint64_t smin = (W >> 1) + 1, smax = W >> 1;
    switch (e->k) {
    case EQ: rng(c, c, true); break;
    case ULT: if (c1) rng(0, c - 1, c > 0); else rng(c + 1, W, c < W); break;
    case ULE: if (c1) rng(0, c, true); else rng(c, W, true); break;
    case SLT: if (c1) { if (c != smin) sgn(smin, (c - 1) & W); } else if (c != smax) sgn((c + 1) & W, smax); break;
    case SLE: if (c1) sgn(smin, c); else sgn(c, smax); break;
    default: return false; }
    return back(t, norm(s), o);
  }
  // 1 sat, 0 unsat, -1 not in the fragment
  int run(const std::vector<E> &cs, unsigned width, uint64_t &val) { w = width; M = maskw(w); Set cur{{0, M}}; for (E e : cs) { Set s; if (!of(e, s)) return -1; cur = meet(cur, s); if (cur.empty()) return 0; } val = cur[0].first; return 1; }
};

// Sets of values of one variable of at most eight bits: conditions over a single input byte are decided by evaluating
// them for every value of the byte. Every 64th verdict is cross-checked with Z3.
struct BSet { uint64_t w[4]; bool has(unsigned i) const { return w[i >> 6] >> (i & 63) & 1; } void put(unsigned i) { w[i >> 6] |= 1ull << (i & 63); } bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); } int first() const { for (int i = 0; i < 4; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; } };
static std::unordered_map<E, BSet> bsets; static std::vector<uint64_t> bmodel;
static bool oneByte(E c, uint32_t &v) { auto &vs = P->varsOf(c); if (vs.size() != 1 || P->vars[vs[0]].w > 8) return false; v = vs[0]; return true; }
static const BSet &bset(E c) {
  auto it = bsets.find(c); if (it != bsets.end()) return it->second; uint32_t v = P->varsOf(c)[0]; unsigned n = 1u << P->vars[v].w; BSet b = {{0, 0, 0, 0}}; if (bmodel.size() <= v) bmodel.resize(v + 1 + 64, 0);
  for (unsigned i = 0; i < n; i++) { bmodel[v] = i; if (P->eval(c, bmodel)) b.put(i); } bmodel[v] = 0; return bsets[c] = b;
}
static E bcanon(uint32_t v, const BSet &b) { // the value of variable v is in the set
  unsigned w = P->vars[v].w, n = 1u << w; E x = P->byteVar(v), r = nullptr; unsigned cnt = 0; for (unsigned i = 0; i < n; i++) cnt += b.has(i); bool neg = cnt * 2 > n;
  for (unsigned i = 0; i < n; i++) if (b.has(i) != neg) { unsigned j = i; while (j + 1 < n && b.has(j + 1) != neg) j++; E t = i == j ? P->bin(EQ, x, P->konst(i, w)) : P->bin(ULE, P->bin(SUB, x, P->konst(i, w)), P->konst(j - i, w)); r = r ? P->bin(OR, r, t) : t; i = j; }
  if (!r) r = P->konst(0, 1); r = neg ? P->notE(r) : r; if (r->k != CONST) bsets[r] = b; return r;
}
struct Solver {
  std::vector<E> stack; bool popLater = false; int sinceReset = 0; Z3_solver s; std::unordered_map<std::string, std::pair<int, std::vector<std::pair<uint32_t, uint64_t>>>> cache; std::vector<std::vector<uint64_t>> recent; size_t rpos = 0;
  Solver() { s = Z3_mk_simple_solver(Z->c); Z3_solver_inc_ref(Z->c, s); setp(s); }
  void setp(Z3_solver sv) { Z3_params p = Z3_mk_params(Z->c); Z3_params_inc_ref(Z->c, p); Z3_params_set_uint(Z->c, p, Z3_mk_string_symbol(Z->c, "timeout"), optQueryMs); Z3_solver_set_params(Z->c, sv, p); Z3_params_dec_ref(Z->c, p); }
  static void slice(const std::vector<E> &pc, E cond, std::vector<E> &out) {
    std::set<uint32_t> vs; for (auto v : P->varsOf(cond)) vs.insert(v);
    std::vector<char> used(pc.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { auto &pv = P->varsOf(pc[i]); bool hit = false; for (auto v : pv) if (vs.count(v)) { hit = true; break; } if (hit) { used[i] = 1; ch = true; for (auto v : pv) vs.insert(v); out.push_back(pc[i]); } } }
  }
  // 1 sat (model updated), 0 unsat, -1 unknown
  int check(const std::vector<E> &pc, E cond, const std::vector<uint64_t> &base, std::vector<uint64_t> &model) {
    if (cond->k == CONST) { model = base; return cond->val ? 1 : 0; }
    std::vector<E> cs; slice(pc, cond, cs); cs.push_back(cond);
    std::sort(cs.begin(), cs.end() - 1, [](E a, E b) { return a->id < b->id; });
    std::string key; key.reserve(cs.size() * 4); for (E e : cs) key.append((const char *)&e->id, 4);
    auto it = cache.find(key);
    if (it != cache.end()) { S.cacheHit++; if (it->second.first == 1) { model = base; for (auto &p : it->second.second) { if (model.size() <= p.first) model.resize(p.first + 1, 0); model[p.first] = p.second; } } return it->second.first; }
    std::set<uint32_t> vs; for (E e : cs) for (auto v : P->varsOf(e)) vs.insert(v);
    for (auto &m : recent) { P->begin(m); bool ok = true; for (size_t i = cs.size(); ok && i-- > 0;) ok = P->ev(cs[i]); if (ok) { S.modelHit++; std::vector<uint64_t> mm = base; std::vector<std::pair<uint32_t, uint64_t>> kv; for (auto v : vs) { if (mm.size() <= v) mm.resize(v + 1, 0); mm[v] = v < m.size() ? m[v] : 0; kv.push_back({v, mm[v]}); } cache[key] = {1, kv}; model = mm; return 1; } }
    S.queries++; double t0 = now(); int iv = -1; uint64_t ivv = 0;
    if (vs.size() == 1 && P->vars[*vs.begin()].w <= 8) { BSet b = bset(cs[0]); for (size_t i = 1; i < cs.size(); i++) { const BSet &o = bset(cs[i]); for (int k = 0; k < 4; k++) b.w[k] &= o.w[k]; } iv = b.empty() ? 0 : 1; if (iv) ivv = b.first(); S.byteQ++;
      if (S.byteQ % 64) { std::vector<std::pair<uint32_t, uint64_t>> kv; S.tsolve += now() - t0; if (iv) { S.sat++; uint32_t v = *vs.begin(); model = base; if (model.size() <= v) model.resize(v + 1, 0); model[v] = ivv; kv.push_back({v, ivv}); } else S.unsat++; cache[key] = {iv, kv}; return iv; } }
    else if (vs.size() == 1) { Intervals I; iv = I.run(cs, P->vars[*vs.begin()].w, ivv); if (iv >= 0 && ++S.intervalQ % 64) {
      std::vector<std::pair<uint32_t, uint64_t>> kv; S.tsolve += now() - t0; if (iv) { S.sat++; uint32_t v = *vs.begin(); model = base; if (model.size() <= v) model.resize(v + 1, 0); model[v] = ivv; kv.push_back({v, ivv}); P->begin(model); bool ok = true; for (E e : cs) if (!P->ev(e)) ok = false; if (!ok) { S.mismatch++; incomplete("interval verdict not confirmed"); } } else S.unsat++;
      cache[key] = {iv, kv}; return iv; } }
    { // keep the common prefix of the previous query asserted
      size_t n = cs.size() - 1, c = 0; while (c < n && c < stack.size() && stack[c] == cs[c]) c++;
      if (stack.size() > c) { Z3_solver_pop(Z->c, s, stack.size() - c); stack.resize(c); }
      for (; c < n; c++) { Z3_solver_push(Z->c, s); Z3_solver_assert(Z->c, s, Z->boolOf(cs[c])); stack.push_back(cs[c]); }
      Z3_solver_push(Z->c, s); Z3_solver_assert(Z->c, s, Z->boolOf(cs[n])); popLater = true; }
    Z3_lbool r = Z3_solver_check(Z->c, s); if (iv >= 0 && r != Z3_L_UNDEF && iv != (r == Z3_L_TRUE)) { S.mismatch++; incomplete("interval verdict differs from Z3"); } Z3_solver used = s; Z3_solver alt = nullptr;
    if (r == Z3_L_UNDEF) { alt = Z3_mk_solver(Z->c); Z3_solver_inc_ref(Z->c, alt); setp(alt); for (E e : cs) Z3_solver_assert(Z->c, alt, Z->boolOf(e)); r = Z3_solver_check(Z->c, alt); used = alt; }
    double dt = now() - t0; S.tsolve += dt; if (dt > S.tmax) S.tmax = dt;
    int res; std::vector<std::pair<uint32_t, uint64_t>> kv;
    if (r == Z3_L_TRUE) {
      S.sat++; res = 1; Z3_model m = Z3_solver_get_model(Z->c, used); Z3_model_inc_ref(Z->c, m);
      model = base; std::vector<uint64_t> rm;
      for (auto v : vs) {
        uint64_t val = 0; char n[32]; snprintf(n, sizeof n, "v%u", v); Z3_ast c = Z3_mk_const(Z->c, Z3_mk_string_symbol(Z->c, n), Z->bvs(P->vars[v].w)), o;
        if (Z3_model_eval(Z->c, m, c, true, &o)) Z3_get_numeral_uint64(Z->c, o, &val);
        if (model.size() <= v) model.resize(v + 1, 0); model[v] = val; kv.push_back({v, val});
      }
      Z3_model_dec_ref(Z->c, m);
      // self-check of the encoding: the model must satisfy the constraints under our own evaluator
      P->begin(model); bool ok = true; for (E e : cs) if (!P->ev(e)) { ok = false; break; }
      if (ok) S.validated++; else { S.mismatch++; incomplete("solver model not confirmed by the evaluator"); res = -1; }
      if (res == 1) { if (recent.size() < 12) recent.push_back(model); else recent[rpos++ % 12] = model; }
    } else if (r == Z3_L_FALSE) { S.unsat++; res = 0; }
    else { S.unk++; res = -1; incomplete("solver timeout"); if (optVerbose) { fprintf(stderr, "TIMEOUT %s\n", Z3_solver_to_string(Z->c, used)); } }
    if (!optDumpSmt.empty() && (int)S.queries <= optDumpMax * 50 && S.queries % 50 == 1 && res >= 0) {
      std::string fn = optDumpSmt + "." + std::to_string(S.queries) + (res ? ".sat" : ".unsat") + ".smt2"; if (FILE *f = fopen(fn.c_str(), "w")) { fprintf(f, "(set-logic ALL)\n%s(check-sat)\n", Z3_solver_to_string(Z->c, used)); fclose(f); }
    }
    if (alt) Z3_solver_dec_ref(Z->c, alt);
    Z3_solver_pop(Z->c, s, 1); if (++sinceReset > 20000) { Z3_solver_reset(Z->c, s); stack.clear(); sinceReset = 0; }
    cache[key] = {res, kv}; return res;
  }
};

// ------------------------------------------------------------------ executor
struct Violation { std::string kind, msg, where, stack, file; bool uninit; };
struct Exec {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout *DL = nullptr;
  std::map<std::string, Fn *> fns; std::unordered_map<Function *, Fn *> fmap; std::unordered_map<GlobalValue *, uint64_t> gaddr; std::unordered_map<uint64_t, Fn *> faddr;
  State *init = nullptr; std::vector<State *> work; Solver *sol; State *cur = nullptr; std::map<std::string, Ext> exts; std::vector<Violation> viol; std::set<std::string> violKeys; std::vector<std::string> sites; std::map<std::string, uint32_t> siteIds; double t0; uint64_t nextId = 1;
  uint64_t addrErrno = 0, addrCtypeB = 0, addrToLower = 0, addrToUpper = 0; uint32_t nuid = 0;
  uint64_t choiceSeq = 0; std::set<uint64_t> lexClass; // tables of the lexer whose entries need not be told apart

  // ---------- type helpers
  unsigned width(Type *t) {
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) die("integer wider than 64 bits"); return w; }
    if (t->isPointerTy()) return 64; if (t->isDoubleTy() || t->isX86_FP80Ty()) return 64; if (t->isFloatTy()) return 32; if (t->isVoidTy()) return 0;
    std::string s; raw_string_ostream os(s); t->print(os); die("unsupported scalar type " + s);
  }
  void leaves(Type *t, std::vector<Type *> &out) { if (auto *st = dyn_cast<StructType>(t)) for (auto *e : st->elements()) leaves(e, out); else if (auto *at = dyn_cast<ArrayType>(t)) for (uint64_t i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), out); else if (!t->isVoidTy()) out.push_back(t); }
  int nleaves(Type *t) { if (t->isVoidTy()) return 0; if (!t->isAggregateType()) return 1; std::vector<Type *> v; leaves(t, v); return v.size(); }
  void leafOffsets(Type *t, uint64_t off, std::vector<uint64_t> &out) {
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leafOffsets(st->getElementType(i), off + sl->getElementOffset(i), out); }
    else if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t z = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) leafOffsets(at->getElementType(), off + i * z, out); } else out.push_back(off);
  }
  int leafIndex(Type *t, ArrayRef<unsigned> idx) { int n = 0; for (unsigned i : idx) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) n += nleaves(st->getElementType(j)); t = st->getElementType(i); } else { auto *at = cast<ArrayType>(t); n += i * nleaves(at->getElementType()); t = at->getElementType(); } } return n; }
  uint64_t storeSize(Type *t) { return t->isX86_FP80Ty() ? 8 : (uint64_t)DL->getTypeStoreSize(t); }

  // ---------- constants
  void evalConst(Constant *c, std::vector<Opnd> &out) {
    Type *t = c->getType();
    if (isa<UndefValue>(c)) { int n = nleaves(t); for (int i = 0; i < n; i++) out.push_back({-2, 0}); return; }
    if (auto *ci = dyn_cast<ConstantInt>(c)) { out.push_back({-1, ci->getZExtValue() & maskw(width(t))}); return; }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { if (t->isX86_FP80Ty()) { bool li; APFloat f = cf->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); out.push_back({-1, d2bits(f.convertToDouble())}); } else out.push_back({-1, cf->getValueAPF().bitcastToAPInt().getZExtValue()}); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back({-1, 0}); return; }
    if (auto *gv = dyn_cast<GlobalAlias>(c)) { evalConst(gv->getAliasee(), out); return; }
    if (auto *gv = dyn_cast<GlobalValue>(c)) { out.push_back({-1, gaddr.at(gv)}); return; }
    if (isa<ConstantAggregateZero>(c)) { int n = nleaves(t); for (int i = 0; i < n; i++) out.push_back({-1, 0}); return; }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) evalConst(ca->getOperand(i), out); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) evalConst(cd->getElementAsConstant(i), out); return; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      auto sc = [&](unsigned i) { std::vector<Opnd> v; evalConst(ce->getOperand(i), v); return v[0].c; };
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto *g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*DL, off)) die("constant gep"); out.push_back({-1, sc(0) + off.getSExtValue()}); return; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::IntToPtr: out.push_back({-1, sc(0)}); return;
      case Instruction::PtrToInt: case Instruction::Trunc: out.push_back({-1, sc(0) & maskw(width(t))}); return;
      case Instruction::Sub: out.push_back({-1, (sc(0) - sc(1)) & maskw(width(t))}); return;
      case Instruction::Add: out.push_back({-1, (sc(0) + sc(1)) & maskw(width(t))}); return;
      case Instruction::ICmp: { uint64_t a = sc(0), b = sc(1); auto p = cast<ConstantExpr>(ce)->getPredicate(); out.push_back({-1, (uint64_t)(p == CmpInst::ICMP_EQ ? a == b : a != b)}); return; }
      default: die(std::string("constant expression ") + ce->getOpcodeName());
      }
    }
    std::string s; raw_string_ostream os(s); c->print(os); die("unsupported constant " + s);
  }
  void initGlobal(GlobalVariable *g, Obj *o) {
    if (!g->hasInitializer()) return; writeConst(g->getInitializer(), o, 0);
  }
  void writeConst(Constant *c, Obj *o, uint64_t off) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(o->c + off, r.data(), r.size()); return; }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
      for (unsigned i = 0; i < ca->getNumOperands(); i++) { uint64_t eo = isa<StructType>(t) ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(ca->getOperand(i)->getType()); writeConst(ca->getOperand(i), o, off + eo); }
      return;
    }
    std::vector<Opnd> v; evalConst(c, v); uint64_t x = v[0].c; memcpy(o->c + off, &x, storeSize(t));
  }

  // ---------- compilation of functions
  Opnd operand(Value *v, std::unordered_map<Value *, int> &slots, int leaf = 0) {
    if (auto *c = dyn_cast<Constant>(v)) { std::vector<Opnd> o; evalConst(c, o); return o.empty() ? Opnd{-1, 0} : o[leaf]; }
    auto it = slots.find(v); if (it == slots.end()) die("operand without slot"); return {it->second + leaf, 0};
  }
  // __wrap_f / __real_f redirection with the meaning of the linker's --wrap
  Fn *wrapped(Fn *c, Fn *from) { if (from->name.rfind("__wrap_", 0) != 0) { auto it = fns.find("__wrap_" + c->name); if (it != fns.end() && !it->second->decl) return it->second; } if (c->decl && c->name.rfind("__real_", 0) == 0) { auto it = fns.find(c->name.substr(7)); if (it != fns.end()) return it->second; } return c; }
  void compile(Fn *F) {
    Function *f = F->f; std::unordered_map<Value *, int> slots; int n = 0;
    for (auto &a : f->args()) { slots[&a] = n; F->argslot.push_back(n); n += nleaves(a.getType()); }
    F->nargs = n;
    for (auto &b : *f) for (auto &i : b) if (!i.getType()->isVoidTy()) { slots[&i] = n; n += nleaves(i.getType()); }
    F->nslots = n;
    std::unordered_map<BasicBlock *, int> start; std::vector<std::tuple<int, BasicBlock *, int, BasicBlock *>> fix; // inst, pred, which, succ
    auto edge = [&](BasicBlock *p, BasicBlock *s) { Moves mv; for (auto &ph : s->phis()) { Value *v = ph.getIncomingValueForBlock(p); int nl = nleaves(ph.getType()); for (int k = 0; k < nl; k++) mv.push_back({slots[&ph] + k, operand(v, slots, k)}); } F->edges.push_back(mv); return (int)F->edges.size() - 1; };
    for (auto &b : *f) {
      start[&b] = F->code.size();
      for (auto &ii : b) {
        Instruction *i = &ii; Inst I; I.uid = nuid++; I.line = i->getDebugLoc() ? i->getDebugLoc().getLine() : 0;
        I.dst = i->getType()->isVoidTy() ? -1 : slots[i]; I.nd = nleaves(i->getType());
        if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) continue;
        if (auto *a = dyn_cast<AllocaInst>(i)) { I.op = I_ALLOCA; I.imm = DL->getTypeAllocSize(a->getAllocatedType()); I.o[0] = operand(a->getArraySize(), slots); }
        else if (auto *l = dyn_cast<LoadInst>(i)) { I.op = I_LOAD; I.o[0] = operand(l->getPointerOperand(), slots); leaves(l->getType(), I.ltypes); leafOffsets(l->getType(), 0, I.ex); for (auto *t : I.ltypes) { I.aw.push_back(width(t)); I.tg.push_back(storeSize(t)); } I.w = I.aw.empty() ? 0 : I.aw[0]; I.w2 = I.tg.empty() ? 0 : I.tg[0]; }
        else if (auto *s = dyn_cast<StoreInst>(i)) { I.op = I_STORE; I.o[1] = operand(s->getPointerOperand(), slots); Value *v = s->getValueOperand(); leaves(v->getType(), I.ltypes); leafOffsets(v->getType(), 0, I.ex); int k = 0; for (auto *t : I.ltypes) { I.aw.push_back(width(t)); I.tg.push_back(storeSize(t)); I.args.push_back(operand(v, slots, k++)); } }
        else if (auto *g = dyn_cast<GetElementPtrInst>(i)) {
          I.op = I_GEP; I.o[0] = operand(g->getPointerOperand(), slots); int64_t off = 0;
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            Value *x = it.getOperand();
            if (auto *st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(x)->getZExtValue()); continue; }
            uint64_t z = DL->getTypeAllocSize(it.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(x)) off += ci->getSExtValue() * (int64_t)z; else { I.args.push_back(operand(x, slots)); I.ex.push_back(z); I.aw.push_back(width(x->getType())); }
          }
          I.imm = off;
        } else if (auto *bo = dyn_cast<BinaryOperator>(i)) {
          I.op = I_BIN; I.w = width(bo->getType()); I.o[0] = operand(bo->getOperand(0), slots); I.o[1] = operand(bo->getOperand(1), slots);
          switch (bo->getOpcode()) {
          case Instruction::Add: I.sub = ADD; break; case Instruction::Sub: I.sub = SUB; break; case Instruction::Mul: I.sub = MUL; break;
          case Instruction::UDiv: I.sub = UDIV; break; case Instruction::SDiv: I.sub = SDIV; break; case Instruction::URem: I.sub = UREM; break; case Instruction::SRem: I.sub = SREM; break;
          case Instruction::And: I.sub = AND; break; case Instruction::Or: I.sub = OR; break; case Instruction::Xor: I.sub = XOR; break;
          case Instruction::Shl: I.sub = SHL; break; case Instruction::LShr: I.sub = LSHR; break; case Instruction::AShr: I.sub = ASHR; break;
          case Instruction::FAdd: I.sub = FADD; break; case Instruction::FSub: I.sub = FSUB; break; case Instruction::FMul: I.sub = FMUL; break; case Instruction::FDiv: I.sub = FDIV; break; case Instruction::FRem: I.sub = FREM; break;
          default: die("binop");
          }
        } else if (auto *c = dyn_cast<ICmpInst>(i)) { I.op = I_CMP; I.sub = c->getPredicate(); I.w = width(c->getOperand(0)->getType()); I.o[0] = operand(c->getOperand(0), slots); I.o[1] = operand(c->getOperand(1), slots); }
        else if (auto *c = dyn_cast<FCmpInst>(i)) { I.op = I_FCMP; I.sub = c->getPredicate(); I.w = width(c->getOperand(0)->getType()); I.o[0] = operand(c->getOperand(0), slots); I.o[1] = operand(c->getOperand(1), slots); }
        else if (auto *c = dyn_cast<CastInst>(i)) {
          I.o[0] = operand(c->getOperand(0), slots); I.w = width(c->getType()); I.w2 = width(c->getOperand(0)->getType()); I.op = I_CAST;
          switch (c->getOpcode()) {
          case Instruction::Trunc: I.sub = EXTRACT; break; case Instruction::ZExt: I.sub = ZEXT; break; case Instruction::SExt: I.sub = SEXT; break;
          case Instruction::BitCast: case Instruction::AddrSpaceCast: I.op = I_COPY; break;
          case Instruction::PtrToInt: I.sub = EXTRACT; if (I.w == I.w2) I.op = I_COPY; break; case Instruction::IntToPtr: I.sub = ZEXT; if (I.w == I.w2) I.op = I_COPY; break;
          case Instruction::SIToFP: I.sub = SI2F; break; case Instruction::UIToFP: I.sub = UI2F; break; case Instruction::FPToSI: I.sub = F2SI; break; case Instruction::FPToUI: I.sub = F2UI; break;
          case Instruction::FPExt: I.sub = FEXT; if (I.w == I.w2) I.op = I_COPY; break; case Instruction::FPTrunc: I.sub = FTRUNC; if (I.w == I.w2) I.op = I_COPY; break;
          default: die("cast");
          }
        } else if (auto *s = dyn_cast<SelectInst>(i)) { I.op = I_SELECT; I.o[0] = operand(s->getCondition(), slots); for (int k = 0; k < I.nd; k++) { I.args.push_back(operand(s->getTrueValue(), slots, k)); I.args.push_back(operand(s->getFalseValue(), slots, k)); } leaves(s->getType(), I.ltypes); for (auto *t : I.ltypes) I.aw.push_back(width(t)); }
        else if (auto *fr = dyn_cast<FreezeInst>(i)) { I.op = I_COPY; for (int k = 0; k < I.nd; k++) I.args.push_back(operand(fr->getOperand(0), slots, k)); I.o[0] = I.args[0]; I.w = width(fr->getType()); }
        else if (auto *u = dyn_cast<UnaryOperator>(i)) { I.op = I_FNEG; I.w = width(u->getType()); I.o[0] = operand(u->getOperand(0), slots); }
        else if (auto *x = dyn_cast<ExtractValueInst>(i)) { I.op = I_COPY; int b0 = leafIndex(x->getAggregateOperand()->getType(), x->getIndices()); for (int k = 0; k < I.nd; k++) I.args.push_back(operand(x->getAggregateOperand(), slots, b0 + k)); I.o[0] = I.args[0]; I.w = 64; }
        else if (auto *x = dyn_cast<InsertValueInst>(i)) { I.op = I_INSERT; int b0 = leafIndex(x->getType(), x->getIndices()), nv = nleaves(x->getInsertedValueOperand()->getType()); for (int k = 0; k < I.nd; k++) I.args.push_back(k >= b0 && k < b0 + nv ? operand(x->getInsertedValueOperand(), slots, k - b0) : operand(x->getAggregateOperand(), slots, k)); }
        else if (auto *b2 = dyn_cast<BranchInst>(i)) {
          if (b2->isUnconditional()) { I.op = I_BR; I.e0 = edge(&b, b2->getSuccessor(0)); fix.push_back({(int)F->code.size(), &b, 0, b2->getSuccessor(0)}); }
          else { I.op = I_CBR; I.o[0] = operand(b2->getCondition(), slots); I.e0 = edge(&b, b2->getSuccessor(0)); I.e1 = edge(&b, b2->getSuccessor(1)); fix.push_back({(int)F->code.size(), &b, 0, b2->getSuccessor(0)}); fix.push_back({(int)F->code.size(), &b, 1, b2->getSuccessor(1)}); }
        } else if (auto *s = dyn_cast<SwitchInst>(i)) {
          I.op = I_SWITCH; I.o[0] = operand(s->getCondition(), slots); I.w = width(s->getCondition()->getType()); I.e0 = edge(&b, s->getDefaultDest()); fix.push_back({(int)F->code.size(), &b, 0, s->getDefaultDest()});
          int k = 0; for (auto &cs : s->cases()) { I.ex.push_back(cs.getCaseValue()->getZExtValue()); I.eg.push_back(edge(&b, cs.getCaseSuccessor())); I.tg.push_back(-1); fix.push_back({(int)F->code.size(), &b, 2 + k++, cs.getCaseSuccessor()}); }
        } else if (auto *c = dyn_cast<CallInst>(i)) {
          if (c->isInlineAsm()) { I.op = I_COPY; I.args.clear(); I.nd = 0; F->code.push_back(I); continue; }
          I.op = I_CALL; Function *cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
          if (cf) { if (cf->getName().starts_with("llvm.lifetime") || cf->getName().starts_with("llvm.assume") || cf->getName().starts_with("llvm.experimental.noalias")) continue; I.callee = wrapped(fmap.at(cf), F); } else I.o[0] = operand(c->getCalledOperand(), slots);
          for (unsigned k = 0; k < c->arg_size(); k++) { Type *t = c->getArgOperand(k)->getType(); if (t->isMetadataTy()) { I.args.push_back({-1, 0}); I.aw.push_back(64); continue; } if (c->isByValArgument(k)) I.tg.push_back(k), I.ex.push_back(DL->getTypeAllocSize(c->getParamByValType(k))); int nl = nleaves(t); std::vector<Type *> lt; leaves(t, lt); for (int q = 0; q < nl; q++) { I.args.push_back(operand(c->getArgOperand(k), slots, q)); I.aw.push_back(width(lt[q])); } }
          if (!c->getType()->isVoidTy() && I.nd == 1) I.w = width(c->getType());
        } else if (auto *r = dyn_cast<ReturnInst>(i)) { I.op = I_RET; I.nd = r->getReturnValue() ? nleaves(r->getReturnValue()->getType()) : 0; for (int k = 0; k < I.nd; k++) I.args.push_back(operand(r->getReturnValue(), slots, k)); }
        else if (isa<UnreachableInst>(i)) I.op = I_UNREACH;
        else { std::string s; raw_string_ostream os(s); i->print(os); die("unsupported instruction " + s); }
        F->code.push_back(I);
      }
    }
    for (auto &[ix, p, wh, s] : fix) { int t = start[s]; if (wh == 0) F->code[ix].t0 = t; else if (wh == 1) F->code[ix].t1 = t; else F->code[ix].tg[wh - 2] = t; }
  }

  // ---------- reporting
  static std::string where(State &s) { for (size_t i = s.st.size(); i-- > 0;) { auto &f = s.st[i]; if (f.f->file.find("/harness/") == std::string::npos && f.f->file.find("/lib/") == std::string::npos) { int pc = f.pc; return f.f->name + ":" + std::to_string(f.f->code[std::min<size_t>(pc, f.f->code.size() - 1)].line); } } return s.st.empty() ? "?" : s.st.back().f->name; }
  static std::string whereFn(State &s) { for (size_t i = s.st.size(); i-- > 0;) { auto &f = s.st[i]; if (f.f->file.find("/harness/") == std::string::npos && f.f->file.find("/lib/") == std::string::npos) return f.f->name; } return s.st.empty() ? "?" : s.st.back().f->name; }
  static bool inGenerated(State &s) { if (s.st.empty()) return false; const std::string &n = s.st.back().f->name; return n == "yylex" || n == "yyparse" || n == "yy_get_previous_state" || n == "yy_try_NUL_trans" || n == "yy_get_next_buffer"; }
  static std::string stackOf(State &s) { std::string r; for (size_t i = s.st.size(); i-- > 0;) { auto &f = s.st[i]; r += (r.empty() ? "" : " < ") + f.f->name + ":" + std::to_string(f.f->code[std::min<size_t>(f.pc, f.f->code.size() - 1)].line); if (r.size() > 900) break; } return r; }
  void dumpInputs(State &s, const std::vector<uint64_t> &m, FILE *f) { for (auto &i : s.in) { uint64_t v = i.e ? P->eval(i.e, m) : i.c; fprintf(f, "%s %llu\n", i.name.c_str(), (unsigned long long)v); } }
  void report(State &s, const std::string &kind, const std::string &msg, const std::vector<uint64_t> &m) {
    std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : whereFn(s));
    if (violKeys.count(key)) return; violKeys.insert(key);
    bool un = false; for (E e : s.pc) for (auto v : P->varsOf(e)) if (P->vars[v].uninit) un = true;
    char fn[512]; snprintf(fn, sizeof fn, "%s/%s.cex%zu", optReplayDir.c_str(), optName.c_str(), viol.size());
    if (FILE *f = fopen(fn, "w")) { fprintf(f, "# %s: %s\n# at %s\n# stack %s\n", kind.c_str(), msg.c_str(), where(s).c_str(), stackOf(s).c_str()); for (long a : optArgs) fprintf(f, "#arg %ld\n", a); dumpInputs(s, m, f); fclose(f); }
    viol.push_back({kind, msg, where(s), stackOf(s), fn, un});
    if (optVerbose) fprintf(stderr, "[viol] %s: %s at %s\n", kind.c_str(), msg.c_str(), stackOf(s).c_str());
  }
  int nwit = 0; std::vector<std::string> wits;
  // a completed path: its model is a concrete witness that the driver replays on the native build
  void complete(State &s) { uint64_t n = ++S.completed; if (nwit >= optWit || (n & (n - 1))) return; char fn[512]; snprintf(fn, sizeof fn, "%s/%s.wit%d", optReplayDir.c_str(), optName.c_str(), nwit++); if (FILE *f = fopen(fn, "w")) { for (long a : optArgs) fprintf(f, "#arg %ld\n", a); dumpInputs(s, s.model, f); fclose(f); wits.push_back(fn); } }
  [[noreturn]] void fail(State &s, const std::string &kind, const std::string &msg) { report(s, kind, msg, s.model); throw PathEnd(); }

  // ---------- branching
  void addpc(State &s, E c) { if (c->k == CONST) return; if (c->k == AND && c->w == 1) { addpc(s, c->a[0]); addpc(s, c->a[1]); return; } for (E e : s.pc) if (e == c) return;
    uint32_t v, u; if (oneByte(c, v)) { BSet b = bset(c); for (size_t i = 0; i < s.pc.size(); i++) if (oneByte(s.pc[i], u) && u == v) { const BSet &o = bset(s.pc[i]); for (int k = 0; k < 4; k++) b.w[k] &= o.w[k]; s.pc.erase(s.pc.begin() + i--); } if (b.empty()) throw PathEnd(); c = bcanon(v, b); if (c->k == CONST) return; }
    s.pc.push_back(c); }
  // Decide a boolean. When both values are feasible the other side is queued (it re-executes the current instruction).
  bool decide(State &s, E c) {
    if (c->k == CONST) return c->val;
    for (E e : s.pc) if (e == c) return true;
    E nc = P->notE(c);
    for (E e : s.pc) if (e == nc) return false;
    bool v = P->eval(c, s.model); E me = v ? c : nc, other = v ? nc : c;
    std::vector<uint64_t> om; int r = sol->check(s.pc, other, s.model, om);
    if (r == 1) {
      S.forks++;
      if (work.size() < optMaxStates) { State *o = new State(s); o->model = om; o->id = nextId++; o->forks++; addpc(*o, other); work.push_back(o); } else incomplete("state limit");
      s.forks++; addpc(s, me);
    }
    return v;
  }
  bool decide(State &s, const Val &v) { if (!v.e) return v.c & 1; return decide(s, v.e); }
  // Concretise: fork over every feasible value (exhaustive up to `cap`).
  uint64_t concretize(State &s, const Val &v, unsigned w, const char *why, unsigned cap = 600) {
    if (!v.e) return v.c;
    uint64_t x = P->eval(v.e, s.model); E eq = P->bin(EQ, v.e, P->konst(x, w)); E ne = P->notE(eq);
    std::vector<uint64_t> om; int r = sol->check(s.pc, ne, s.model, om);
    if (r == 1) { S.forks++; if (s.forks > 4000 || work.size() >= optMaxStates) incomplete(std::string("concretisation limit: ") + why); else { State *o = new State(s); o->model = om; o->id = nextId++; o->forks++; addpc(*o, ne); work.push_back(o); } addpc(s, eq); }
    (void)cap; return x;
  }

  // ---------- memory access
  E freshUninit() { return P->var("uninit", 8, true); }
  E byteAt(Obj *o, uint32_t off) { if (!o->m || o->m[off] == 0) return P->konst(o->c[off], 8); if (o->m[off] == 1) return sget(o, off); return nullptr; }
  Val loadObj(State &s, uint64_t addr, Obj *o, uint32_t off, unsigned n) {
    bool conc = !o->m; if (!conc) { conc = true; for (unsigned i = 0; i < n; i++) if (o->m[off + i]) { conc = false; break; } }
    if (conc) { uint64_t x = 0; memcpy(&x, o->c + off, n); return CV(x); }
    for (unsigned i = 0; i < n; i++) if (o->m[off + i] == 2) { Obj *w = s.mem.findW(addr); for (unsigned k = 0; k < n; k++) if (w->m[off + k] == 2) sset(w, off + k, freshUninit()); o = w; break; }
    E acc = byteAt(o, off); for (unsigned i = 1; i < n; i++) acc = P->concat(byteAt(o, off + i), acc);
    return EV(acc);
  }
  void storeObj(Obj *o, uint32_t off, unsigned n, const Val &v) {
    if (!v.e) { memcpy(o->c + off, &v.c, n); if (o->m) memset(o->m + off, 0, n); return; }
    needM(o); for (unsigned i = 0; i < n; i++) { E b = P->extract(v.e, i * 8, 8); if (b->k == CONST) { o->m[off + i] = 0; o->c[off + i] = b->val; } else sset(o, off + i, b); }
  }
  std::string objDesc(Obj *o) { const char *k[] = {"heap", "stack", "global", "function", "hidden"}; return std::string(k[o->kind]) + " object of " + std::to_string(o->size) + " bytes" + (o->site ? " (" + sites[o->site] + ")" : ""); }
  Obj *checkAccess(State &s, uint64_t a, uint64_t n, bool write) {
    Obj *o = s.mem.find(a);
    if (!o) fail(s, "memory", a < (16ull << 24) ? "NULL pointer dereference" : "invalid pointer dereference");
    if (o == &FREED) fail(s, "memory", (a & Mem::STKBIT) ? "use of dead stack object" : "use after free");
    uint64_t off = a & 0xffffff;
    if (off + n > o->size || o->kind == O_FUNC) fail(s, "memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + objDesc(o));
    if (write && o->ro) fail(s, "memory", "write to read-only object");
    return o;
  }
  // resolve a symbolic address to one object (forks if several); returns base address and symbolic offset
  bool resolve(State &s, E a, uint64_t n, uint64_t &base, E &off, bool write) {
    for (;;) {
      while (a->k == ITE) { a = decide(s, a->a[0]) ? a->a[1] : a->a[2]; }
      if (a->k == CONST) { base = a->val; off = nullptr; return true; }
      if (a->k == ADD && a->a[0]->k == ITE && a->a[0]->w == 64) { bool d = decide(s, a->a[0]->a[0]); a = P->bin(ADD, d ? a->a[0]->a[1] : a->a[0]->a[2], a->a[1]); continue; }
      if (a->k == ADD && a->a[1]->k == ITE && a->a[1]->w == 64) { bool d = decide(s, a->a[1]->a[0]); a = P->bin(ADD, a->a[0], d ? a->a[1]->a[1] : a->a[1]->a[2]); continue; }
      break;
    }
    S.derefSym++;
    uint64_t x = P->eval(a, s.model); Obj *o = checkAccess(s, x, n, write); base = x & ~0xffffffull;
    off = P->bin(SUB, a, P->konst(base, 64)); E ok = P->bin(ULE, off, P->konst(o->size - n, 64));
    if (!decide(s, ok)) { /* model said in-bounds, so decide returned true; unreachable */ return resolve(s, a, n, base, off, write); }
    return true;
  }
  Val load(State &s, const Val &pv, unsigned n) {
    uint64_t a; E off = nullptr; uint64_t base;
    if (!pv.e) a = pv.c; else { resolve(s, pv.e, n, base, off, false); a = base; if (off && off->k == CONST) { a = base + off->val; off = nullptr; } }
    if (!off) { Obj *o = checkAccess(s, a, n, false); return loadObj(s, a, o, a & 0xffffff, n); }
    // symbolic offset inside one object: if-then-else over the feasible offsets
    Obj *o = s.mem.find(base); unsigned tz = trailing(off); uint64_t step = 1ull << std::min(tz, 12u); uint64_t r0 = off->lo % step ? off->lo + (step - off->lo % step) : off->lo; uint64_t hi = std::min<uint64_t>(off->hi, o->size - n);
    if ((hi - r0) / step > 5000) { uint64_t v = concretize(s, EV(off), 64, "symbolic offset"); return loadObj(s, base + v, o, v, n); }
    std::vector<std::pair<E, E>> groups; std::unordered_map<E, size_t> gi; uint32_t bv; Obj *bo = s.mem.find(base);
    if (oneByte(off, bv) && (!bo->m)) { // an index computed from one input byte: one entry per value it can have
      BSet d = {{~0ull, ~0ull, ~0ull, ~0ull}}; uint32_t u; for (E e : s.pc) if (oneByte(e, u) && u == bv) { const BSet &o = bset(e); for (int k = 0; k < 4; k++) d.w[k] &= o.w[k]; }
      std::map<uint64_t, BSet> g; unsigned nv = 1u << P->vars[bv].w; if (bmodel.size() <= bv) bmodel.resize(bv + 65, 0);
      for (unsigned i = 0; i < nv; i++) if (d.has(i)) { bmodel[bv] = i; uint64_t x = P->eval(off, bmodel), val = 0; if (x + n > o->size) continue; memcpy(&val, bo->c + x, n); auto it = g.find(val); if (it == g.end()) it = g.insert({val, BSet{{0, 0, 0, 0}}}).first; it->second.put(i); } bmodel[bv] = 0;
      for (auto &x : g) groups.push_back({bcanon(bv, x.second), P->konst(x.first, n * 8)});
    } else
    for (uint64_t x = r0; x <= hi; x += step) { Val v = loadObj(s, base, s.mem.find(base), x, n); E ve = toE(v, n * 8); E c = P->bin(EQ, off, P->konst(x, 64)); if (c->k == CONST && !c->val) continue; auto it = gi.find(ve); if (it == gi.end()) { gi[ve] = groups.size(); groups.push_back({c, ve}); } else groups[it->second].first = P->bin(OR, groups[it->second].first, c); }
    if (groups.empty()) fail(s, "memory", "misaligned symbolic access");
    E r = groups[0].second; for (size_t i = 1; i < groups.size(); i++) r = P->ite(groups[i].first, groups[i].second, r);
    // the tables of the generated lexer and parser: one path per table entry, so that the automaton's state stays concrete
    if (groups.size() > 1 && s.mem.find(base)->kind == O_GLOBAL && inGenerated(s) && !lexClass.count(base)) return CV(concretize(s, EV(r), n * 8, "table of the lexer"));
    return EV(r);
  }
  static unsigned trailing(E e) { switch (e->k) { case CONST: return e->val ? __builtin_ctzll(e->val) : 64; case SHL: return e->a[1]->k == CONST ? trailing(e->a[0]) + e->a[1]->val : 0; case MUL: return trailing(e->a[0]) + trailing(e->a[1]); case ADD: case SUB: case OR: return std::min(trailing(e->a[0]), trailing(e->a[1])); case CONCAT: { unsigned t = trailing(e->a[1]); return t >= e->a[1]->w ? e->a[1]->w + trailing(e->a[0]) : t; } case ZEXT: case SEXT: return std::min<unsigned>(trailing(e->a[0]), e->a[0]->w); case ITE: return std::min(trailing(e->a[1]), trailing(e->a[2])); default: return 0; } }
  uint64_t concAddr(State &s, const Val &pv, uint64_t n, bool write) {
    if (!pv.e) return pv.c; uint64_t base; E off; resolve(s, pv.e, n, base, off, write); if (!off) return base; return base + concretize(s, EV(off), 64, "symbolic store address");
  }
  void store(State &s, const Val &pv, unsigned n, const Val &v) { uint64_t a = concAddr(s, pv, n, true); checkAccess(s, a, n, true); storeObj(s.mem.findW(a), a & 0xffffff, n, v); }
  void checkRange(State &s, uint64_t a, uint64_t n, bool write) { if (n) checkAccess(s, a, n, write); }
  void copyBytes(State &s, uint64_t d, uint64_t a, uint64_t n) {
    if (!n) return; Obj *so = checkAccess(s, a, n, false); checkAccess(s, d, n, true); so->rc++; Obj *w = s.mem.findW(d); uint32_t so_ = a & 0xffffff, dof = d & 0xffffff;
    if (w == so || (!so->m && !w->m)) { if (!so->m) { memmove(w->c + dof, so->c + so_, n); unref(so); return; } }
    needM(w);
    if (!so->m) { memcpy(w->c + dof, so->c + so_, n); memset(w->m + dof, 0, n); unref(so); return; }
    std::vector<E> sy; std::vector<uint8_t> mm(so->m + so_, so->m + so_ + n); for (uint64_t i = 0; i < n; i++) if (mm[i] == 1) sy.push_back(sget(so, so_ + i));
    memmove(w->c + dof, so->c + so_, n); memcpy(w->m + dof, mm.data(), n); size_t q = 0; for (uint64_t i = 0; i < n; i++) if (mm[i] == 1) sset(w, dof + i, sy[q++]);
    unref(so);
  }
  Val loadByte(State &s, uint64_t a) { Obj *o = checkAccess(s, a, 1, false); return loadObj(s, a, o, a & 0xffffff, 1); }
  // read a C string that must be concrete; returns false if it holds a symbolic byte
  bool concStr(State &s, uint64_t a, std::string &out) { out.clear(); for (;;) { Val b = loadByte(s, a++); if (b.e) return false; if (!b.c) return true; out.push_back((char)b.c); } }
  bool concMem(State &s, uint64_t a, void *buf, size_t n) { if (!n) return true; Obj *o = checkAccess(s, a, n, false); if (o->m) for (size_t i = 0; i < n; i++) if (o->m[(a & 0xffffff) + i]) return false; memcpy(buf, o->c + (a & 0xffffff), n); return true; }
  void putMem(State &s, uint64_t a, const void *buf, size_t n) { if (!n) return; checkAccess(s, a, n, true); Obj *o = s.mem.findW(a); memcpy(o->c + (a & 0xffffff), buf, n); if (o->m) memset(o->m + (a & 0xffffff), 0, n); }
  uint32_t siteOf(State &s) { std::string w = where(s); auto it = siteIds.find(w); if (it != siteIds.end()) return it->second; sites.push_back(w); return siteIds[w] = sites.size() - 1; }
  uint64_t heapAlloc(State &s, uint64_t n, bool zero, OK_ kind = O_HEAP) { Obj *o = newObj(n, kind); o->site = siteOf(s); if (!zero && optUninit && n) { needM(o); memset(o->m, 2, n); memset(o->c, 0xA5, n); } if (kind == O_HEAP) s.live++; return s.mem.add(o); }
  // Nondeterministic path choice 0..n-1 that carries no constraint; siblings re-execute the instruction with a preset answer.
  int choose(State &s, const std::string &name, int n) {
    if (s.preset >= 0) { int r = s.preset; s.preset = -1; return r; }
    for (int k = n - 1; k >= 1; k--) { State *o = new State(s); o->id = nextId++; o->preset = k; o->in.push_back({name, nullptr, (uint64_t)k}); work.push_back(o); S.forks++; }
    s.in.push_back({name, nullptr, 0}); return 0;
  }
  bool allocOutcome(State &s, uint64_t n) {
    s.nmalloc++; if (n >= (1u << 24)) return true;
    if (!s.faultOn || s.faultHold || s.faultUsed >= s.faultMax) return false;
    bool f = false; uint32_t i = s.faultN + 1; 
    int k = s.faultUsed; E c = P->bin(ULE, s.faultE[k], P->konst(i, 32)); f = decide(s, c); // all earlier allocations are known to precede fault[k]
    if (!f && c->k != CONST) { E nc = P->notE(c); if (s.faultLast[k] && s.faultLast[k] != nc && std::find(s.pc.begin(), s.pc.end(), nc) != s.pc.end()) for (size_t j = 0; j < s.pc.size(); j++) if (s.pc[j] == s.faultLast[k]) { s.pc.erase(s.pc.begin() + j); break; } s.faultLast[k] = nc; } // subsumed
    s.faultN = i; if (f) s.faultUsed++; return f;
  }
  Val doMalloc(State &s, const Val &nv, bool zero) { uint64_t n = concretize(s, nv, 64, "malloc size"); if (allocOutcome(s, n)) { setErrno(s, ENOMEM); return CV(0); } return CV(heapAlloc(s, n, zero)); }
  void setErrno(State &s, int e) { putMem(s, addrErrno, &e, 4); }
  void doFree(State &s, const Val &pv) {
    uint64_t a = pv.e ? concretize(s, pv, 64, "free") : pv.c; if (!a) return; Obj *o = s.mem.find(a);
    if (!o) fail(s, "memory", "free of invalid pointer"); if (o == &FREED) fail(s, "memory", "double free"); if (o->kind != O_HEAP || (a & 0xffffff)) fail(s, "memory", "free of non-heap pointer");
    s.mem.kill(a >> 24); s.live--;
  }

  // ---------- calls
  void pushFrame(State &s, Fn *f, const std::vector<Val> &args, uint64_t va = 0) {
    if (f->decl) die("call of undefined function " + f->name);
    f->hit = true; if (s.st.size() % 1000 == 999) { uint64_t b = s.st.size() * 64; for (auto *o : s.mem.stk) b += o->size; if (b > (8u << 20)) fail(s, "memory", "stack overflow (unbounded recursion)"); } // the usual 8 MB, taking the least that a frame needs
    Frame fr{f, 0, (int)s.regs.size(), (int)s.mem.stk.size(), va}; s.regs.resize(s.regs.size() + f->nslots, CV(0)); for (size_t i = 0; i < args.size() && (int)i < f->nargs; i++) s.regs[fr.base + i] = args[i]; s.st.push_back(fr);
  }
  Fn *fn(const std::string &n) { auto it = fns.find(n); return it == fns.end() ? nullptr : it->second; }
  bool callModel(State &s, const char *name, const std::vector<Val> &args) { Fn *f = fn(name); if (!f || f->decl) die(std::string("missing model function ") + name); pushFrame(s, f, args); return false; }

  // ---------- formatted output
  struct Out { std::vector<Val> b; void str(const std::string &x) { for (char c : x) b.push_back(CV((uint8_t)c)); } };
  void fmtInt(State &s, Out &o, Val v, unsigned w, bool sgn, char conv, const std::string &flags, int width, int prec) {
    if (!v.e) { char buf[128]; std::string f = "%" + flags; if (width >= 0) f += std::to_string(width); if (prec >= 0) f += "." + std::to_string(prec); f += "ll"; f += conv; snprintf(buf, sizeof buf, f.c_str(), sgn ? (long long)sx(v.c, w) : (long long)(v.c & maskw(w))); o.str(buf); return; }
    if (conv != 'd' && conv != 'i' && conv != 'u') { uint64_t x = concretize(s, v, w, "formatted hex"); fmtInt(s, o, CV(x), w, sgn, conv, flags, width, prec); return; }
    E e = v.e; bool neg = false; if (sgn) neg = decide(s, P->bin(SLT, e, P->konst(0, w))); if (neg) e = P->bin(SUB, P->konst(0, w), e);
    int nd = 1; int maxd = w == 64 ? 20 : w == 32 ? 10 : w == 16 ? 5 : 3; while (nd < maxd && decide(s, P->bin(ULE, P->konst(pow10u(nd), w), e))) nd++;
    std::vector<Val> t; if (neg) t.push_back(CV('-')); else if (flags.find('+') != std::string::npos) t.push_back(CV('+')); for (int i = nd; i < prec; i++) t.push_back(CV('0')); for (int i = nd - 1; i >= 0; i--) t.push_back(EV(P->digit(e, i)));
    int pad = width - (int)t.size(); bool left = flags.find('-') != std::string::npos, zero = flags.find('0') != std::string::npos && prec < 0;
    if (!left && zero && pad > 0) { size_t at = neg ? 1 : 0; t.insert(t.begin() + at, pad, CV('0')); pad = 0; }
    if (!left) for (; pad > 0; pad--) o.b.push_back(CV(' ')); for (auto &x : t) o.b.push_back(x); if (left) for (; pad > 0; pad--) o.b.push_back(CV(' '));
  }
  bool format(State &s, const std::string &f, std::function<Val(bool fp)> next, Out &o) {
    for (size_t i = 0; i < f.size(); i++) {
      if (f[i] != '%') { o.b.push_back(CV((uint8_t)f[i])); continue; }
      i++; if (i >= f.size()) break; if (f[i] == '%') { o.b.push_back(CV('%')); continue; }
      std::string flags; while (i < f.size() && strchr("-+ #0", f[i])) flags += f[i++];
      int width = -1, prec = -1; if (f[i] == '*') { width = (int)sx(concretize(s, next(false), 32, "width"), 32); i++; } else while (isdigit(f[i])) { if (width < 0) width = 0; width = width * 10 + f[i++] - '0'; }
      if (f[i] == '.') { i++; prec = 0; if (f[i] == '*') { prec = (int)sx(concretize(s, next(false), 32, "precision"), 32); i++; } else while (isdigit(f[i])) prec = prec * 10 + f[i++] - '0'; }
      int lng = 0; while (strchr("hlzjtqL", f[i])) { if (f[i] == 'l' || f[i] == 'z' || f[i] == 'j' || f[i] == 't' || f[i] == 'q') lng = 1; i++; }
      char c = f[i]; Val v;
      switch (c) {
      case 'd': case 'i': v = next(false); if (!lng) v = v.e ? EV(P->extract(v.e, 0, 32)) : CV(v.c & 0xffffffff); fmtInt(s, o, v, lng ? 64 : 32, true, c, flags, width, prec); break;
      case 'u': case 'x': case 'X': case 'o': v = next(false); if (!lng) v = v.e ? EV(P->extract(v.e, 0, 32)) : CV(v.c & 0xffffffff); fmtInt(s, o, v, lng ? 64 : 32, false, c, flags, width, prec); break;
      case 'c': v = next(false); o.b.push_back(v.e ? EV(P->extract(v.e, 0, 8)) : CV(v.c & 0xff)); break;
      case 'p': { v = next(false); char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v.c); o.str(b); break; }
      case 's': { v = next(false); uint64_t a = concretize(s, v, 64, "%s pointer"); std::vector<Val> t; for (int k = 0; prec < 0 || k < prec; k++) { Val b = loadByte(s, a + k); if (b.e) { if (decide(s, P->bin(EQ, b.e, P->konst(0, 8)))) break; } else if (!b.c) break; t.push_back(b); }
        int pad = width - (int)t.size(); bool left = flags.find('-') != std::string::npos; if (!left) for (; pad > 0; pad--) o.b.push_back(CV(' ')); for (auto &x : t) o.b.push_back(x); if (left) for (; pad > 0; pad--) o.b.push_back(CV(' ')); break; }
      case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': { v = next(true); uint64_t b = v.c; if (v.e) { b = P->eval(v.e, s.model); addpc(s, P->bin(EQ, v.e, P->konst(b, 64))); incomplete("symbolic double formatted as text (one value kept)"); }
        std::string ff = "%" + flags; if (width >= 0) ff += std::to_string(width); if (prec >= 0) ff += "." + std::to_string(prec); ff += c; char buf[512]; snprintf(buf, sizeof buf, ff.c_str(), bits2d(b)); o.str(buf); break; }
      default: die(std::string("printf conversion ") + c);
      }
    }
    return true;
  }
  void emitBytes(State &s, uint64_t d, Out &o, uint64_t cap) { // snprintf semantics: cap includes NUL
    if (!cap) return; uint64_t n = std::min<uint64_t>(o.b.size(), cap - 1); checkAccess(s, d, n + 1, true); Obj *w = s.mem.findW(d); for (uint64_t i = 0; i < n; i++) storeObj(w, (d & 0xffffff) + i, 1, o.b[i]); storeObj(w, (d & 0xffffff) + n, 1, CV(0));
  }

  // atoi: recognises the digits of a formatted integer (atoi(itoa(v)) == v), otherwise interprets the C model
  bool atoiModel(State &s, std::vector<Val> &a, Val &r, unsigned w) {
    uint64_t p = concAddr(s, a[0], 1, false); std::string x; if (concStr(s, p, x)) { r = CV(w == 32 ? (uint32_t)(int)strtol(x.c_str(), 0, 10) : (uint64_t)strtoll(x.c_str(), 0, 10)); return true; }
    uint64_t end; if (digitsModel(s, p, r, w, end)) return true; return callModel(s, w == 32 ? "vpm_atoi" : "vpm_atol", a);
  }
  bool digitsModel(State &s, uint64_t p, Val &r, unsigned w, uint64_t &end) {
    uint64_t q = p; bool neg = false; Val b = loadByte(s, q); if (!b.e && (b.c == '-' || b.c == '+')) { neg = b.c == '-'; b = loadByte(s, ++q); }
    std::vector<E> ds; while (b.e && b.e->k == DIGIT) { ds.push_back(b.e); b = loadByte(s, ++q); }
    bool endOk = !b.e ? !(b.c >= '0' && b.c <= '9') : (b.e->hi < '0' || b.e->lo > '9');
    if (!ds.empty() && endOk) { E v = ds[0]->a[0]; bool ok = true; size_t n = ds.size(); for (size_t i = 0; i < n; i++) if (ds[i]->a[0] != v || ds[i]->aux != n - 1 - i) ok = false;
      // all digits present: v < 10^n must be known
      if (ok && (n >= 20 || (n >= 10 && v->w <= 32) || !decideMay(s, P->bin(ULE, P->konst(pow10u(n), v->w), v)))) {
        E t = v; if (neg) t = P->bin(SUB, P->konst(0, v->w), v);
        end = q; if (v->w == w) { if (w == 64 && decideMay(s, P->bin(ULT, P->konst(((uint64_t)1 << 63) - !neg, 64), v))) return false; r = EV(t); return true; }
        if (v->w > w) { r = EV(P->extract(t, 0, w)); /* glibc atoi: (int) strtol */ return true; }
        E z = P->zext(v, w); r = EV(neg ? P->bin(SUB, P->konst(0, w), z) : z); return true; } }
    return false;
  }
  bool decideMay(State &s, E c) { if (c->k == CONST) return c->val; if (P->eval(c, s.model)) return true; std::vector<uint64_t> m; return sol->check(s.pc, c, s.model, m) != 0; }
  void registerExts();
  // ---------- main loop
  Val get(State &s, const Opnd &o, int base, unsigned w = 64) {
    if (o.slot >= 0) return s.regs[base + o.slot]; if (o.slot == -1) return CV(o.c);
    if (!optUninit) return CV(0); return EV(P->var("undef", w, true));
  }
  void jump(State &s, Frame &f, int tgt, int edge) {
    Moves &mv = f.f->edges[edge]; size_t n = mv.size();
    if (n == 1) { auto &m = mv[0]; s.regs[f.base + m.first] = get(s, m.second, f.base); }
    else if (n) { Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = get(s, mv[i].second, f.base); for (size_t i = 0; i < n; i++) s.regs[f.base + mv[i].first] = t[i]; }
    f.pc = tgt;
  }
  Val binop(State &s, K k, unsigned w, const Val &a, const Val &b) {
    if (k == UDIV || k == SDIV || k == UREM || k == SREM) {
      if (!b.e) { if (!b.c) fail(s, "arith", "division by zero"); } else if (decide(s, P->bin(EQ, b.e, P->konst(0, w)))) fail(s, "arith", "division by zero");
      if ((k == SDIV || k == SREM) && w >= 32) { E c = P->andE(P->bin(EQ, toE(a, w), P->konst(1ull << (w - 1), w)), P->bin(EQ, toE(b, w), P->konst(maskw(w), w))); if (decide(s, c)) fail(s, "arith", "signed division overflow (INT_MIN / -1)"); }
    }
    if (!a.e && !b.e) return CV(ExprPool::apply(k, w, w, 0, a.c, b.c, 0));
    if (k >= FADD && k <= FREM) return EV(P->intern(k, w, 2, toE(a, w), toE(b, w), 0, 0, 0));
    return EV(P->bin(k, toE(a, w), toE(b, w)));
  }
  Val cmp(unsigned p, unsigned w, const Val &a, const Val &b) {
    if (!a.e && !b.e) { uint64_t x = a.c, y = b.c; int64_t p1 = sx(x, w), q = sx(y, w); switch (p) { case CmpInst::ICMP_EQ: return CV(x == y); case CmpInst::ICMP_NE: return CV(x != y); case CmpInst::ICMP_UGT: return CV(x > y); case CmpInst::ICMP_UGE: return CV(x >= y); case CmpInst::ICMP_ULT: return CV(x < y); case CmpInst::ICMP_ULE: return CV(x <= y); case CmpInst::ICMP_SGT: return CV(p1 > q); case CmpInst::ICMP_SGE: return CV(p1 >= q); case CmpInst::ICMP_SLT: return CV(p1 < q); case CmpInst::ICMP_SLE: return CV(p1 <= q); } }
    E x = toE(a, w), y = toE(b, w);
    switch (p) { case CmpInst::ICMP_EQ: return EV(P->bin(EQ, x, y)); case CmpInst::ICMP_NE: return EV(P->notE(P->bin(EQ, x, y))); case CmpInst::ICMP_UGT: return EV(P->bin(ULT, y, x)); case CmpInst::ICMP_UGE: return EV(P->bin(ULE, y, x)); case CmpInst::ICMP_ULT: return EV(P->bin(ULT, x, y)); case CmpInst::ICMP_ULE: return EV(P->bin(ULE, x, y)); case CmpInst::ICMP_SGT: return EV(P->bin(SLT, y, x)); case CmpInst::ICMP_SGE: return EV(P->bin(SLE, y, x)); case CmpInst::ICMP_SLT: return EV(P->bin(SLT, x, y)); default: return EV(P->bin(SLE, x, y)); }
  }
  Val fcmp(unsigned p, unsigned w, const Val &a, const Val &b) {
    auto f = [&](K k, bool sw) { E x = toE(a, w), y = toE(b, w); if (sw) std::swap(x, y); if (x->k == CONST && y->k == CONST) return P->konst(ExprPool::apply(k, 1, w, 0, x->val, y->val, 0), 1); return P->intern(k, 1, 2, x, y, 0, 0, 0); };
    E uno = f(FUNO, false), r;
    switch (p) {
    case CmpInst::FCMP_OEQ: r = f(FEQ, 0); break; case CmpInst::FCMP_OGT: r = f(FLT, 1); break; case CmpInst::FCMP_OGE: r = f(FLE, 1); break; case CmpInst::FCMP_OLT: r = f(FLT, 0); break; case CmpInst::FCMP_OLE: r = f(FLE, 0); break;
    case CmpInst::FCMP_ONE: r = P->orE(f(FLT, 0), f(FLT, 1)); break; case CmpInst::FCMP_ORD: r = P->notE(uno); break; case CmpInst::FCMP_UNO: r = uno; break;
    case CmpInst::FCMP_UEQ: r = P->orE(uno, f(FEQ, 0)); break; case CmpInst::FCMP_UGT: r = P->notE(f(FLE, 0)); break; case CmpInst::FCMP_UGE: r = P->notE(f(FLT, 0)); break; case CmpInst::FCMP_ULT: r = P->notE(f(FLE, 1)); break; case CmpInst::FCMP_ULE: r = P->notE(f(FLT, 1)); break; case CmpInst::FCMP_UNE: r = P->notE(f(FEQ, 0)); break;
    case CmpInst::FCMP_TRUE: r = P->True; break; default: r = P->False; break;
    }
    return EV(r);
  }
  void run(State &s);
  void runAll();
  void load(const std::string &file);
  void writeOut();
};

void Exec::run(State &s) {
  uint64_t tick = 0;
  for (;;) {
    Frame &f = s.st.back(); Inst &I = f.f->code[f.pc]; Val *R = &s.regs[f.base]; s.steps++; S.steps++;
    if (s.steps > optMaxSteps) { fail(s, "hang", "step limit exceeded (possible non-termination)"); }
    if ((++tick & 0xffff) == 0 && now() - t0 > optMaxTime) { incomplete("time budget"); throw PathEnd(); }
#define G(o) ((o).slot >= 0 ? R[(o).slot] : get(s, (o), f.base, I.w ? I.w : 64))
    switch (I.op) {
    case I_ALLOCA: { Val n = G(I.o[0]); uint64_t cnt = concretize(s, n, 64, "alloca size"); Obj *o = newObj(I.imm * cnt, O_STACK); if (optUninit && o->size) { needM(o); memset(o->m, 2, o->size); } s.regs[f.base + I.dst] = CV(s.mem.push(o)); f.pc++; break; }
    case I_LOAD: {
      Val p = G(I.o[0]);
      if (I.nd == 1) { Val v = load(s, p, I.w2); if (I.w < I.w2 * 8u) v = v.e ? EV(P->extract(v.e, 0, I.w)) : CV(v.c & maskw(I.w)); s.regs[f.base + I.dst] = v; }
      else for (int k = 0; k < I.nd; k++) { Val q = p.e ? EV(P->bin(ADD, p.e, P->konst(I.ex[k], 64))) : CV(p.c + I.ex[k]); Val v = load(s, q, I.tg[k]); if (I.aw[k] < I.tg[k] * 8) v = v.e ? EV(P->extract(v.e, 0, I.aw[k])) : CV(v.c & maskw(I.aw[k])); s.regs[f.base + I.dst + k] = v; }
      f.pc++; break; }
    case I_STORE: {
      Val p = G(I.o[1]);
      for (size_t k = 0; k < I.args.size(); k++) { Val v = get(s, I.args[k], f.base, I.aw[k]); if (v.e && v.e->w < I.tg[k] * 8u) v = EV(P->zext(v.e, I.tg[k] * 8)); Val q = I.ex[k] ? (p.e ? EV(P->bin(ADD, p.e, P->konst(I.ex[k], 64))) : CV(p.c + I.ex[k])) : p; store(s, q, I.tg[k], v); }
      f.pc++; break; }
    case I_GEP: {
      Val b = G(I.o[0]); uint64_t off = I.imm; E sym = b.e; uint64_t c = b.e ? 0 : b.c;
      for (size_t k = 0; k < I.args.size(); k++) { Val x = get(s, I.args[k], f.base, I.aw[k]); if (!x.e) off += (uint64_t)sx(x.c, I.aw[k]) * I.ex[k]; else { E t = P->bin(MUL, P->sext(x.e, 64), P->konst(I.ex[k], 64)); sym = sym ? P->bin(ADD, sym, t) : t; } }
      s.regs[f.base + I.dst] = sym ? EV(P->bin(ADD, sym, P->konst(c + off, 64))) : CV(c + off); f.pc++; break; }
    case I_BIN: { Val r = binop(s, (K)I.sub, I.w, G(I.o[0]), G(I.o[1])); s.regs[f.base + I.dst] = r; f.pc++; break; }
    case I_CMP: R[I.dst] = cmp(I.sub, I.w, G(I.o[0]), G(I.o[1])); f.pc++; break;
    case I_FCMP: R[I.dst] = fcmp(I.sub, I.w, G(I.o[0]), G(I.o[1])); f.pc++; break;
    case I_CAST: {
      Val v = I.o[0].slot == -2 ? get(s, I.o[0], f.base, I.w2) : G(I.o[0]);
      if (!v.e) v = CV(ExprPool::apply((K)I.sub, I.w, I.w2, 0, v.c, 0, 0));
      else switch (I.sub) { case EXTRACT: v = EV(P->extract(v.e, 0, I.w)); break; case ZEXT: v = EV(P->zext(v.e, I.w)); break; case SEXT: v = EV(P->sext(v.e, I.w)); break; default: v = EV(P->un((K)I.sub, v.e, I.w)); }
      R[I.dst] = v; f.pc++; break; }
    case I_FNEG: { Val v = G(I.o[0]); uint64_t sb = 1ull << (I.w - 1); R[I.dst] = v.e ? EV(P->bin(XOR, v.e, P->konst(sb, I.w))) : CV(v.c ^ sb); f.pc++; break; }
    case I_SELECT: {
      Val c = G(I.o[0]);
      if (!c.e) for (int k = 0; k < I.nd; k++) { Val v = get(s, I.args[2 * k + (c.c ? 0 : 1)], f.base, I.aw[k]); s.regs[f.base + I.dst + k] = v; }
      else for (int k = 0; k < I.nd; k++) { Val x = get(s, I.args[2 * k], f.base, I.aw[k]), y = get(s, I.args[2 * k + 1], f.base, I.aw[k]); s.regs[f.base + I.dst + k] = EV(P->ite(c.e, toE(x, I.aw[k]), toE(y, I.aw[k]))); }
      f.pc++; break; }
    case I_COPY: if (I.nd > 0) { if (I.args.empty()) { Val v = G(I.o[0]); s.regs[f.base + I.dst] = v; } else for (int k = 0; k < I.nd; k++) { Val v = get(s, I.args[k], f.base); s.regs[f.base + I.dst + k] = v; } } f.pc++; break;
    case I_INSERT: for (int k = 0; k < I.nd; k++) { Val v = get(s, I.args[k], f.base); s.regs[f.base + I.dst + k] = v; } f.pc++; break;
    case I_BR: jump(s, f, I.t0, I.e0); break;
    case I_CBR: { Val c = I.o[0].slot == -2 ? get(s, I.o[0], f.base, 1) : G(I.o[0]); bool t = c.e ? decide(s, c.e) : (c.c & 1); if (t) jump(s, f, I.t0, I.e0); else jump(s, f, I.t1, I.e1); break; }
    case I_SWITCH: {
      Val c = G(I.o[0]); int k = -1;
      if (!c.e) { for (size_t i = 0; i < I.ex.size(); i++) if (I.ex[i] == c.c) { k = i; break; } }
      else { // group cases by target
        std::map<int, E> g; std::vector<int> order; for (size_t i = 0; i < I.ex.size(); i++) { E q = P->bin(EQ, c.e, P->konst(I.ex[i], I.w)); if (q == P->False) continue; auto it = g.find(I.tg[i]); bool phi = !f.f->edges[I.eg[i]].empty(); int key = phi ? -(int)i - 1 : I.tg[i]; if (phi) { g[key] = q; order.push_back(key); continue; } if (it == g.end()) { g[key] = q; order.push_back(key); } else it->second = P->orE(it->second, q); }
        for (int key : order) if (decide(s, g[key])) { if (key < 0) k = -key - 1; else for (size_t i = 0; i < I.ex.size(); i++) if (I.tg[i] == key) { k = i; break; } break; }
      }
      if (k < 0) jump(s, f, I.t0, I.e0); else jump(s, f, I.tg[k], I.eg[k]); break; }
    case I_UNREACH: fail(s, "unreachable", "unreachable instruction executed");
    case I_RET: {
      Val rv[16]; int n = std::min<int>(I.args.size(), 16); for (int k = 0; k < n; k++) rv[k] = get(s, I.args[k], f.base);
      int base = f.base, mark = f.mark; while ((int)s.mem.stk.size() > mark) { unref(s.mem.stk.back()); s.mem.stk.pop_back(); }
      s.regs.resize(base); s.st.pop_back(); if (s.st.empty()) { complete(s); throw PathEnd(); }
      Frame &g = s.st.back(); Inst &CI = g.f->code[g.pc]; if (CI.dst >= 0) for (int k = 0; k < n && k < CI.nd; k++) s.regs[g.base + CI.dst + k] = rv[k]; g.pc++; break; }
    case I_CALL: {
      std::vector<Val> args(I.args.size()); for (size_t k = 0; k < I.args.size(); k++) args[k] = get(s, I.args[k], f.base, I.aw[k]);
      Fn *cal = I.callee; if (!cal) { Val t = G(I.o[0]); uint64_t a = concretize(s, t, 64, "indirect call"); auto it = faddr.find(a); if (it == faddr.end()) fail(s, "memory", a ? "call through invalid function pointer" : "call through NULL function pointer"); cal = it->second; }
      if (cal->ext) for (size_t k = 0; k < args.size() && k < cal->f->arg_size(); k++) if (args[k].e && cal->f->getArg(k)->getType()->isPointerTy()) { uint64_t x = concretize(s, args[k], 64, "pointer argument"); args[k] = CV(x); }
      if (cal->ext) { Val r = CV(0); Frame *before = &f; (void)before; size_t depth = s.st.size(); int pc0 = f.pc; if ((*cal->ext)(s, I, args, r)) { Frame &g = s.st[depth - 1]; if (I.dst >= 0) { if (r.e && r.e->w != I.w) r = EV(r.e->w > I.w ? P->extract(r.e, 0, I.w) : P->zext(r.e, I.w)); else if (!r.e) r.c &= maskw(I.w); s.regs[g.base + I.dst] = r; } g.pc = pc0 + 1; } break; }
      if (cal->decl) { incomplete("unmodelled external function " + cal->name); if (optVerbose) fprintf(stderr, "unmodelled external %s at %s\n", cal->name.c_str(), stackOf(s).c_str()); throw PathEnd(); }
      if (!I.tg.empty()) for (size_t q = 0; q < I.tg.size(); q++) { // byval copies live on the callee's stack segment
        Obj *o = newObj(I.ex[q], O_STACK); uint64_t a = s.mem.push(o); copyBytes(s, a, args[I.tg[q]].c, I.ex[q]); args[I.tg[q]] = CV(a); }
      uint64_t va = 0;
      if (cal->var) { size_t n = args.size() > (size_t)cal->nargs ? args.size() - cal->nargs : 0; Obj *o = newObj(n * 8, O_STACK); for (size_t k = 0; k < n; k++) { Val v = args[cal->nargs + k]; unsigned w = I.aw[cal->nargs + k]; if (v.e && w < 64) v = EV(P->zext(v.e, 64)); storeObj(o, k * 8, 8, v); } va = s.mem.push(o); }
      pushFrame(s, cal, args, va); break; }
    default: die("op");
    }
  }
}

void Exec::runAll() {
  t0 = now(); State *s = new State(*init); Fn *e = fn(optEntry); if (!e || e->decl) die("entry not found: " + optEntry); pushFrame(*s, e, {}); s->id = nextId++; work.push_back(s);
  while (!work.empty()) {
    if (now() - t0 > optMaxTime) { incomplete("time budget"); break; } if (S.paths >= optMaxPaths) { incomplete("path budget"); break; } if ((int)viol.size() >= optMaxViol) { incomplete("stopped after enough violations"); break; }
    cur = work.back(); work.pop_back();
    try { run(*cur); } catch (PathEnd &) {}
    S.paths++; delete cur;
    if (optVerbose && S.paths % 1000 == 0) fprintf(stderr, "[%.0fs] paths %llu work %zu queries %llu steps %.1fM viol %zu solve %.1fs mem %.0fMB\n", now() - t0, (unsigned long long)S.paths, work.size(), (unsigned long long)S.queries, S.steps / 1e6, viol.size(), S.tsolve, liveObjBytes / 1e6);
  }
}

#include "exts.h"

void Exec::load(const std::string &file) {
  SMDiagnostic err; M = parseIRFile(file, err, ctx); if (!M) die("cannot load " + file + ": " + err.getMessage().str()); DL = &M->getDataLayout(); init = new State(); sites.push_back("");
  for (auto &f : *M) { Fn *F = new Fn(); F->name = f.getName().str(); F->f = &f; F->decl = f.isDeclaration(); F->var = f.isVarArg(); if (auto *sp = f.getSubprogram()) F->file = (sp->getFilename().starts_with("/") ? sp->getFilename().str() : (sp->getDirectory() + "/" + sp->getFilename()).str()); Obj *o = newObj(1, O_FUNC); F->addr = init->mem.add(o); gaddr[&f] = F->addr; faddr[F->addr] = F; fns[F->name] = F; fmap[&f] = F; }
  std::vector<std::pair<GlobalVariable *, uint64_t>> gs;
  for (auto &g : M->globals()) { uint64_t z = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8; Obj *o = newObj(z, O_GLOBAL); o->ro = g.isConstant(); gaddr[&g] = init->mem.add(o); gs.push_back({&g, gaddr[&g]}); for (const char *t : {"yy_ec", "yy_meta", "yy_chk", "yy_base", "yy_def"}) if (g.getName() == t || g.getName().starts_with((std::string(t) + ".").c_str())) lexClass.insert(gaddr[&g]); }
  for (auto &[g, a] : gs) initGlobal(g, init->mem.find(a));
  // stdio streams and ctype tables
  for (auto &[g, a] : gs) if (!g->hasInitializer() && (g->getName() == "stderr" || g->getName() == "stdout" || g->getName() == "stdin")) { uint64_t x = init->mem.add(newObj(256, O_GLOBAL)); memcpy(init->mem.find(a)->c, &x, 8); }
  addrErrno = init->mem.add(newObj(4, O_GLOBAL));
  auto table = [&](const void *data, size_t esz) { Obj *t = newObj(384 * esz, O_GLOBAL); memcpy(t->c, data, 384 * esz); t->ro = true; uint64_t ta = init->mem.add(t) + 128 * esz; Obj *p = newObj(8, O_GLOBAL); memcpy(p->c, &ta, 8); return init->mem.add(p); };
  addrCtypeB = table(*__ctype_b_loc() - 128, 2); addrToLower = table(*__ctype_tolower_loc() - 128, 4); addrToUpper = table(*__ctype_toupper_loc() - 128, 4);
  registerExts();
  for (auto &[n, F] : fns) { auto it = exts.find(n); if (it != exts.end()) F->ext = &it->second; else { std::string nm = n; if (nm.rfind("llvm.", 0) == 0) { size_t q = nm.find('.', 5); std::string b = nm.substr(0, q); auto it2 = exts.find(b); if (it2 != exts.end()) F->ext = &it2->second; } if (!F->decl && !F->ext) compile(F); } }
}

static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
void Exec::writeOut() {
  FILE *f = optOut.empty() ? stdout : fopen(optOut.c_str(), "w"); if (!f) die("cannot write " + optOut);
  fprintf(f, "{\"name\":\"%s\",\"paths\":%llu,\"completed\":%llu,\"steps\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"forks\":%llu,\"asserts\":%llu,\"asserts_symbolic\":%llu,\"asserts_proved\":%llu,\"symbolic_derefs\":%llu,\"models_validated\":%llu,\"model_mismatch\":%llu,\"interval_decided\":%llu,\"solver_s\":%.3f,\"solver_max_s\":%.3f,\"wall_s\":%.3f,\n",
          jesc(optName).c_str(), (unsigned long long)S.paths, (unsigned long long)S.completed, (unsigned long long)S.steps, (unsigned long long)S.queries, (unsigned long long)S.sat, (unsigned long long)S.unsat, (unsigned long long)S.unk, (unsigned long long)S.cacheHit, (unsigned long long)S.modelHit, (unsigned long long)S.forks, (unsigned long long)S.asserts, (unsigned long long)S.assertsSym, (unsigned long long)S.assertsProved, (unsigned long long)S.derefSym, (unsigned long long)S.validated, (unsigned long long)S.mismatch, (unsigned long long)S.intervalQ, S.tsolve, S.tmax, now() - t0);
  auto mp = [&](const char *k, std::map<std::string, uint64_t> &m) { fprintf(f, "\"%s\":{", k); bool first = true; for (auto &[a, b] : m) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(a).c_str(), (unsigned long long)b); first = false; } fprintf(f, "},\n"); };
  mp("covers", covers); mp("incomplete", incompletes); mp("assert_hits", assertHits); mp("assert_symbolic", assertSymHits);
  fprintf(f, "\"samples\":["); bool first = true; for (auto &x : coverSamples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; } fprintf(f, "],\n");
  fprintf(f, "\"functions\":["); first = true; for (auto &[n, F] : fns) if (F->hit) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(n).c_str()); first = false; } fprintf(f, "],\n\"files\":["); std::set<std::string> fl; for (auto &[n, F] : fns) if (F->hit) fl.insert(F->file); first = true; for (auto &x : fl) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; }
  fprintf(f, "],\n\"witnesses\":["); first = true; for (auto &x : wits) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; }
  fprintf(f, "],\n\"violations\":["); first = true;
  for (auto &v : viol) { fprintf(f, "%s\n{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"stack\":\"%s\",\"file\":\"%s\",\"uninit\":%s}", first ? "" : ",", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str(), jesc(v.stack).c_str(), jesc(v.file).c_str(), v.uninit ? "true" : "false"); first = false; }
  fprintf(f, "]}\n"); if (f != stdout) fclose(f);
}

int main(int argc, char **argv) {
  std::string bc; for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { if (i + 1 >= argc) die("missing value for " + a); return std::string(argv[++i]); };
    if (a == "--entry") optEntry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--replay-dir") optReplayDir = nx(); else if (a == "--name") optName = nx(); else if (a == "--max-time") optMaxTime = atof(nx().c_str()); else if (a == "--max-steps") optMaxSteps = atoll(nx().c_str()); else if (a == "--max-paths") optMaxPaths = atoll(nx().c_str()); else if (a == "--query-ms") optQueryMs = atoi(nx().c_str()); else if (a == "--max-viol") optMaxViol = atoi(nx().c_str()); else if (a == "--wit") optWit = atoi(nx().c_str()); else if (a == "--no-uninit") optUninit = false; else if (a == "-v") optVerbose = true; else if (a == "--arg") optArgs.push_back(atol(nx().c_str())); else if (a == "--dump-smt") { optDumpSmt = nx(); optDumpMax = 40; } else if (a[0] == '-') die("unknown option " + a); else bc = a; }
  struct rlimit rl = {1ull << 30, 1ull << 30}; setrlimit(RLIMIT_STACK, &rl);
  P = new ExprPool(); Z = new Z3Tr(*P); Exec X; X.sol = new Solver(); X.load(bc); X.runAll(); X.writeOut(); fflush(stdout); _exit(X.viol.empty() ? 0 : 1);
}

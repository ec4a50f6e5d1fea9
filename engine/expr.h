// Hash-consed bit-vector / IEEE-754 expressions with constant folding, interval
// analysis, a concrete evaluator and a translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <memory>
#include <algorithm>
#include <unistd.h>
#include <z3.h>

enum K : uint8_t {
  CONST, VAR,
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE,
  ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  FADD, FSUB, FMUL, FDIV, FREM, FEQ, FLT, FLE, FUNO,
  SI2F, UI2F, F2SI, F2UI, FEXT, FTRUNC, FFLOOR, FCEIL, FSQRT, FABS_,
  DIGIT
};

struct Expr {
  K k; uint8_t w; uint8_t nk; uint8_t aux;      // aux: EXTRACT low bit / DIGIT index
  uint32_t id; uint64_t val;                    // val: CONST value / VAR index
  const Expr *a[3];
  uint64_t lo, hi;                              // unsigned interval
  uint64_t hash;
  mutable uint32_t stamp; mutable uint64_t ev;  // evaluator memo
  mutable const std::vector<uint32_t> *vars;    // lazily computed sorted var set
  mutable Z3_ast zbv, zfp;
};
typedef const Expr *E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }
static inline double bits2d(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static inline uint64_t d2bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static inline float bits2f(uint64_t b) { uint32_t x = (uint32_t)b; float d; memcpy(&d, &x, 4); return d; }
static inline uint64_t f2bits(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }
static inline uint64_t pow10u(unsigned i) { uint64_t r = 1; while (i--) r *= 10; return r; }

struct VarInfo { std::string name; uint8_t w; bool uninit; };

struct ExprPool {
  std::vector<E> all;
  std::vector<VarInfo> vars;
  struct Slot { E e; };
  std::vector<E> table; size_t count = 0;
  E True, False;
  ExprPool() { table.assign(1 << 16, nullptr); True = konst(1, 1); False = konst(0, 1); }

  static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
  E intern(K k, unsigned w, unsigned nk, E x, E y, E z, uint64_t val, unsigned aux) {
    uint64_t h = mix(k * 131 + w, val); h = mix(h, aux);
    h = mix(h, x ? x->id + 1 : 0); h = mix(h, y ? y->id + 1 : 0); h = mix(h, z ? z->id + 1 : 0);
    size_t m = table.size() - 1, i = h & m;
    while (E e = table[i]) {
      if (e->hash == h && e->k == k && e->w == w && e->val == val && e->aux == aux && e->a[0] == x && e->a[1] == y && e->a[2] == z) return e;
      i = (i + 1) & m;
    }
    Expr *n = (Expr *)alloc(sizeof(Expr));
    n->k = k; n->w = w; n->nk = nk; n->aux = aux; n->id = all.size(); n->val = val;
    n->a[0] = x; n->a[1] = y; n->a[2] = z; n->hash = h; n->stamp = 0; n->ev = 0; n->vars = nullptr; n->zbv = n->zfp = nullptr;
    interval(n);
    all.push_back(n);
    table[i] = n;
    if (++count * 2 > table.size()) grow();
    return n;
  }
  void grow() {
    std::vector<E> nt(table.size() * 2, nullptr); size_t m = nt.size() - 1;
    for (E e : table) if (e) { size_t i = e->hash & m; while (nt[i]) i = (i + 1) & m; nt[i] = e; }
    table.swap(nt);
  }
  std::vector<char *> arenas; size_t apos = 0, acap = 0;
  void *alloc(size_t n) { if (apos + n > acap) { acap = 1 << 20; arenas.push_back((char *)malloc(acap)); apos = 0; } void *p = arenas.back() + apos; apos += (n + 15) & ~15ull; return p; }

  static unsigned bitlen(uint64_t v) { return v ? 64 - __builtin_clzll(v) : 0; }
  void interval(Expr *n) {
    uint64_t M = maskw(n->w); n->lo = 0; n->hi = M;
    E x = n->a[0], y = n->a[1], z = n->a[2];
    switch (n->k) {
    case CONST: n->lo = n->hi = n->val; break;
    case ADD: if (x->hi <= M - y->hi) { n->lo = x->lo + y->lo; n->hi = x->hi + y->hi; } break;
    case SUB: if (x->lo >= y->hi) { n->lo = x->lo - y->hi; n->hi = x->hi - y->lo; } break;
    case MUL: { unsigned __int128 p = (unsigned __int128)x->hi * y->hi; if (p <= M) { n->lo = x->lo * y->lo; n->hi = (uint64_t)p; } break; }
    case UDIV: if (y->lo > 0) { n->lo = x->lo / y->hi; n->hi = x->hi / y->lo; } break;
    case UREM: if (y->lo > 0) { n->hi = std::min(x->hi, y->hi - 1); if (x->hi < y->lo) n->lo = x->lo; } break;
    case AND: n->hi = std::min(x->hi, y->hi); break;
    case OR: n->lo = std::max(x->lo, y->lo); n->hi = M & maskw(bitlen(x->hi | y->hi)); break;
    case XOR: n->hi = M & maskw(bitlen(x->hi | y->hi)); break;
    case LSHR: if (y->k == CONST && y->val < n->w) { n->lo = x->lo >> y->val; n->hi = x->hi >> y->val; } break;
    case SHL: if (y->k == CONST && y->val < n->w && (x->hi << y->val >> y->val) == x->hi && (x->hi << y->val) <= M) { n->lo = x->lo << y->val; n->hi = x->hi << y->val; } break;
    case ITE: n->lo = std::min(y->lo, z->lo); n->hi = std::max(y->hi, z->hi); break;
    case CONCAT: n->lo = (x->lo << y->w) | y->lo; n->hi = (x->hi << y->w) | y->hi; if (x->lo != x->hi) { n->lo = x->lo << y->w; n->hi = (x->hi << y->w) | maskw(y->w); } break;
    case EXTRACT: if (n->aux == 0 && x->hi <= M) { n->lo = x->lo; n->hi = x->hi; } else if (n->aux && (x->hi >> n->aux) <= M) { n->lo = x->lo >> n->aux; n->hi = x->hi >> n->aux; } break;
    case ZEXT: n->lo = x->lo; n->hi = x->hi; break;
    case SEXT: if (!(x->hi >> (x->w - 1))) { n->lo = x->lo; n->hi = x->hi; } break;
    case DIGIT: n->lo = '0'; n->hi = '9'; break;
    default: break;
    }
  }

  E konst(uint64_t v, unsigned w) { return intern(CONST, w, 0, 0, 0, 0, v & maskw(w), 0); }
  std::vector<E> varE; E byteVar(uint32_t v) { return varE[v]; }
  E var(const std::string &name, unsigned w, bool uninit = false) { vars.push_back({name, (uint8_t)w, uninit}); E e = intern(VAR, w, 0, 0, 0, 0, vars.size() - 1, 0); varE.push_back(e); return e; }

  // ---- semantics of one operator on concrete values (width w = result, ow = operand width)
  static uint64_t apply(K k, unsigned w, unsigned ow, unsigned aux, uint64_t x, uint64_t y, uint64_t z, unsigned w1 = 0) {
    uint64_t M = maskw(w);
    switch (k) {
    case ADD: return (x + y) & M; case SUB: return (x - y) & M; case MUL: return (x * y) & M;
    case UDIV: return y ? (x / y) & M : M; case UREM: return y ? x % y : x;
    case SDIV: { int64_t p = sx(x, w), q = sx(y, w); if (!q) return p < 0 ? 1 : M; if (q == -1) return (0 - x) & M; return (uint64_t)(p / q) & M; }
    case SREM: { int64_t p = sx(x, w), q = sx(y, w); if (!q) return x; if (q == -1) return 0; return (uint64_t)(p % q) & M; }
    case AND: return x & y; case OR: return x | y; case XOR: return x ^ y;
    case SHL: return y >= w ? 0 : (x << y) & M; case LSHR: return y >= w ? 0 : x >> y;
    case ASHR: return (uint64_t)(sx(x, w) >> (y >= w ? w - 1 : y)) & M;
    case EQ: return x == y; case ULT: return x < y; case ULE: return x <= y;
    case SLT: return sx(x, ow) < sx(y, ow); case SLE: return sx(x, ow) <= sx(y, ow);
    case ITE: return x ? y : z;
    case CONCAT: return (x << w1) | y;
    case EXTRACT: return (x >> aux) & M;
    case ZEXT: return x; case SEXT: return (uint64_t)sx(x, ow) & M;
    case FADD: return w == 64 ? d2bits(bits2d(x) + bits2d(y)) : f2bits(bits2f(x) + bits2f(y));
    case FSUB: return w == 64 ? d2bits(bits2d(x) - bits2d(y)) : f2bits(bits2f(x) - bits2f(y));
    case FMUL: return w == 64 ? d2bits(bits2d(x) * bits2d(y)) : f2bits(bits2f(x) * bits2f(y));
    case FDIV: return w == 64 ? d2bits(bits2d(x) / bits2d(y)) : f2bits(bits2f(x) / bits2f(y));
    case FREM: return w == 64 ? d2bits(fmod(bits2d(x), bits2d(y))) : f2bits(fmodf(bits2f(x), bits2f(y)));
    case FEQ: return ow == 64 ? bits2d(x) == bits2d(y) : bits2f(x) == bits2f(y);
    case FLT: return ow == 64 ? bits2d(x) < bits2d(y) : bits2f(x) < bits2f(y);
    case FLE: return ow == 64 ? bits2d(x) <= bits2d(y) : bits2f(x) <= bits2f(y);
    case FUNO: return ow == 64 ? (bits2d(x) != bits2d(x) || bits2d(y) != bits2d(y)) : (bits2f(x) != bits2f(x) || bits2f(y) != bits2f(y));
    case SI2F: return w == 64 ? d2bits((double)sx(x, ow)) : f2bits((float)sx(x, ow));
    case UI2F: return w == 64 ? d2bits((double)x) : f2bits((float)x);
    case F2SI: { double d = ow == 64 ? bits2d(x) : bits2f(x); if (w <= 32) { if (!(d > -2147483649.0 && d < 2147483648.0)) return 0x80000000ull & M; return (uint64_t)(int64_t)d & M; }
                 if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0x8000000000000000ull; return (uint64_t)(int64_t)d; }
    case F2UI: { double d = ow == 64 ? bits2d(x) : bits2f(x); if (!(d > -1.0 && d < 18446744073709551616.0)) return 0x8000000000000000ull & M; return (uint64_t)d & M; }
    case FEXT: return d2bits((double)bits2f(x)); case FTRUNC: return f2bits((float)bits2d(x));
    case FFLOOR: return d2bits(floor(bits2d(x))); case FCEIL: return d2bits(ceil(bits2d(x)));
    case FSQRT: return d2bits(sqrt(bits2d(x))); case FABS_: return x & 0x7fffffffffffffffull;
    case DIGIT: return '0' + (x / pow10u(aux)) % 10;
    default: abort();
    }
  }

  E notE(E x) { // boolean negation
    if (x->k == CONST) return x->val ? False : True;
    if (x->k == XOR && x->a[1]->k == CONST && x->a[1]->val == 1) return x->a[0];
    if (x->k == ULT) return bin(ULE, x->a[1], x->a[0]);
    if (x->k == ULE) return bin(ULT, x->a[1], x->a[0]);
    if (x->k == SLT) return bin(SLE, x->a[1], x->a[0]);
    if (x->k == SLE) return bin(SLT, x->a[1], x->a[0]);
    return intern(XOR, 1, 2, x, True, 0, 0, 0);
  }
  static bool isbool(K k) { return (k >= EQ && k <= SLE) || (k >= FEQ && k <= FUNO); }

  E bin(K k, E x, E y) {
    unsigned w = isbool(k) ? 1 : x->w;
    if (x->k == CONST && y->k == CONST) return konst(apply(k, w, x->w, 0, x->val, y->val, 0), w);
    uint64_t M = maskw(x->w);
    bool comm = k == ADD || k == MUL || k == AND || k == OR || k == XOR || k == EQ || k == FADD || k == FMUL || k == FEQ;
    if (comm && x->k == CONST) std::swap(x, y);
    if (comm && x->k != CONST && y->k != CONST && x->id > y->id) std::swap(x, y);
    bool yc = y->k == CONST; uint64_t c = y->val;
    switch (k) {
    case ADD: if (yc && !c) return x;
      if (yc && x->k == ADD && x->a[1]->k == CONST) return bin(ADD, x->a[0], konst(x->a[1]->val + c, w));
      break;
    case SUB: if (yc) return bin(ADD, x, konst(0 - c, w)); if (x == y) return konst(0, w);
      if (x->k == ADD && x->a[0] == y) return x->a[1]; if (x->k == ADD && x->a[1] == y) return x->a[0];
      break;
    case MUL: if (yc) { if (!c) return y; if (c == 1) return x; if (c == M) return bin(SUB, konst(0, w), x); if (!(c & (c - 1))) return bin(SHL, x, konst(__builtin_ctzll(c), w)); } break;
    case UDIV: if (yc && c == 1) return x; if (yc && c && !(c & (c - 1))) return bin(LSHR, x, konst(__builtin_ctzll(c), w)); break;
    case SDIV: if (yc && c == 1) return x; if (yc && c && !(x->hi >> (w - 1)) && !(c >> (w - 1))) return bin(UDIV, x, y); break;
    case UREM: if (yc && c == 1) return konst(0, w); if (yc && c && x->hi < c) return x; if (yc && c && !(c & (c - 1))) return bin(AND, x, konst(c - 1, w)); break;
    case SREM: if (yc && c && !(x->hi >> (w - 1)) && !(c >> (w - 1))) return bin(UREM, x, y); break;
    case AND: if (yc) { if (!c) return y; if (c == M) return x;
        if (!(c & (c + 1)) && x->hi <= c) return x;
        if (!(c & (c + 1))) { unsigned b = bitlen(c); return zext(extract(x, 0, b), w); } }
      if (x == y) return x; break;
    case OR: if (yc) { if (!c) return x; if (c == M) return y; } if (x == y) return x; break;
    case XOR: if (yc && !c) return x; if (yc && w > 1 && x->k == XOR && x->a[1]->k == CONST) return bin(XOR, x->a[0], konst(x->a[1]->val ^ c, w)); if (x == y) return konst(0, w);
      if (w == 1 && yc && c == 1) return notE(x);
      break;
    case SHL: case LSHR: if (yc && !c) return x; if (yc && c >= w) return konst(0, w);
      if (yc && k == LSHR) return zext(extract(x, c, w - c), w);
      break;
    case ASHR: if (yc && !c) return x; if (!(x->hi >> (w - 1))) return bin(LSHR, x, y); break;
    case EQ:
      if (x == y) return True;
      if (x->hi < y->lo || y->hi < x->lo) return False;
      if (x->w == 1 && yc) return c ? x : notE(x);
      if (yc) {
        if (x->k == ITE && (x->a[1]->k == CONST || x->a[2]->k == CONST)) {
          E p = bin(EQ, x->a[1], y), q = bin(EQ, x->a[2], y);
          if (p->k == CONST || q->k == CONST) return ite(x->a[0], p, q);
        }
        if (x->k == ZEXT) return c > maskw(x->a[0]->w) ? False : bin(EQ, x->a[0], konst(c, x->a[0]->w));
        if (x->k == SEXT) { uint64_t lowc = c & maskw(x->a[0]->w); if (((uint64_t)sx(lowc, x->a[0]->w) & M) != c) return False; return bin(EQ, x->a[0], konst(lowc, x->a[0]->w)); }
        if (x->k == ADD && x->a[1]->k == CONST) return bin(EQ, x->a[0], konst(c - x->a[1]->val, x->w));
        if (x->k == SUB && !c) return bin(EQ, x->a[0], x->a[1]);
        if (x->k == CONCAT) return andE(bin(EQ, x->a[0], konst(c >> x->a[1]->w, x->a[0]->w)), bin(EQ, x->a[1], konst(c, x->a[1]->w)));
      } else {
        if (x->k == y->k && (x->k == SLT || x->k == ULT) && x->a[0] == y->a[1] && x->a[1] == y->a[0]) return bin(EQ, x->a[0], x->a[1]); /* (a < b) == (b < a) */
        if (x->k == FLT && y->k == FLT && x->a[0] == y->a[1] && x->a[1] == y->a[0]) return bin(OR, bin(FEQ, x->a[0], x->a[1]), bin(FUNO, x->a[0], x->a[1]));
        if (x->k == ZEXT && y->k == ZEXT && x->a[0]->w == y->a[0]->w) return bin(EQ, x->a[0], y->a[0]);
        if (x->k == SEXT && y->k == SEXT && x->a[0]->w == y->a[0]->w) return bin(EQ, x->a[0], y->a[0]);
      }
      break;
    case ULT: if (x == y) return False; if (x->hi < y->lo) return True; if (x->lo >= y->hi) return False;
      if (yc && x->k == ZEXT && c <= maskw(x->a[0]->w)) return bin(ULT, x->a[0], konst(c, x->a[0]->w));
      if (x->k == CONST && y->k == ZEXT && x->val <= maskw(y->a[0]->w)) return bin(ULT, konst(x->val, y->a[0]->w), y->a[0]);
      break;
    case ULE: if (x == y) return True; if (x->hi <= y->lo) return True; if (x->lo > y->hi) return False;
      if (yc && x->k == ZEXT && c <= maskw(x->a[0]->w)) return bin(ULE, x->a[0], konst(c, x->a[0]->w));
      if (x->k == CONST && y->k == ZEXT && x->val <= maskw(y->a[0]->w)) return bin(ULE, konst(x->val, y->a[0]->w), y->a[0]);
      break;
    case SLT: case SLE: {
      if (x == y) return k == SLE ? True : False;
      uint64_t sb = 1ull << (x->w - 1);
      if (x->hi < sb && y->hi < sb) return bin(k == SLT ? ULT : ULE, x, y);
      if (x->hi < sb && y->lo >= sb) return False;
      if (x->lo >= sb && y->hi < sb) return True;
      if (x->k == SEXT && y->k == SEXT && x->a[0]->w == y->a[0]->w) return bin(k, x->a[0], y->a[0]);
      if (x->k == SEXT && yc && ((uint64_t)sx(c & maskw(x->a[0]->w), x->a[0]->w) & M) == c) return bin(k, x->a[0], konst(c, x->a[0]->w));
      if (y->k == SEXT && x->k == CONST && ((uint64_t)sx(x->val & maskw(y->a[0]->w), y->a[0]->w) & M) == x->val) return bin(k, konst(x->val, y->a[0]->w), y->a[0]);
      break; }
    case FMUL: case FDIV: if (yc && w == 64) { if (c == 0x3ff0000000000000ull) return x; if (c == 0xbff0000000000000ull) return bin(XOR, x, konst(1ull << 63, 64)); } break; /* exact, up to the payload of a NaN */
    default: break;
    }
    return intern(k, w, 2, x, y, 0, 0, 0);
  }
  E andE(E x, E y) { return bin(AND, x, y); }
  E orE(E x, E y) { return bin(OR, x, y); }
  E ite(E c, E x, E y) {
    if (c->k == CONST) return c->val ? x : y;
    if (x == y) return x;
    if (x->w == 1) {
      if (x->k == CONST && y->k == CONST) return x->val ? c : notE(c);
      if (x->k == CONST) return x->val ? bin(OR, c, y) : bin(AND, notE(c), y);
      if (y->k == CONST) return y->val ? bin(OR, notE(c), x) : bin(AND, c, x);
    }
    if (c->k == XOR && c->a[1] == True) return ite(c->a[0], y, x);
    return intern(ITE, x->w, 3, c, x, y, 0, 0);
  }
  E extract(E x, unsigned off, unsigned w) {
    if (off == 0 && w == x->w) return x;
    if (x->k == CONST) return konst(x->val >> off, w);
    if (x->k == EXTRACT) return extract(x->a[0], off + x->aux, w);
    if (x->k == CONCAT) { unsigned lw = x->a[1]->w; if (off + w <= lw) return extract(x->a[1], off, w); if (off >= lw) return extract(x->a[0], off - lw, w); }
    if (x->k == ZEXT) { unsigned iw = x->a[0]->w; if (off + w <= iw) return extract(x->a[0], off, w); if (off >= iw) return konst(0, w); if (off == 0) return zext(x->a[0], w); return zext(extract(x->a[0], off, iw - off), w); }
    if (x->k == SEXT) { unsigned iw = x->a[0]->w; if (off + w <= iw) return extract(x->a[0], off, w); if (off == 0 && w > iw) return sext(x->a[0], w); }
    if (x->k == ITE && x->a[1]->k == CONST && x->a[2]->k == CONST) return ite(x->a[0], extract(x->a[1], off, w), extract(x->a[2], off, w));
    if (x->k == SHL && x->a[1]->k == CONST) { unsigned c = x->a[1]->val; if (off >= c) return extract(x->a[0], off - c, w); if (off + w <= c) return konst(0, w); }
    if (x->k == AND || x->k == OR || x->k == XOR) { auto easy = [](E y) { return y->k == CONST || y->k == ZEXT || y->k == SHL; }; if (easy(x->a[0]) || easy(x->a[1])) { E p = extract(x->a[0], off, w), q = extract(x->a[1], off, w); if (p->k == CONST || q->k == CONST) return bin(x->k, p, q); } }
    if (off == 0 && (x->k == ADD || x->k == SUB || x->k == MUL || x->k == AND || x->k == OR || x->k == XOR) && (x->a[0]->k == ZEXT || x->a[0]->k == SEXT) && w <= x->a[0]->a[0]->w)
      return bin(x->k, extract(x->a[0], 0, w), extract(x->a[1], 0, w));
    return intern(EXTRACT, w, 1, x, 0, 0, 0, off);
  }
  E concat(E h, E l) {
    unsigned w = h->w + l->w;
    if (h->k == CONST && l->k == CONST) return konst((h->val << l->w) | l->val, w);
    if (h->k == CONST && !h->val) return zext(l, w);
    if (h->k == EXTRACT) {
      if (l->k == EXTRACT && h->a[0] == l->a[0] && h->aux == l->aux + l->w) return extract(h->a[0], l->aux, w);
      if (h->a[0] == l && h->aux == l->w) return extract(l, 0, w);
      if (l->k == CONCAT) { E lh = l->a[0]; if (lh->k == EXTRACT && lh->a[0] == h->a[0] && h->aux == lh->aux + lh->w) return concat(extract(h->a[0], lh->aux, h->w + lh->w), l->a[1]); }
    }
    // bytes of sext: (extract of SEXT folds to SEXT piece) -- handled by extract(); bytes of zext: konst 0
    return intern(CONCAT, w, 2, h, l, 0, 0, 0);
  }
  E zext(E x, unsigned w) {
    if (w == x->w) return x;
    if (x->k == CONST) return konst(x->val, w);
    if (x->k == ZEXT) return zext(x->a[0], w);
    if (x->k == ITE && x->a[1]->k == CONST && x->a[2]->k == CONST) return ite(x->a[0], konst(x->a[1]->val, w), konst(x->a[2]->val, w));
    return intern(ZEXT, w, 1, x, 0, 0, 0, 0);
  }
  E sext(E x, unsigned w) {
    if (w == x->w) return x;
    if (x->k == CONST) return konst((uint64_t)sx(x->val, x->w), w);
    if (x->k == SEXT) return sext(x->a[0], w);
    if (x->k == ZEXT || !(x->hi >> (x->w - 1))) return zext(x, w);
    if (x->k == ITE && x->a[1]->k == CONST && x->a[2]->k == CONST) return ite(x->a[0], konst((uint64_t)sx(x->a[1]->val, x->w), w), konst((uint64_t)sx(x->a[2]->val, x->w), w));
    return intern(SEXT, w, 1, x, 0, 0, 0, 0);
  }
  E digit(E v, unsigned idx) { if (v->k == CONST) return konst('0' + (v->val / pow10u(idx)) % 10, 8); return intern(DIGIT, 8, 1, v, 0, 0, 0, idx); }
  E un(K k, E x, unsigned w) {
    if (x->k == CONST) return konst(apply(k, w, x->w, 0, x->val, 0, 0), w);
    if (k == FFLOOR && (x->k == SI2F || x->k == UI2F)) return x;
    if ((k == F2SI || k == F2UI) && x->k == SI2F && x->w == 64 && x->a[0]->w <= 32 && w >= x->a[0]->w) return sext(x->a[0], w);
    if ((k == F2SI || k == F2UI) && x->k == UI2F && x->w == 64 && x->a[0]->w <= 32 && w > x->a[0]->w) return zext(x->a[0], w);
    if (k == F2UI && x->k == UI2F && x->w == 64 && x->a[0]->hi < (1ull << 53) && w >= x->a[0]->w) return zext(x->a[0], w);
    if (k == FTRUNC && x->k == FEXT) return x->a[0];
    return intern(k, w, 1, x, 0, 0, 0, 0);
  }

  // ---- evaluation under an assignment
  uint32_t curStamp = 0;
  const std::vector<uint64_t> *curModel = nullptr;
  void begin(const std::vector<uint64_t> &m) { curStamp++; curModel = &m; }
  uint64_t ev(E e) {
    if (e->k == CONST) return e->val;
    if (e->stamp == curStamp) return e->ev;
    uint64_t r;
    if (e->k == VAR) r = e->val < curModel->size() ? (*curModel)[e->val] & maskw(e->w) : 0;
    else if (e->k == ITE) r = ev(e->a[0]) ? ev(e->a[1]) : ev(e->a[2]);
    else {
      uint64_t x = ev(e->a[0]), y = e->nk > 1 ? ev(e->a[1]) : 0;
      r = apply(e->k, e->w, e->a[0]->w, e->aux, x, y, 0, e->nk > 1 ? e->a[1]->w : 0);
    }
    e->stamp = curStamp; e->ev = r; return r;
  }
  uint64_t eval(E e, const std::vector<uint64_t> &m) { if (e->k == CONST) return e->val; begin(m); return ev(e); }

  const std::vector<uint32_t> &varsOf(E e) {
    if (e->vars) return *e->vars;
    auto *r = new std::vector<uint32_t>();
    if (e->k == VAR) r->push_back(e->val);
    else for (unsigned i = 0; i < e->nk; i++) { auto &v = varsOf(e->a[i]); std::vector<uint32_t> t; std::set_union(r->begin(), r->end(), v.begin(), v.end(), std::back_inserter(t)); r->swap(t); }
    e->vars = r; return *r;
  }
  bool hasFP(E e, std::unordered_map<E, bool> &memo) {
    if (e->k >= FADD && e->k <= FABS_) return true;
    if (!e->nk) return false;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    bool r = false; for (unsigned i = 0; i < e->nk && !r; i++) r = hasFP(e->a[i], memo);
    memo[e] = r; return r;
  }
};

// ---- Z3 translation
struct Z3Tr {
  Z3_context c; Z3_sort fp64, fp32; Z3_ast rne, rtz, rtn, rtp; ExprPool &P;
  Z3Tr(ExprPool &P) : P(P) {
    Z3_config cfg = Z3_mk_config(); c = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(c, [](Z3_context cc, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(cc, e)); _exit(70); });
    fp64 = Z3_mk_fpa_sort_64(c); fp32 = Z3_mk_fpa_sort_32(c);
    rne = Z3_mk_fpa_rne(c); rtz = Z3_mk_fpa_rtz(c); rtn = Z3_mk_fpa_rtn(c); rtp = Z3_mk_fpa_rtp(c);
  }
  Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(c, w); }
  Z3_ast kb(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(c, v, bvs(w)); }
  Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(c, b, kb(1, 1), kb(0, 1)); }
  Z3_ast boolOf(E e) {  // e->w == 1
    switch (e->k) {
    case EQ: return Z3_mk_eq(c, bv(e->a[0]), bv(e->a[1]));
    case ULT: return Z3_mk_bvult(c, bv(e->a[0]), bv(e->a[1])); case ULE: return Z3_mk_bvule(c, bv(e->a[0]), bv(e->a[1]));
    case SLT: return Z3_mk_bvslt(c, bv(e->a[0]), bv(e->a[1])); case SLE: return Z3_mk_bvsle(c, bv(e->a[0]), bv(e->a[1]));
    case FEQ: return Z3_mk_fpa_eq(c, fp(e->a[0]), fp(e->a[1])); case FLT: return Z3_mk_fpa_lt(c, fp(e->a[0]), fp(e->a[1]));
    case FLE: return Z3_mk_fpa_leq(c, fp(e->a[0]), fp(e->a[1]));
    case FUNO: { Z3_ast t[2] = {Z3_mk_fpa_is_nan(c, fp(e->a[0])), Z3_mk_fpa_is_nan(c, fp(e->a[1]))}; return Z3_mk_or(c, 2, t); }
    case AND: { Z3_ast t[2] = {boolOf(e->a[0]), boolOf(e->a[1])}; return Z3_mk_and(c, 2, t); }
    case OR: { Z3_ast t[2] = {boolOf(e->a[0]), boolOf(e->a[1])}; return Z3_mk_or(c, 2, t); }
    case XOR: return Z3_mk_xor(c, boolOf(e->a[0]), boolOf(e->a[1]));
    case ITE: return Z3_mk_ite(c, boolOf(e->a[0]), boolOf(e->a[1]), boolOf(e->a[2]));
    case CONST: return e->val ? Z3_mk_true(c) : Z3_mk_false(c);
    default: return Z3_mk_eq(c, bv(e), kb(1, 1));
    }
  }
  Z3_ast fp(E e) {
    if (e->zfp) return e->zfp;
    Z3_ast r;
    switch (e->k) {
    case FADD: r = Z3_mk_fpa_add(c, rne, fp(e->a[0]), fp(e->a[1])); break;
    case FSUB: r = Z3_mk_fpa_sub(c, rne, fp(e->a[0]), fp(e->a[1])); break;
    case FMUL: r = Z3_mk_fpa_mul(c, rne, fp(e->a[0]), fp(e->a[1])); break;
    case FDIV: r = Z3_mk_fpa_div(c, rne, fp(e->a[0]), fp(e->a[1])); break;
    case SI2F: r = Z3_mk_fpa_to_fp_signed(c, rne, bv(e->a[0]), e->w == 64 ? fp64 : fp32); break;
    case UI2F: r = Z3_mk_fpa_to_fp_unsigned(c, rne, bv(e->a[0]), e->w == 64 ? fp64 : fp32); break;
    case FEXT: r = Z3_mk_fpa_to_fp_float(c, rne, fp(e->a[0]), fp64); break;
    case FTRUNC: r = Z3_mk_fpa_to_fp_float(c, rne, fp(e->a[0]), fp32); break;
    case FFLOOR: r = Z3_mk_fpa_round_to_integral(c, rtn, fp(e->a[0])); break;
    case FCEIL: r = Z3_mk_fpa_round_to_integral(c, rtp, fp(e->a[0])); break;
    case FSQRT: r = Z3_mk_fpa_sqrt(c, rne, fp(e->a[0])); break;
    case FABS_: r = Z3_mk_fpa_abs(c, fp(e->a[0])); break;
    case ITE: r = Z3_mk_ite(c, boolOf(e->a[0]), fp(e->a[1]), fp(e->a[2])); break;
    default: r = Z3_mk_fpa_to_fp_bv(c, bv(e), e->w == 64 ? fp64 : fp32); break;
    }
    return e->zfp = r;
  }
  Z3_ast bv(E e) {
    if (e->zbv) return e->zbv;
    Z3_ast r;
    if (e->w == 1 && (ExprPool::isbool(e->k) || e->k == AND || e->k == OR || e->k == XOR)) r = b2bv(boolOf(e));
    else switch (e->k) {
    case CONST: r = kb(e->val, e->w); break;
    case VAR: { char n[32]; snprintf(n, sizeof n, "v%u", (unsigned)e->val); r = Z3_mk_const(c, Z3_mk_string_symbol(c, n), bvs(e->w)); break; }
    case ADD: r = Z3_mk_bvadd(c, bv(e->a[0]), bv(e->a[1])); break; case SUB: r = Z3_mk_bvsub(c, bv(e->a[0]), bv(e->a[1])); break;
    case MUL: r = Z3_mk_bvmul(c, bv(e->a[0]), bv(e->a[1])); break;
    case UDIV: r = Z3_mk_bvudiv(c, bv(e->a[0]), bv(e->a[1])); break; case SDIV: r = Z3_mk_bvsdiv(c, bv(e->a[0]), bv(e->a[1])); break;
    case UREM: r = Z3_mk_bvurem(c, bv(e->a[0]), bv(e->a[1])); break; case SREM: r = Z3_mk_bvsrem(c, bv(e->a[0]), bv(e->a[1])); break;
    case AND: r = Z3_mk_bvand(c, bv(e->a[0]), bv(e->a[1])); break; case OR: r = Z3_mk_bvor(c, bv(e->a[0]), bv(e->a[1])); break;
    case XOR: r = Z3_mk_bvxor(c, bv(e->a[0]), bv(e->a[1])); break;
    case SHL: r = Z3_mk_bvshl(c, bv(e->a[0]), bv(e->a[1])); break; case LSHR: r = Z3_mk_bvlshr(c, bv(e->a[0]), bv(e->a[1])); break;
    case ASHR: r = Z3_mk_bvashr(c, bv(e->a[0]), bv(e->a[1])); break;
    case ITE: r = Z3_mk_ite(c, boolOf(e->a[0]), bv(e->a[1]), bv(e->a[2])); break;
    case CONCAT: r = Z3_mk_concat(c, bv(e->a[0]), bv(e->a[1])); break;
    case EXTRACT: r = Z3_mk_extract(c, e->aux + e->w - 1, e->aux, bv(e->a[0])); break;
    case ZEXT: r = Z3_mk_zero_ext(c, e->w - e->a[0]->w, bv(e->a[0])); break;
    case SEXT: r = Z3_mk_sign_ext(c, e->w - e->a[0]->w, bv(e->a[0])); break;
    case F2SI: {
      Z3_ast f = fp(e->a[0]); unsigned W = e->w <= 32 ? 32 : 64;
      double lo = W == 32 ? -2147483649.0 : -9223372036854775808.0, hi = W == 32 ? 2147483648.0 : 9223372036854775808.0;
      Z3_sort s = Z3_get_sort(c, f);
      Z3_ast in[2] = {W == 32 ? Z3_mk_fpa_gt(c, f, Z3_mk_fpa_numeral_double(c, lo, s)) : Z3_mk_fpa_geq(c, f, Z3_mk_fpa_numeral_double(c, lo, s)), Z3_mk_fpa_lt(c, f, Z3_mk_fpa_numeral_double(c, hi, s))};
      r = Z3_mk_ite(c, Z3_mk_and(c, 2, in), Z3_mk_fpa_to_sbv(c, rtz, f, W), kb(1ull << (W - 1), W));
      if (e->w < W) r = Z3_mk_extract(c, e->w - 1, 0, r);
      break; }
    case F2UI: {
      Z3_ast f = fp(e->a[0]); Z3_sort s = Z3_get_sort(c, f);
      Z3_ast in[2] = {Z3_mk_fpa_gt(c, f, Z3_mk_fpa_numeral_double(c, -1.0, s)), Z3_mk_fpa_lt(c, f, Z3_mk_fpa_numeral_double(c, 18446744073709551616.0, s))};
      r = Z3_mk_ite(c, Z3_mk_and(c, 2, in), Z3_mk_fpa_to_ubv(c, rtz, f, 64), kb(1ull << 63, 64));
      if (e->w < 64) r = Z3_mk_extract(c, e->w - 1, 0, r);
      break; }
    case DIGIT: { Z3_ast v = bv(e->a[0]); unsigned vw = e->a[0]->w;
      Z3_ast q = e->aux ? Z3_mk_bvudiv(c, v, kb(pow10u(e->aux), vw)) : v;
      Z3_ast m = Z3_mk_bvurem(c, q, kb(10, vw));
      r = Z3_mk_bvadd(c, Z3_mk_extract(c, 7, 0, m), kb('0', 8)); break; }
    default: // floating-point valued
      r = Z3_mk_fpa_to_ieee_bv(c, fp(e)); break;
    }
    return e->zbv = r;
  }
};

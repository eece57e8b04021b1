#include "expr.h"
#include <algorithm>
#include <cfenv>
#include <unordered_set>
#include <cstdio>
#include <cstdlib>

std::vector<SymInfo> gSyms;
uint64_t gNumExprs = 0;
static const SymSet emptySyms;

struct EHash { size_t operator()(const Expr *e) const { return e->hash; } };
struct EEq { bool operator()(const Expr *x, const Expr *y) const {
  return x->op == y->op && x->w == y->w && x->aux == y->aux && x->a == y->a && x->b == y->b && x->c == y->c; } };
static std::unordered_set<const Expr *, EHash, EEq> gTab;
struct SSHash { size_t operator()(const SymSet &s) const { size_t h = 7; for (auto x : s) h = h * 1000003u ^ x; return h; } };
static std::unordered_set<SymSet, SSHash> gSymSets;
static std::unordered_map<uint64_t, const SymSet *> gUnionCache;
static const SymSet *internSyms(SymSet s) { if (s.empty()) return &emptySyms; return &*gSymSets.insert(std::move(s)).first; }
static const SymSet *unionSyms(const SymSet *a, const SymSet *b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  SymSet r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  if (r.size() == a->size()) return a;
  if (r.size() == b->size()) return b;
  return internSyms(std::move(r));
}
static char *arenaP = nullptr, *arenaE = nullptr;
static Expr *newExpr() {
  if (arenaP + sizeof(Expr) > arenaE) { size_t n = sizeof(Expr) * 8192; arenaP = (char *)malloc(n); arenaE = arenaP + n; }
  Expr *e = (Expr *)arenaP; arenaP += sizeof(Expr); return e;
}
E intern_raw(Op op, unsigned w, E a, E b, E c, uint64_t aux) {
  Expr k; k.op = op; k.w = w; k.aux = aux; k.a = a; k.b = b; k.c = c;
  uint64_t h = op * 0x9E3779B97F4A7C15ull + w * 31;
  auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
  mix(aux); if (a) mix(a->id + 1); if (b) mix(b->id * 3ull + 2); if (c) mix(c->id * 7ull + 5);
  k.hash = (uint32_t)(h ^ (h >> 32));
  auto it = gTab.find(&k);
  if (it != gTab.end()) return *it;
  Expr *e = newExpr(); *e = k; e->id = gNumExprs++;
  e->undef = 0; e->fp = (op >= O_FADD); e->syms = &emptySyms; e->depth = 1;
  for (E x : {a, b, c}) if (x) { e->undef |= x->undef; e->fp |= x->fp; e->syms = unionSyms(e->syms, x->syms); e->depth = std::max(e->depth, x->depth + 1); }
  if (op == O_SYM) { e->syms = internSyms({(uint32_t)aux}); e->undef = gSyms[aux].undef; }
  e->mEpoch = 0; e->mVal = 0; e->z3 = e->z3f = e->z3a = nullptr;
  gTab.insert(e);
  return e;
}
E mkConst(uint64_t v, unsigned w) { return intern_raw(O_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
E mkSym(const std::string &name, unsigned w, bool undef) {
  uint32_t id = gSyms.size(); gSyms.push_back({name, (uint8_t)w, undef});
  return intern_raw(O_SYM, w, nullptr, nullptr, nullptr, id);
}
static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t ofD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static float asF(uint64_t v) { uint32_t x = v; float d; memcpy(&d, &x, 4); return d; }
static uint64_t ofF(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
template <class T> static T frint(T x, unsigned rm) {
  switch (rm) { case RM_RTZ: return std::trunc(x); case RM_RTN: return std::floor(x); case RM_RTP: return std::ceil(x); case RM_RNA: return std::round(x); default: return std::nearbyint(x); }
}
uint64_t evalOp(Op op, unsigned w, unsigned wa, uint64_t aux, uint64_t a, uint64_t b, uint64_t c) {
  uint64_t m = maskw(w);
  switch (op) {
  case O_ADD: return (a + b) & m;
  case O_SUB: return (a - b) & m;
  case O_MUL: return (a * b) & m;
  case O_UDIV: return b ? (a / b) & m : m;
  case O_UREM: return b ? (a % b) & m : a;
  case O_SDIV: { int64_t x = sextw(a, w), y = sextw(b, w); if (y == 0) return (x >= 0 ? m : 1); if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
  case O_SREM: { int64_t x = sextw(a, w), y = sextw(b, w); if (y == 0) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case O_SHL: return b >= w ? 0 : (a << b) & m;
  case O_LSHR: return b >= w ? 0 : (a >> b) & m;
  case O_ASHR: { int64_t x = sextw(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
  case O_AND: return a & b;
  case O_OR: return a | b;
  case O_XOR: return a ^ b;
  case O_CONCAT: return ((a << aux) | b) & m; // aux = width of b
  case O_EXTRACT: return (a >> aux) & m;
  case O_ZEXT: return a;
  case O_SEXT: return (uint64_t)sextw(a, wa) & m;
  case O_EQ: return a == b;
  case O_ULT: return a < b;
  case O_ULE: return a <= b;
  case O_SLT: return sextw(a, wa) < sextw(b, wa);
  case O_SLE: return sextw(a, wa) <= sextw(b, wa);
  case O_ITE: return a ? b : c;
  case O_UMULO: { unsigned __int128 p = (unsigned __int128)a * b; return (p >> wa) != 0; }
  case O_SMULO: { __int128 p = (__int128)sextw(a, wa) * sextw(b, wa); __int128 lo = -((__int128)1 << (wa - 1)), hi = ((__int128)1 << (wa - 1)) - 1; return p < lo || p > hi; }
  case O_FADD: return w == 64 ? ofD(asD(a) + asD(b)) : ofF(asF(a) + asF(b));
  case O_FSUB: return w == 64 ? ofD(asD(a) - asD(b)) : ofF(asF(a) - asF(b));
  case O_FMUL: return w == 64 ? ofD(asD(a) * asD(b)) : ofF(asF(a) * asF(b));
  case O_FDIV: return w == 64 ? ofD(asD(a) / asD(b)) : ofF(asF(a) / asF(b));
  case O_FREM: return w == 64 ? ofD(fmod(asD(a), asD(b))) : ofF(fmodf(asF(a), asF(b)));
  case O_FREMAINDER: return w == 64 ? ofD(remainder(asD(a), asD(b))) : ofF(remainderf(asF(a), asF(b)));
  case O_FSQRT: return w == 64 ? ofD(sqrt(asD(a))) : ofF(sqrtf(asF(a)));
  case O_FRINT: return w == 64 ? ofD(frint(asD(a), aux)) : ofF(frint(asF(a), aux));
  case O_FEQ: return wa == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
  case O_FLT: return wa == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
  case O_FLE: return wa == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
  case O_FUNO: return wa == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b)));
  case O_FPTOSI: { double d = wa == 64 ? asD(a) : asF(a); d = std::trunc(d); double lim = std::ldexp(1.0, w - 1);
    if (!(d >= -lim && d < lim)) return (1ull << (w - 1)) & m; return (uint64_t)(int64_t)d & m; }
  case O_FPTOUI: { double d = wa == 64 ? asD(a) : asF(a); d = std::trunc(d); double lim = std::ldexp(1.0, w);
    if (!(d >= 0 && d < lim)) return (1ull << (w - 1)) & m; return (uint64_t)d & m; }
  case O_SITOFP: { int64_t x = sextw(a, wa); return w == 64 ? ofD((double)x) : ofF((float)x); }
  case O_UITOFP: return w == 64 ? ofD((double)a) : ofF((float)a);
  case O_FPCVT: return w == 64 ? ofD((double)asF(a)) : ofF((float)asD(a));
  default: abort();
  }
}
E mkNot(E e) {
  if (isC(e)) return mkConst(!e->aux, 1);
  return mk(O_XOR, 1, e, mkConst(1, 1));
}
E mkAnd(E a, E b) { return mk(O_AND, 1, a, b); }
E mkOr(E a, E b) { return mk(O_OR, 1, a, b); }
E mkEq(E a, E b) { return mk(O_EQ, 1, a, b); }
E mkIte(E c, E a, E b) { return mk(O_ITE, a->w, c, a, b); }
E mkExtract(E e, unsigned lo, unsigned w) { if (lo == 0 && w == e->w) return e; return mk(O_EXTRACT, w, e, nullptr, nullptr, lo); }
E mkConcat(E hi, E lo) { return mk(O_CONCAT, hi->w + lo->w, hi, lo, nullptr, lo->w); }
E mkZext(E e, unsigned w) { return w == e->w ? e : mk(O_ZEXT, w, e); }
E mkSext(E e, unsigned w) { return w == e->w ? e : mk(O_SEXT, w, e); }

static bool isNotE(E e) { return e->op == O_XOR && e->w == 1 && isC(e->b) && e->b->aux == 1; }
static bool commut(Op o) { return o == O_ADD || o == O_MUL || o == O_AND || o == O_OR || o == O_XOR || o == O_EQ || o == O_FEQ || o == O_FADD || o == O_FMUL || o == O_UMULO || o == O_SMULO || o == O_FUNO; }

// number of leading zero bits known
static unsigned topZero(E e) {
  switch (e->op) {
  case O_CONST: { unsigned n = 0; for (int i = e->w - 1; i >= 0 && !((e->aux >> i) & 1); --i) ++n; return n; }
  case O_ZEXT: return e->w - e->a->w + topZero(e->a);
  case O_AND: return std::max(topZero(e->a), topZero(e->b));
  case O_OR: case O_XOR: return std::min(topZero(e->a), topZero(e->b));
  case O_CONCAT: { unsigned t = topZero(e->a); return t == e->a->w ? t + topZero(e->b) : t; }
  case O_ITE: return std::min(topZero(e->b), topZero(e->c));
  case O_LSHR: if (isC(e->b)) return std::min<unsigned>(e->w, topZero(e->a) + e->b->aux); return 0;
  case O_UREM: if (isC(e->b) && e->b->aux) return topZero(e->b); return 0;
  default: return 0;
  }
}

E mk(Op op, unsigned w, E a, E b, E c, uint64_t aux) {
  // constant folding
  if (isC(a) && (!b || isC(b)) && (!c || isC(c)))
    return mkConst(evalOp(op, w, a->w, aux, a->aux, b ? b->aux : 0, c ? c->aux : 0), w);
  if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  switch (op) {
  case O_ADD:
    if (isC(b)) { if (b->aux == 0) return a; if (a->op == O_ADD && isC(a->b)) return mk(O_ADD, w, a->a, mkConst(a->b->aux + b->aux, w)); 
      if (a->op == O_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mk(O_ADD, w, a->b, b), mk(O_ADD, w, a->c, b)); }
    break;
  case O_SUB:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mk(O_ADD, w, a, mkConst(0 - b->aux, w));
    break;
  case O_MUL:
    if (isC(b)) { if (b->aux == 0) return b; if (b->aux == 1) return a;
      uint64_t v = b->aux; if ((v & (v - 1)) == 0) return mk(O_SHL, w, a, mkConst(__builtin_ctzll(v), w)); }
    break;
  case O_UDIV: if (isC(b) && b->aux == 1) return a; break;
  case O_SDIV: if (isC(b) && b->aux == 1 && w > 1) return a; break;
  case O_UREM: if (isC(b) && b->aux == 1) return mkConst(0, w); break;
  case O_SHL:
    if (isC(b)) { if (b->aux == 0) return a; if (b->aux >= w) return mkConst(0, w);
      return mkConcat(mkExtract(a, 0, w - b->aux), mkConst(0, b->aux)); }
    break;
  case O_LSHR:
    if (isC(b)) { if (b->aux == 0) return a; if (b->aux >= w) return mkConst(0, w);
      return mkZext(mkExtract(a, b->aux, w - b->aux), w); }
    break;
  case O_ASHR:
    if (isC(b)) { if (b->aux == 0) return a; uint64_t s = b->aux >= w ? w - 1 : b->aux;
      return mkSext(mkExtract(a, s, w - s), w); }
    break;
  case O_AND:
    if (a == b) return a;
    if (isC(b)) {
      if (b->aux == 0) return b; if (b->aux == maskw(w)) return a;
      if (w > 1) {
        uint64_t v = b->aux;
        // low mask
        if ((v & (v + 1)) == 0) { unsigned k = __builtin_ctzll(~v); return mkZext(mkExtract(a, 0, k), w); }
        if (a->op == O_ZEXT && (v >> a->a->w) == 0) return mkZext(mk(O_AND, a->a->w, a->a, mkConst(v, a->a->w)), w);
        if (a->op == O_ZEXT) return mk(O_AND, w, a, mkConst(v & maskw(a->a->w), w));
        if (a->op == O_AND && isC(a->b)) return mk(O_AND, w, a->a, mkConst(v & a->b->aux, w));
        if (a->op == O_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mk(O_AND, w, a->b, b), mk(O_AND, w, a->c, b));
        if (a->op == O_CONCAT) { unsigned lw = a->b->w; return mkConcat(mk(O_AND, a->a->w, a->a, mkConst(v >> lw, a->a->w)), mk(O_AND, lw, a->b, mkConst(v, lw))); }
      }
    }
    if (w == 1) { if ((isNotE(a) && a->a == b) || (isNotE(b) && b->a == a)) return mkConst(0, 1);
      if (b->op == O_AND && (b->a == a || b->b == a)) return b; if (a->op == O_AND && (a->a == b || a->b == b)) return a; }
    break;
  case O_OR:
    if (a == b) return a;
    if (isC(b)) { if (b->aux == 0) return a; if (b->aux == maskw(w)) return b;
      if (w > 1 && a->op == O_CONCAT) { unsigned lw = a->b->w; uint64_t v = b->aux; return mkConcat(mk(O_OR, a->a->w, a->a, mkConst(v >> lw, a->a->w)), mk(O_OR, lw, a->b, mkConst(v, lw))); }
      if (w > 1 && a->op == O_ZEXT && a->a->w < w) return mkConcat(mkConst(b->aux >> a->a->w, w - a->a->w), mk(O_OR, a->a->w, a->a, mkConst(b->aux, a->a->w)));
    }
    if (w == 1) { if ((isNotE(a) && a->a == b) || (isNotE(b) && b->a == a)) return mkConst(1, 1); }
    else {
      // disjoint concat halves: (zext x) | (concat y 0)
      for (int k = 0; k < 2; ++k) {
        E x = k ? b : a, y = k ? a : b;
        if (y->op == O_CONCAT && isC(y->b) && y->b->aux == 0 && w - topZero(x) <= y->b->w) return mkConcat(y->a, mkExtract(x, 0, y->b->w));
      }
    }
    break;
  case O_XOR:
    if (a == b) return mkConst(0, w);
    if (isC(b)) {
      if (b->aux == 0) return a;
      if (a->op == O_XOR && isC(a->b)) return mk(O_XOR, w, a->a, mkConst(a->b->aux ^ b->aux, w));
      if (w == 1) {
        if (a->op == O_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkNot(a->b), mkNot(a->c));
        if (a->op == O_ULT) return mk(O_ULE, 1, a->b, a->a);
        if (a->op == O_ULE) return mk(O_ULT, 1, a->b, a->a);
        if (a->op == O_SLT) return mk(O_SLE, 1, a->b, a->a);
        if (a->op == O_SLE) return mk(O_SLT, 1, a->b, a->a);
      }
    }
    break;
  case O_EXTRACT: {
    unsigned lo = aux;
    if (lo == 0 && w == a->w) return a;
    switch (a->op) {
    case O_EXTRACT: return mkExtract(a->a, a->aux + lo, w);
    case O_CONCAT: { unsigned lw = a->b->w;
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
    case O_ZEXT: { unsigned iw = a->a->w;
      if (lo >= iw) return mkConst(0, w);
      if (lo + w <= iw) return mkExtract(a->a, lo, w);
      return mkZext(mkExtract(a->a, lo, iw - lo), w); }
    case O_SEXT: { unsigned iw = a->a->w;
      if (lo + w <= iw) return mkExtract(a->a, lo, w);
      if (lo == 0) return mkSext(a->a, w);
      break; }
    case O_ITE: if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); break;
    case O_AND: case O_OR: case O_XOR: if (isC(a->b)) return mk(a->op, w, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w)); break;
    case O_ADD: case O_SUB: case O_MUL: if (lo == 0) return mk(a->op, w, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    default: break;
    }
    break; }
  case O_CONCAT:
    if (isC(a) && a->aux == 0) return mkZext(b, w);
    if (a->op == O_EXTRACT && b->op == O_EXTRACT && a->a == b->a && a->aux == b->aux + b->w) return mkExtract(a->a, b->aux, w);
    if (b->op == O_CONCAT && a->op == O_EXTRACT && b->a->op == O_EXTRACT && a->a == b->a->a && a->aux == b->a->aux + b->a->w)
      return mkConcat(mkExtract(a->a, b->a->aux, a->w + b->a->w), b->b);
    if (isC(a) && b->op == O_CONCAT && isC(b->a)) return mkConcat(mkConst((a->aux << b->a->w) | b->a->aux, a->w + b->a->w), b->b);
    if (a->op == O_ZEXT) return mkZext(mkConcat(a->a, b), w);
    if (a->op == O_ITE && b->op == O_ITE && a->a == b->a) return mkIte(a->a, mkConcat(a->b, b->b), mkConcat(a->c, b->c));
    if (a->op == O_ITE && isC(a->b) && isC(a->c) && isC(b)) return mkIte(a->a, mkConcat(a->b, b), mkConcat(a->c, b));
    break;
  case O_ZEXT:
    if (a->op == O_ZEXT) return mkZext(a->a, w);
    if (a->op == O_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));
    break;
  case O_SEXT:
    if (a->op == O_SEXT) return mkSext(a->a, w);
    if (a->op == O_ZEXT) return mkZext(a->a, w);
    if (a->op == O_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
    break;
  case O_EQ:
    if (a == b) return mkConst(1, 1);
    if (isC(b)) {
      uint64_t v = b->aux;
      if (a->w == 1) return v ? a : mkNot(a);
      switch (a->op) {
      case O_ZEXT: if (v >> a->a->w) return mkConst(0, 1); return mkEq(a->a, mkConst(v, a->a->w));
      case O_SEXT: if (((uint64_t)sextw(v & maskw(a->a->w), a->a->w) & maskw(a->w)) != v) return mkConst(0, 1); return mkEq(a->a, mkConst(v, a->a->w));
      case O_CONCAT: { unsigned lw = a->b->w; return mkAnd(mkEq(a->a, mkConst(v >> lw, a->a->w)), mkEq(a->b, mkConst(v, lw))); }
      case O_ADD: if (isC(a->b)) return mkEq(a->a, mkConst(v - a->b->aux, a->w)); break;
      case O_XOR: if (isC(a->b)) return mkEq(a->a, mkConst(v ^ a->b->aux, a->w)); break;
      case O_SUB: if (v == 0) return mkEq(a->a, a->b); break;
      case O_ITE:
        if (isC(a->b) || isC(a->c)) return mk(O_ITE, 1, a->a, mkEq(a->b, b), mkEq(a->c, b));
        break;
      case O_AND: // (x & m) == v with v outside m
        if (isC(a->b) && (v & ~a->b->aux)) return mkConst(0, 1);
        break;
      default: break;
      }
    }
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == O_ADD && b->op == O_ADD && a->b == b->b) return mkEq(a->a, b->a);
    if (a->op == O_ADD && isC(a->b) && a->a == b) return mkConst(a->b->aux == 0, 1);
    if (b->op == O_ADD && isC(b->b) && b->a == a) return mkConst(b->b->aux == 0, 1);
    break;
  case O_ULT:
    if (a == b) return mkConst(0, 1);
    if (isC(b)) { if (b->aux == 0) return mkConst(0, 1); if (b->aux == 1) return mkEq(a, mkConst(0, a->w)); 
      if (a->op == O_ZEXT) { if (b->aux > maskw(a->a->w)) return mkConst(1, 1); return mk(O_ULT, 1, a->a, mkConst(b->aux, a->a->w)); } 
      if (a->op == O_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mk(O_ULT, 1, a->b, b), mk(O_ULT, 1, a->c, b)); }
    if (isC(a)) { if (a->aux == maskw(a->w)) return mkConst(0, 1);
      if (b->op == O_ZEXT) { if (a->aux >= maskw(b->a->w)) return mkConst(0, 1); return mk(O_ULT, 1, mkConst(a->aux, b->a->w), b->a); }
      if (b->op == O_ITE && isC(b->b) && isC(b->c)) return mkIte(b->a, mk(O_ULT, 1, a, b->b), mk(O_ULT, 1, a, b->c)); 
      if (a->aux == 0) return mkNot(mkEq(b, a)); }
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mk(O_ULT, 1, a->a, b->a);
    if (w == 1 && a->w == 1) return mkAnd(mkNot(a), b);
    break;
  case O_ULE:
    if (a == b) return mkConst(1, 1);
    if (isC(b)) { if (b->aux == maskw(a->w)) return mkConst(1, 1); return mk(O_ULT, 1, a, mkConst(b->aux + 1, a->w)); }
    if (isC(a)) { if (a->aux == 0) return mkConst(1, 1); return mk(O_ULT, 1, mkConst(a->aux - 1, a->w), b); }
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mk(O_ULE, 1, a->a, b->a);
    if (a->w == 1) return mkOr(mkNot(a), b);
    break;
  case O_SLT:
    if (a == b) return mkConst(0, 1);
    if (a->op == O_ZEXT && isC(b)) { int64_t v = sextw(b->aux, b->w); if (v <= 0) return mkConst(0, 1); return mk(O_ULT, 1, a, b); }
    if (b->op == O_ZEXT && isC(a)) { int64_t v = sextw(a->aux, a->w); if (v < 0) return mkConst(1, 1); return mk(O_ULT, 1, a, b); }
    if (a->op == O_ZEXT && b->op == O_ZEXT) return mk(O_ULT, 1, a, b);
    if (isC(b) && a->op == O_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mk(O_SLT, 1, a->b, b), mk(O_SLT, 1, a->c, b));
    if (isC(a) && b->op == O_ITE && isC(b->b) && isC(b->c)) return mkIte(b->a, mk(O_SLT, 1, a, b->b), mk(O_SLT, 1, a, b->c));
    if (isC(b) && a->op == O_SEXT && a->a->w < 64) { int64_t v = sextw(b->aux, b->w), lo = -(1ll << (a->a->w - 1)), hi = (1ll << (a->a->w - 1)) - 1; if (v <= lo) return mkConst(0, 1); if (v > hi) return mkConst(1, 1); return mk(O_SLT, 1, a->a, mkConst(v, a->a->w)); }
    break;
  case O_SLE:
    if (a == b) return mkConst(1, 1);
    if (isC(b)) { int64_t v = sextw(b->aux, b->w); if (v == (int64_t)(maskw(b->w) >> 1)) return mkConst(1, 1); return mk(O_SLT, 1, a, mkConst(v + 1, b->w)); }
    if (isC(a)) { int64_t v = sextw(a->aux, a->w); if (v == sextw(1ull << (a->w - 1), a->w)) return mkConst(1, 1); return mk(O_SLT, 1, mkConst(v - 1, a->w), b); }
    if (a->op == O_ZEXT && b->op == O_ZEXT) return mk(O_ULE, 1, a, b);
    break;
  case O_ITE:
    if (isC(a)) return a->aux ? b : c;
    if (b == c) return b;
    if (isNotE(a)) return mkIte(a->a, c, b);
    if (w == 1) {
      if (isC(b)) return b->aux ? mkOr(a, c) : mkAnd(mkNot(a), c);
      if (isC(c)) return c->aux ? mkOr(mkNot(a), b) : mkAnd(a, b);
    }
    if (b->op == O_ITE && b->a == a) return mkIte(a, b->b, c);
    if (c->op == O_ITE && c->a == a) return mkIte(a, b, c->c);
    if (c->op == O_ITE && c->b == b) return mkIte(mkOr(a, c->a), b, c->c);
    break;
  case O_FRINT:
    if (a->op == O_FRINT || a->op == O_SITOFP || a->op == O_UITOFP) return a;
    break;
  case O_FPTOSI:
    break;
  default: break;
  }
  return intern_raw(op, w, a, b, c, aux);
}

static uint32_t gEpoch = 0;
ModelP newModel(std::vector<uint64_t> v) { auto m = std::make_shared<Model>(); m->v = std::move(v); m->epoch = ++gEpoch; return m; }
uint64_t evalE(E e, const Model &m) {
  if (e->op == O_CONST) return e->aux;
  if (e->op == O_SYM) return e->aux < m.v.size() ? m.v[e->aux] & maskw(e->w) : 0;
  if (e->mEpoch == m.epoch) return e->mVal;
  uint64_t r;
  if (e->op == O_ITE) r = evalE(e->a, m) ? evalE(e->b, m) : evalE(e->c, m);
  else {
    uint64_t a = evalE(e->a, m), b = e->b ? evalE(e->b, m) : 0;
    r = evalOp(e->op, e->w, e->a->w, e->aux, a, b, 0);
  }
  e->mVal = r; e->mEpoch = m.epoch;
  return r;
}
static std::unordered_map<const Expr *, Mask256> gMasks;
const Mask256 &truthMask(E e) {
  auto it = gMasks.find(e); if (it != gMasks.end()) return it->second;
  Mask256 k = {{0, 0, 0, 0}};
  uint32_t s = (*e->syms)[0]; unsigned n = 1u << gSyms[s].w;
  Model m; m.v.assign(s + 1, 0);
  for (unsigned i = 0; i < n; ++i) { m.v[s] = i; m.epoch = ++gEpoch; if (evalE(e, m)) k.w[i >> 6] |= 1ull << (i & 63); }
  return gMasks.emplace(e, k).first->second;
}
static const char *opn[] = {"const", "sym", "+", "-", "*", "/u", "/s", "%u", "%s", "<<", ">>u", ">>s", "&", "|", "^", "concat", "extract", "zext", "sext", "==", "<u", "<=u", "<s", "<=s", "ite", "umulo", "smulo", "f+", "f-", "f*", "f/", "frem", "fremainder", "fsqrt", "frint", "f==", "f<", "f<=", "funo", "fptosi", "fptoui", "sitofp", "uitofp", "fpcvt"};
std::string showE(E e, int d) {
  if (isC(e)) return std::to_string(e->aux) + ":" + std::to_string(e->w);
  if (e->op == O_SYM) return gSyms[e->aux].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + opn[e->op];
  if (e->op == O_EXTRACT) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
  for (E x : {e->a, e->b, e->c}) if (x) s += " " + showE(x, d - 1);
  return s + ")";
}

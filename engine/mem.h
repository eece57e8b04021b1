// Copy-on-write simulated memory with validity, initialisation and symbolic shadow.
#pragma once
#include "expr.h"
enum { R_RO = 1, R_RW = 2, R_FN = 3, R_HEAP = 4, R_STACK = 5, R_N = 6 };
static const unsigned PG = 512, PGS = 9, CHP = 128, CHS = 7;
struct SymByte { E e; uint8_t idx; };
struct Page { int rc; int nsym; SymByte *sym; uint64_t valid[PG / 64], init[PG / 64]; uint8_t data[PG]; };
struct Chunk { int rc; Page *p[CHP]; };
extern Page gFullPage; // all valid, nothing initialised

struct Val { uint64_t c; E e; };
inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

enum MemR { M_OK, M_INVALID, M_RO };
class Mem {
  std::vector<Chunk *> reg[R_N];
public:
  Mem() {}
  Mem(const Mem &o) { for (int r = 0; r < R_N; ++r) { reg[r] = o.reg[r]; for (Chunk *c : reg[r]) if (c) c->rc++; } }
  Mem &operator=(const Mem &) = delete;
  ~Mem() { for (auto &v : reg) for (Chunk *c : v) dropChunk(c); }
  static void dropPage(Page *p) { if (p && p != &gFullPage && --p->rc == 0) { free(p->sym); free(p); } }
  static void dropChunk(Chunk *c) { if (c && --c->rc == 0) { for (Page *p : c->p) dropPage(p); free(c); } }
  inline const Page *rd(uint64_t a) const {
    uint64_t r = a >> 32; if (r - 1 >= R_N - 1) return nullptr;
    uint32_t o = (uint32_t)a, ci = o >> (PGS + CHS);
    if (ci >= reg[r].size() || !reg[r][ci]) return nullptr;
    return reg[r][ci]->p[(o >> PGS) & (CHP - 1)];
  }
  // page for writing; allocates when 'create'
  Page **slot(uint64_t a) {
    uint64_t r = a >> 32; uint32_t o = (uint32_t)a, ci = o >> (PGS + CHS);
    auto &v = reg[r]; if (ci >= v.size()) v.resize(ci + 1, nullptr);
    Chunk *&c = v[ci];
    if (!c) { c = (Chunk *)calloc(1, sizeof(Chunk)); c->rc = 1; }
    else if (c->rc > 1) { Chunk *n = (Chunk *)malloc(sizeof(Chunk)); memcpy(n, c, sizeof(Chunk)); n->rc = 1; for (Page *p : n->p) if (p && p != &gFullPage) p->rc++; c->rc--; c = n; }
    return &c->p[(o >> PGS) & (CHP - 1)];
  }
  Page *wr(uint64_t a) {
    Page **s = slot(a); Page *p = *s;
    if (!p) { p = (Page *)calloc(1, sizeof(Page)); p->rc = 1; *s = p; }
    else if (p == &gFullPage || p->rc > 1) {
      Page *n = (Page *)malloc(sizeof(Page)); memcpy(n, p, sizeof(Page)); n->rc = 1;
      if (p->sym) { n->sym = (SymByte *)malloc(sizeof(SymByte) * PG); memcpy(n->sym, p->sym, sizeof(SymByte) * PG); }
      if (p != &gFullPage) p->rc--; *s = p = n;
    }
    return p;
  }
  bool validRange(uint64_t a, uint64_t n) const {
    if (n && (a >> 32) != ((a + n - 1) >> 32)) return false;
    while (n) {
      const Page *p = rd(a); if (!p) return false;
      unsigned o = a & (PG - 1); unsigned k = std::min<uint64_t>(n, PG - o);
      if (p != &gFullPage) for (unsigned i = o; i < o + k;) {
        if ((i & 63) == 0 && i + 64 <= o + k) { if (p->valid[i >> 6] != ~0ull) return false; i += 64; }
        else { if (!((p->valid[i >> 6] >> (i & 63)) & 1)) return false; ++i; }
      }
      a += k; n -= k;
    }
    return true;
  }
  static void setBits(uint64_t *b, unsigned lo, unsigned n, bool v) {
    while (n) { unsigned w = lo >> 6, s = lo & 63, k = std::min(n, 64 - s); uint64_t m = (k == 64 ? ~0ull : ((1ull << k) - 1)) << s; if (v) b[w] |= m; else b[w] &= ~m; lo += k; n -= k; }
  }
  // mark [a,a+n) valid (or not); contents become uninitialised unless init
  void mark(uint64_t a, uint64_t n, bool valid, bool init) {
    while (n) {
      unsigned o = a & (PG - 1); unsigned k = std::min<uint64_t>(n, PG - o);
      if (k == PG && !init) { Page **s = slot(a); dropPage(*s); *s = valid ? &gFullPage : nullptr; }
      else {
        if (!valid && !rd(a)) { a += k; n -= k; continue; }
        Page *p = wr(a); setBits(p->valid, o, k, valid); setBits(p->init, o, k, init);
        if (p->sym) clearSym(p, o, k);
        if (init) memset(p->data + o, 0, k);
      }
      a += k; n -= k;
    }
  }
  static void clearSym(Page *p, unsigned o, unsigned k) {
    for (unsigned i = o; i < o + k; ++i) if (p->sym[i].e) { p->sym[i].e = nullptr; if (--p->nsym == 0) { free(p->sym); p->sym = nullptr; return; } }
  }
  static bool bitsAll(const uint64_t *b, unsigned o, unsigned k) { // k <= 8
    unsigned s = o & 63; uint64_t m = (1ull << k) - 1;
    if (s + k <= 64) return ((b[o >> 6] >> s) & m) == m;
    for (unsigned i = o; i < o + k; ++i) if (!((b[i >> 6] >> (i & 63)) & 1)) return false;
    return true;
  }
  // raw access (no checks, concrete)
  void rawW(uint64_t a, const void *d, unsigned n) { const uint8_t *s = (const uint8_t *)d; while (n) { Page *p = wr(a); unsigned o = a & (PG - 1), k = std::min(n, PG - o); memcpy(p->data + o, s, k); a += k; s += k; n -= k; } }
  void rawR(uint64_t a, void *d, unsigned n) const { uint8_t *s = (uint8_t *)d; while (n) { const Page *p = rd(a); unsigned o = a & (PG - 1), k = std::min(n, PG - o); if (p) memcpy(s, p->data + o, k); else memset(s, 0, k); a += k; s += k; n -= k; } }
  uint64_t raw64(uint64_t a) const { uint64_t v; rawR(a, &v, 8); return v; }
  // byte access: b.e / b.idx or concrete
  MemR rdByte(uint64_t a, SymByte &sb, uint8_t &c, bool &init) const {
    const Page *p = rd(a); if (!p) return M_INVALID; unsigned o = a & (PG - 1);
    if (!((p->valid[o >> 6] >> (o & 63)) & 1)) return M_INVALID;
    c = p->data[o]; init = (p->init[o >> 6] >> (o & 63)) & 1; sb = p->sym ? p->sym[o] : SymByte{nullptr, 0}; return M_OK;
  }
  void wrByte(uint64_t a, SymByte sb, uint8_t c, bool init) {
    Page *p = wr(a); unsigned o = a & (PG - 1); p->data[o] = c;
    if (init) p->init[o >> 6] |= 1ull << (o & 63); else p->init[o >> 6] &= ~(1ull << (o & 63));
    if (sb.e) { if (!p->sym) { p->sym = (SymByte *)calloc(PG, sizeof(SymByte)); p->nsym = 0; } if (!p->sym[o].e) p->nsym++; p->sym[o] = sb; }
    else if (p->sym && p->sym[o].e) { p->sym[o].e = nullptr; if (--p->nsym == 0) { free(p->sym); p->sym = nullptr; } }
  }
  MemR store(uint64_t a, unsigned n, const Val &v, unsigned w) {
    if ((a >> 32) == R_RO) return rd(a) ? M_RO : M_INVALID;
    unsigned o = a & (PG - 1);
    if (o + n <= PG) {
      const Page *q = rd(a); if (!q || !bitsAll(q->valid, o, n)) return M_INVALID;
      Page *p = wr(a);
      setBits(p->init, o, n, true);
      if (!v.e) { memcpy(p->data + o, &v.c, n); if (p->sym) clearSym(p, o, n); return M_OK; }
      E e = v.e; if (e->w != n * 8) e = mkZext(e, n * 8);
      if (!p->sym) { p->sym = (SymByte *)calloc(PG, sizeof(SymByte)); p->nsym = 0; }
      for (unsigned i = 0; i < n; ++i) { if (!p->sym[o + i].e) p->nsym++; p->sym[o + i] = {e, (uint8_t)i}; }
      return M_OK;
    }
    if (!validRange(a, n)) return M_INVALID;
    E e = v.e; if (e && e->w != n * 8) e = mkZext(e, n * 8);
    for (unsigned i = 0; i < n; ++i) wrByte(a + i, SymByte{e, (uint8_t)i}, (uint8_t)(v.c >> (8 * i)), true);
    return M_OK;
  }
  static E byteE(const SymByte &sb, uint8_t c) { return sb.e ? mkExtract(sb.e, sb.idx * 8, 8) : mkConst(c, 8); }
  // load n bytes as a value of width w; uninit set when an uninitialised byte is read
  MemR load(uint64_t a, unsigned n, unsigned w, Val &v, bool &uninit) const {
    unsigned o = a & (PG - 1);
    uninit = false;
    if (o + n <= PG) {
      const Page *p = rd(a); if (!p || !bitsAll(p->valid, o, n)) return M_INVALID;
      if (!bitsAll(p->init, o, n)) uninit = true;
      if (!p->sym) { uint64_t x = 0; memcpy(&x, p->data + o, n); v.c = x & maskw(w); v.e = nullptr; return M_OK; }
      bool any = false; for (unsigned i = 0; i < n; ++i) if (p->sym[o + i].e) { any = true; break; }
      if (!any) { uint64_t x = 0; memcpy(&x, p->data + o, n); v.c = x & maskw(w); v.e = nullptr; return M_OK; }
      E f = p->sym[o].e;
      if (f && f->w == n * 8) { bool all = true; for (unsigned i = 0; i < n && all; ++i) all = p->sym[o + i].e == f && p->sym[o + i].idx == i; if (all) { set(v, w == f->w ? f : mkExtract(f, 0, w)); return M_OK; } }
      E r = byteE(p->sym[o + n - 1], p->data[o + n - 1]);
      for (int i = n - 2; i >= 0; --i) r = mkConcat(r, byteE(p->sym[o + i], p->data[o + i]));
      set(v, w == r->w ? r : mkExtract(r, 0, w)); return M_OK;
    }
    E r = nullptr; uint64_t cv = 0; bool any = false; SymByte sb[8]; uint8_t cb[8];
    for (unsigned i = 0; i < n; ++i) { bool in; if (rdByte(a + i, sb[i], cb[i], in) != M_OK) return M_INVALID; if (!in) uninit = true; if (sb[i].e) any = true; cv |= (uint64_t)cb[i] << (8 * i); }
    if (!any) { v.c = cv & maskw(w); v.e = nullptr; return M_OK; }
    r = byteE(sb[n - 1], cb[n - 1]); for (int i = n - 2; i >= 0; --i) r = mkConcat(r, byteE(sb[i], cb[i]));
    set(v, w == r->w ? r : mkExtract(r, 0, w)); return M_OK;
  }
  static void set(Val &v, E e) { if (isC(e)) { v.c = e->aux; v.e = nullptr; } else { v.c = 0; v.e = e; } }
  MemR copy(uint64_t d, uint64_t s, uint64_t n) { // overlapping allowed; ranges checked by the caller
    struct T { SymByte sb; uint8_t c; bool in; };
    uint64_t i = 0;
    if (d > s && d < s + n) { // backwards
      for (i = n; i-- > 0;) { T t; rdByte(s + i, t.sb, t.c, t.in); wrByte(d + i, t.sb, t.c, t.in); }
      return M_OK;
    }
    while (i < n) {
      unsigned so = (s + i) & (PG - 1), dO = (d + i) & (PG - 1); unsigned k = std::min<uint64_t>(n - i, std::min(PG - so, PG - dO));
      const Page *sp = rd(s + i);
      if (!sp->sym) {
        Page *dp = wr(d + i); sp = rd(s + i);
        if (sp != dp) {
          memmove(dp->data + dO, sp->data + so, k); if (dp->sym) clearSym(dp, dO, k);
          for (unsigned j = 0; j < k;) { if (((so + j) & 63) == 0 && ((dO + j) & 63) == 0 && k - j >= 64) { dp->init[(dO + j) >> 6] = sp->init[(so + j) >> 6]; j += 64; } else { bool b = (sp->init[(so + j) >> 6] >> ((so + j) & 63)) & 1; if (b) dp->init[(dO + j) >> 6] |= 1ull << ((dO + j) & 63); else dp->init[(dO + j) >> 6] &= ~(1ull << ((dO + j) & 63)); ++j; } }
          i += k; continue;
        }
      }
      for (unsigned j = 0; j < k; ++j, ++i) { T t; rdByte(s + i, t.sb, t.c, t.in); wrByte(d + i, t.sb, t.c, t.in); }
    }
    return M_OK;
  }
};

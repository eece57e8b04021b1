#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
SolverStats gStats;
unsigned gZ3TimeoutMs = 60000;
static Z3_context C;
static unsigned gSeed = 0;
static bool gZ3Err = false;
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "vsym: z3 error: %s\n", Z3_get_error_msg(c, e)); gZ3Err = true; abort(); }
void solverInit(unsigned seed) {
  gSeed = seed;
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context_rc(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(C, onErr);
}
static std::vector<Z3_ast> gSymAst;
static inline Z3_ast R(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_sort bvS(unsigned w) { static Z3_sort s[129]; if (!s[w]) { s[w] = Z3_mk_bv_sort(C, w); Z3_inc_ref(C, Z3_sort_to_ast(C, s[w])); } return s[w]; }
static Z3_sort fpS(unsigned w) { static Z3_sort s32, s64; if (!s64) { s64 = Z3_mk_fpa_sort_double(C); Z3_inc_ref(C, Z3_sort_to_ast(C, s64)); s32 = Z3_mk_fpa_sort_single(C); Z3_inc_ref(C, Z3_sort_to_ast(C, s32)); } return w == 64 ? s64 : s32; }
static Z3_ast rm(unsigned r) { switch (r) { case RM_RTZ: return Z3_mk_fpa_rtz(C); case RM_RTN: return Z3_mk_fpa_rtn(C); case RM_RTP: return Z3_mk_fpa_rtp(C); case RM_RNA: return Z3_mk_fpa_rna(C); default: return Z3_mk_fpa_rne(C); } }
static Z3_ast num(uint64_t v, unsigned w) { return R(Z3_mk_unsigned_int64(C, v, bvS(w))); }
static Z3_ast tr(E e);          // bool when w == 1, else bit-vector
static Z3_ast trBV(E e) { // always bit-vector
  Z3_ast a = tr(e);
  if (e->w == 1) return R(Z3_mk_ite(C, a, num(1, 1), num(0, 1)));
  return a;
}
static bool fpOp(E e) { return (e->op >= O_FADD && e->op <= O_FRINT) || e->op == O_SITOFP || e->op == O_UITOFP || e->op == O_FPCVT; }
static Z3_ast trF(E e) {
  if (e->z3f) return (Z3_ast)e->z3f;
  Z3_sort s = fpS(e->w); Z3_ast r;
  switch (e->op) {
  case O_FADD: r = Z3_mk_fpa_add(C, rm(0), trF(e->a), trF(e->b)); break;
  case O_FSUB: r = Z3_mk_fpa_sub(C, rm(0), trF(e->a), trF(e->b)); break;
  case O_FMUL: r = Z3_mk_fpa_mul(C, rm(0), trF(e->a), trF(e->b)); break;
  case O_FDIV: r = Z3_mk_fpa_div(C, rm(0), trF(e->a), trF(e->b)); break;
  case O_FREMAINDER: r = Z3_mk_fpa_rem(C, trF(e->a), trF(e->b)); break;
  case O_FREM: {
    Z3_ast x = trF(e->a), y = trF(e->b);
    Z3_ast ax = R(Z3_mk_fpa_abs(C, x)), ay = R(Z3_mk_fpa_abs(C, y));
    Z3_ast q = R(Z3_mk_fpa_rem(C, ax, ay));
    Z3_ast neg = R(Z3_mk_fpa_lt(C, q, Z3_mk_fpa_zero(C, s, false)));
    Z3_ast q2 = R(Z3_mk_ite(C, neg, Z3_mk_fpa_add(C, rm(0), q, ay), q));
    q2 = R(Z3_mk_fpa_abs(C, q2));
    r = Z3_mk_ite(C, Z3_mk_fpa_is_negative(C, x), Z3_mk_fpa_neg(C, q2), q2); break; }
  case O_FSQRT: r = Z3_mk_fpa_sqrt(C, rm(0), trF(e->a)); break;
  case O_FRINT: r = Z3_mk_fpa_round_to_integral(C, rm(e->aux), trF(e->a)); break;
  case O_SITOFP: r = Z3_mk_fpa_to_fp_signed(C, rm(0), trBV(e->a), s); break;
  case O_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(C, rm(0), trBV(e->a), s); break;
  case O_FPCVT: r = Z3_mk_fpa_to_fp_float(C, rm(0), trF(e->a), s); break;
  case O_ITE: if (e->b->fp || e->c->fp) { r = Z3_mk_ite(C, tr(e->a), trF(e->b), trF(e->c)); break; } // fallthrough
  default: r = Z3_mk_fpa_to_fp_bv(C, trBV(e), s);
  }
  e->z3f = R(r); return r;
}
static bool gAbs = false; // floating-point arithmetic abstracted to fresh constants, comparisons exact on the bit patterns
static bool neverNaN(E e) { return e->op == O_SITOFP || e->op == O_UITOFP; }
// exact conversion of an integer to the bits of the nearest double (ties to even)
static Z3_ast intToDouble(E e) {
  bool sg = e->op == O_SITOFP; unsigned w = e->a->w; Z3_ast x = trBV(e->a);
  if (w < 64) x = R(sg ? Z3_mk_sign_ext(C, 64 - w, x) : Z3_mk_zero_ext(C, 64 - w, x));
  Z3_ast neg = sg ? R(Z3_mk_bvslt(C, x, num(0, 64))) : R(Z3_mk_false(C));
  Z3_ast m = sg ? R(Z3_mk_ite(C, neg, R(Z3_mk_bvneg(C, x)), x)) : x; Z3_ast isz = R(Z3_mk_eq(C, m, num(0, 64)));
  Z3_ast ex = num(1023 + 63, 64);
  for (int k = 5; k >= 0; --k) { unsigned n = 1u << k; Z3_ast z = R(Z3_mk_eq(C, R(Z3_mk_extract(C, 63, 64 - n, m)), num(0, n))); m = R(Z3_mk_ite(C, z, R(Z3_mk_bvshl(C, m, num(n, 64))), m)); ex = R(Z3_mk_ite(C, z, R(Z3_mk_bvsub(C, ex, num(n, 64))), ex)); }
  Z3_ast q = R(Z3_mk_extract(C, 63, 11, m)), rest = R(Z3_mk_extract(C, 10, 0, m)); // 53 significant bits
  Z3_ast half = num(1024, 11), lsb = R(Z3_mk_eq(C, R(Z3_mk_extract(C, 0, 0, q)), num(1, 1)));
  Z3_ast tie[2] = {R(Z3_mk_eq(C, rest, half)), lsb}; Z3_ast up2[2] = {R(Z3_mk_bvugt(C, rest, half)), R(Z3_mk_and(C, 2, tie))}; Z3_ast up = R(Z3_mk_or(C, 2, up2));
  // packed = (ex << 52) + (q - 2^52) + up ; a carry out of the mantissa increments the exponent
  Z3_ast r = R(Z3_mk_bvadd(C, R(Z3_mk_bvshl(C, ex, num(52, 64))), R(Z3_mk_zero_ext(C, 12, R(Z3_mk_extract(C, 51, 0, q))))));
  r = R(Z3_mk_bvadd(C, r, R(Z3_mk_ite(C, up, num(1, 64), num(0, 64)))));
  r = R(Z3_mk_ite(C, isz, num(0, 64), r)); r = R(Z3_mk_bvor(C, r, R(Z3_mk_ite(C, neg, num(1ull << 63, 64), num(0, 64)))));
  return r;
}
static Z3_ast cmpBits(E e) {
  unsigned w = e->a->w; uint64_t inf = w == 64 ? 0x7ff0000000000000ull : 0x7f800000ull, mm = maskw(w) >> 1;
  struct P { Z3_ast b, mag, nan, zero, sg; };
  auto part = [&](E x) { P p; p.b = trBV(x); p.mag = R(Z3_mk_bvand(C, p.b, num(mm, w))); p.nan = neverNaN(x) ? R(Z3_mk_false(C)) : R(Z3_mk_bvugt(C, p.mag, num(inf, w))); p.zero = R(Z3_mk_eq(C, p.mag, num(0, w))); p.sg = R(Z3_mk_bvslt(C, p.b, num(0, w))); return p; };
  P x = part(e->a), y = part(e->b); Z3_ast nn[2] = {x.nan, y.nan}; Z3_ast uno = R(Z3_mk_or(C, 2, nn)); if (e->op == O_FUNO) return uno;
  Z3_ast zz[2] = {x.zero, y.zero}; Z3_ast bothZ = R(Z3_mk_and(C, 2, zz));
  Z3_ast pos[2] = {R(Z3_mk_not(C, y.sg)), R(Z3_mk_bvult(C, x.mag, y.mag))};
  Z3_ast lt = R(Z3_mk_ite(C, x.sg, R(Z3_mk_ite(C, y.sg, R(Z3_mk_bvult(C, y.mag, x.mag)), R(Z3_mk_not(C, bothZ)))), R(Z3_mk_and(C, 2, pos))));
  Z3_ast ee[2] = {R(Z3_mk_eq(C, x.b, y.b)), bothZ}; Z3_ast eq = R(Z3_mk_or(C, 2, ee)); Z3_ast ord = R(Z3_mk_not(C, uno));
  Z3_ast le2[2] = {lt, eq}; Z3_ast core = e->op == O_FLT ? lt : e->op == O_FEQ ? eq : R(Z3_mk_or(C, 2, le2));
  Z3_ast f[2] = {ord, core}; return Z3_mk_and(C, 2, f);
}
static bool fpArith(E e) { // contains floating-point arithmetic or conversions
  if (!e->fp) return false; static std::unordered_map<E, bool> memo; auto it = memo.find(e); if (it != memo.end()) return it->second;
  bool conv = (e->op == O_SITOFP || e->op == O_UITOFP) && e->w == 64;
  bool r = (fpOp(e) && !conv) || e->op == O_FPTOSI || e->op == O_FPTOUI || (e->a && fpArith(e->a)) || (e->b && fpArith(e->b)) || (e->c && fpArith(e->c)); memo[e] = r; return r;
}
static Z3_ast tr(E e) {
  auto &memo = gAbs && e->fp ? e->z3a : e->z3;
  if (memo) return (Z3_ast)memo;
  Z3_ast r; unsigned w = e->w;
  if (gAbs && (e->op == O_FEQ || e->op == O_FLT || e->op == O_FLE || e->op == O_FUNO)) { memo = R(cmpBits(e)); return (Z3_ast)memo; }
  if (gAbs && (e->op == O_SITOFP || e->op == O_UITOFP) && w == 64) { memo = R(intToDouble(e)); return (Z3_ast)memo; }
  if (gAbs && (fpOp(e) || e->op == O_FPTOSI || e->op == O_FPTOUI)) {
    Z3_symbol s = Z3_mk_string_symbol(C, ("a" + std::to_string(e->id)).c_str());
    memo = R(w == 1 ? Z3_mk_const(C, s, Z3_mk_bool_sort(C)) : Z3_mk_const(C, s, bvS(w))); return (Z3_ast)memo;
  }
  if (fpOp(e)) { r = Z3_mk_fpa_to_ieee_bv(C, trF(e)); memo = R(r); return r; }
  auto A = [&] { return trBV(e->a); }; auto B = [&] { return trBV(e->b); };
  auto toBool1 = [&](Z3_ast x) { return R(Z3_mk_eq(C, x, num(1, 1))); };
  switch (e->op) {
  case O_CONST: r = w == 1 ? (e->aux ? Z3_mk_true(C) : Z3_mk_false(C)) : num(e->aux, w); break;
  case O_SYM: { std::string n = "v" + std::to_string(e->aux); Z3_symbol s = Z3_mk_string_symbol(C, n.c_str());
    r = w == 1 ? Z3_mk_const(C, s, Z3_mk_bool_sort(C)) : Z3_mk_const(C, s, bvS(w));
    if (gSymAst.size() <= e->aux) gSymAst.resize(e->aux + 1); gSymAst[e->aux] = R(r); break; }
  case O_AND: if (w == 1) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_and(C, 2, x); } else r = Z3_mk_bvand(C, A(), B()); break;
  case O_OR: if (w == 1) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_or(C, 2, x); } else r = Z3_mk_bvor(C, A(), B()); break;
  case O_XOR: if (w == 1) r = Z3_mk_xor(C, tr(e->a), tr(e->b)); else r = Z3_mk_bvxor(C, A(), B()); break;
  case O_ADD: r = Z3_mk_bvadd(C, A(), B()); break;
  case O_SUB: r = Z3_mk_bvsub(C, A(), B()); break;
  case O_MUL: r = Z3_mk_bvmul(C, A(), B()); break;
  case O_UDIV: r = Z3_mk_bvudiv(C, A(), B()); break;
  case O_SDIV: r = Z3_mk_bvsdiv(C, A(), B()); break;
  case O_UREM: r = Z3_mk_bvurem(C, A(), B()); break;
  case O_SREM: r = Z3_mk_bvsrem(C, A(), B()); break;
  case O_SHL: r = Z3_mk_bvshl(C, A(), B()); break;
  case O_LSHR: r = Z3_mk_bvlshr(C, A(), B()); break;
  case O_ASHR: r = Z3_mk_bvashr(C, A(), B()); break;
  case O_CONCAT: r = Z3_mk_concat(C, A(), B()); break;
  case O_EXTRACT: r = Z3_mk_extract(C, e->aux + w - 1, e->aux, A()); break;
  case O_ZEXT: if (e->a->w == 1) r = Z3_mk_ite(C, tr(e->a), num(1, w), num(0, w)); else r = Z3_mk_zero_ext(C, w - e->a->w, A()); break;
  case O_SEXT: if (e->a->w == 1) r = Z3_mk_ite(C, tr(e->a), num(~0ull & maskw(w), w), num(0, w)); else r = Z3_mk_sign_ext(C, w - e->a->w, A()); break;
  case O_EQ: if (e->a->w == 1) r = Z3_mk_eq(C, tr(e->a), tr(e->b)); else r = Z3_mk_eq(C, A(), B()); break;
  case O_ULT: r = Z3_mk_bvult(C, A(), B()); break;
  case O_ULE: r = Z3_mk_bvule(C, A(), B()); break;
  case O_SLT: r = Z3_mk_bvslt(C, A(), B()); break;
  case O_SLE: r = Z3_mk_bvsle(C, A(), B()); break;
  case O_ITE: r = Z3_mk_ite(C, tr(e->a), tr(e->b), tr(e->c)); break;
  case O_UMULO: r = Z3_mk_not(C, Z3_mk_bvmul_no_overflow(C, A(), B(), false)); break;
  case O_SMULO: { Z3_ast x[2] = {R(Z3_mk_bvmul_no_overflow(C, A(), B(), true)), R(Z3_mk_bvmul_no_underflow(C, A(), B()))}; r = Z3_mk_not(C, Z3_mk_and(C, 2, x)); break; }
  case O_FEQ: r = Z3_mk_fpa_eq(C, trF(e->a), trF(e->b)); break;
  case O_FLT: r = Z3_mk_fpa_lt(C, trF(e->a), trF(e->b)); break;
  case O_FLE: r = Z3_mk_fpa_leq(C, trF(e->a), trF(e->b)); break;
  case O_FUNO: { Z3_ast x[2] = {R(Z3_mk_fpa_is_nan(C, trF(e->a))), R(Z3_mk_fpa_is_nan(C, trF(e->b)))}; r = Z3_mk_or(C, 2, x); break; }
  case O_FPTOSI: r = Z3_mk_fpa_to_sbv(C, rm(RM_RTZ), trF(e->a), w); break;
  case O_FPTOUI: r = Z3_mk_fpa_to_ubv(C, rm(RM_RTZ), trF(e->a), w); break;
  default: abort();
  }
  if (w == 1) switch (e->op) { // operations that produced a 1-bit vector
    case O_ADD: case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_SHL: case O_LSHR: case O_ASHR: case O_EXTRACT: case O_FPTOSI: case O_FPTOUI:
      r = toBool1(R(r)); break;
    default: break; }
  memo = R(r);
  return r;
}

void PathCond::add(E e) {
  if (isC(e)) return;
  if (e->op == O_AND && e->w == 1) { add(e->a); add(e->b); return; }
  for (E x : cs) if (x == e) return;
  cs.push_back(e);
  if (e->syms->size() == 1) {
    uint32_t s = (*e->syms)[0];
    if (gSyms[s].w <= 8) {
      const Mask256 &m = truthMask(e);
      auto it = dom.find(s);
      if (it == dom.end()) { Mask256 f; unsigned n = 1u << gSyms[s].w; for (int i = 0; i < 4; ++i) f.w[i] = n >= 64u * (i + 1) ? ~0ull : (n > 64u * i ? (1ull << (n - 64 * i)) - 1 : 0); it = dom.emplace(s, f).first; }
      for (int i = 0; i < 4; ++i) it->second.w[i] &= m.w[i];
    }
  } else for (uint32_t s : *e->syms) if (gSyms[s].w <= 8) linked[s] = 1;
}

struct CKey { std::vector<uint32_t> ids; bool operator==(const CKey &o) const { return ids == o.ids; } };
struct CKeyH { size_t operator()(const CKey &k) const { size_t h = 1; for (auto x : k.ids) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); } return h; } };
struct CVal { SatR r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<CKey, CVal, CKeyH> gCache;

static std::vector<E> slice(const PathCond &pc, E q, std::vector<char> &inS) {
  inS.assign(gSyms.size(), 0);
  for (auto s : *q->syms) inS[s] = 1;
  std::vector<E> out; std::vector<char> taken(pc.cs.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < pc.cs.size(); ++i) if (!taken[i]) {
      bool hit = false; for (auto s : *pc.cs[i]->syms) if (inS[s]) { hit = true; break; }
      if (hit) { taken[i] = 1; out.push_back(pc.cs[i]); for (auto s : *pc.cs[i]->syms) if (!inS[s]) { inS[s] = 1; ch = true; } }
    }
  }
  return out;
}
static uint64_t bvVal(Z3_ast v) { uint64_t r = 0; if (!Z3_get_numeral_uint64(C, v, &r)) r = 0; return r; }

SatR checkSat(const PathCond &pc, E q, const Model &base, ModelP *out, bool forceZ3) {
  if (isC(q)) { if (q->aux) { if (out) *out = newModel(base.v); return S_SAT; } return S_UNSAT; }
  if (!forceZ3 && q->syms->size() == 1) {
    uint32_t s = (*q->syms)[0];
    if (gSyms[s].w <= 8) {
      const Mask256 &m = truthMask(q); auto it = pc.dom.find(s);
      uint64_t v = ~0ull;
      for (int i = 0; i < 4 && v == ~0ull; ++i) { uint64_t x = m.w[i] & (it == pc.dom.end() ? ~0ull : it->second.w[i]); if (x) v = 64 * i + __builtin_ctzll(x); }
      if (v == ~0ull) { gStats.fastMask++; return S_UNSAT; }
      if (!pc.linked.count(s)) {
        gStats.fastMask++;
        if (out) { auto nv = base.v; if (nv.size() <= s) nv.resize(s + 1); nv[s] = v; *out = newModel(std::move(nv)); }
        return S_SAT;
      }
    }
  }
  static std::vector<char> inS;
  std::vector<E> sl = slice(pc, q, inS);
  CKey key; for (E e : sl) key.ids.push_back(e->id);
  std::sort(key.ids.begin(), key.ids.end()); key.ids.push_back(q->id);
  auto fill = [&](const CVal &cv) {
    if (out && cv.r == S_SAT) { auto nv = base.v; for (auto &p : cv.m) { if (nv.size() <= p.first) nv.resize(p.first + 1); nv[p.first] = p.second; } *out = newModel(std::move(nv)); }
    return cv.r;
  };
  auto it = gCache.find(key);
  if (it != gCache.end()) { gStats.cacheHits++; return fill(it->second); }
  bool fp = q->fp; for (E e : sl) fp |= e->fp;
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver s = nullptr; Z3_lbool r = Z3_L_UNDEF, ra; bool ar = false;
  if (fp) { // comparisons exact, arithmetic abstracted: decides most queries
    static Z3_symbol lg = nullptr; if (!lg) lg = Z3_mk_string_symbol(C, "QF_BV"); ar = fpArith(q); for (E e : sl) ar |= fpArith(e);
    Z3_solver sa = Z3_mk_solver_for_logic(C, lg); Z3_solver_inc_ref(C, sa);
    { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ar ? 3000 : gZ3TimeoutMs); Z3_solver_set_params(C, sa, p); Z3_params_dec_ref(C, p); }
    gAbs = true; for (E e : sl) Z3_solver_assert(C, sa, tr(e)); Z3_solver_assert(C, sa, tr(q)); gAbs = false;
    ra = Z3_solver_check(C, sa);
    if (ra == Z3_L_TRUE && !ar) { s = sa; r = ra; } else Z3_solver_dec_ref(C, sa);
    if (ra == Z3_L_FALSE) { double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); gStats.z3Time += dt; gStats.z3Queries++; gStats.z3Unsat++; gStats.fpAbs++; CVal cv; cv.r = S_UNSAT; return fill(gCache.emplace(std::move(key), std::move(cv)).first->second); }
  }
  if (!s) {
  if (fp) { static Z3_tactic t = nullptr; if (!t) { t = Z3_mk_tactic(C, "qffpbv"); Z3_tactic_inc_ref(C, t); } s = Z3_mk_solver_from_tactic(C, t); gStats.fpQueries++; }
  else { static Z3_symbol lg = nullptr; if (!lg) lg = Z3_mk_string_symbol(C, "QF_BV"); s = Z3_mk_solver_for_logic(C, lg); }
  Z3_solver_inc_ref(C, s);
  { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), gZ3TimeoutMs); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "random_seed"), gSeed); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p); }
  for (E e : sl) Z3_solver_assert(C, s, tr(e));
  Z3_solver_assert(C, s, tr(q));
  r = Z3_solver_check(C, s);
  }
  CVal cv; cv.r = r == Z3_L_TRUE ? S_SAT : r == Z3_L_FALSE ? S_UNSAT : S_UNKNOWN;
  if (cv.r == S_SAT) {
    Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
    if (inS.size() < gSyms.size()) inS.resize(gSyms.size());
    for (uint32_t i = 0; i < gSyms.size(); ++i) if (inS[i] && i < gSymAst.size() && gSymAst[i]) {
      Z3_ast v = nullptr; if (Z3_model_eval(C, m, gSymAst[i], true, &v) && v) { Z3_inc_ref(C, v);
        uint64_t x = gSyms[i].w == 1 ? (Z3_get_bool_value(C, v) == Z3_L_TRUE) : bvVal(v); Z3_dec_ref(C, v); cv.m.push_back({i, x}); }
    }
    Z3_model_dec_ref(C, m);
  }
  Z3_solver_dec_ref(C, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gStats.z3Time += dt; gStats.z3Max = std::max(gStats.z3Max, dt);
  gStats.z3Queries++; (cv.r == S_SAT ? gStats.z3Sat : cv.r == S_UNSAT ? gStats.z3Unsat : gStats.z3Unknown)++;
  if (dt > 5 && getenv("VSYM_SLOW")) { fprintf(stderr, "slow query %.1fs r=%d %s\n", dt, cv.r, showE(q, 8).c_str()); }
  if (cv.r == S_SAT) { // the model must satisfy the query under our own evaluator
    auto nv = base.v; for (auto &p : cv.m) { if (nv.size() <= p.first) nv.resize(p.first + 1); nv[p.first] = p.second; }
    ModelP m = newModel(nv); bool ok = evalE(q, *m); for (E e : sl) ok = ok && evalE(e, *m);
    if (!ok) { fprintf(stderr, "vsym: z3 model rejected by evaluator: %s\n", showE(q, 10).c_str()); cv.r = S_UNKNOWN; gStats.z3Unknown++; }
  }
  return fill(gCache.emplace(std::move(key), std::move(cv)).first->second);
}
std::string smt2Of(const PathCond &pc, E q) {
  Z3_solver s = Z3_mk_solver(C); Z3_solver_inc_ref(C, s);
  for (E e : pc.cs) Z3_solver_assert(C, s, tr(e));
  Z3_solver_assert(C, s, tr(q));
  std::string r = Z3_solver_to_string(C, s); Z3_solver_dec_ref(C, s); return r;
}

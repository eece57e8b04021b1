#include "hx.h"
//@ bounds every int64 divisor and instance; every finite double instance below 2^63 in magnitude against every int64 divisor; every finite double stored with an integral divisor as a double
//@ bounds divisors 0.5, 0.25, 0.125, 0.1, 0.01, 1.5 with every instance k*divisor and (k+1/2)*divisor, |k| <= 1000 (12 in quick); larger doubles from a concrete list
//@ bounds divisors 0.5, 0.25, 0.0625 with every double instance below 10^6 in magnitude that is a multiple, or further than four units in the last place from one
//@ outside other fractional divisors and instances (the code's tolerance there is a matter of taste); integers outside the int64 range
static const char *KW(SchemaParser::Version v) { return v == D3 ? "divisibleBy" : "multipleOf"; }
static SchemaParser::Version ver() { uint64_t v = vs_choice("draft", 3); return v == 0 ? D7 : v == 1 ? D4 : D3; }
// 1: accepted, 0: rejected, 2: schema rejected
static int run(const J &div, const J &x, SchemaParser::Version v, Validator::TypeCheckingMode m = Validator::kStrongTypes) {
  Schema s; try { parseInto(s, jo({{KW(v), div}}), v); } catch (const std::exception &) { return 2; }
  return validates(s, x, m);
}
//@ entry ints shards=1 reach=yes,no,nonpositive cost=9
VS_ENTRY(ints) {
  int64_t d = (int64_t)vs_sym("d", 64), x = (int64_t)vs_sym("x", 64);
  int r = run(ji(d), ji(x), ver()); vs_observe("r", r);
  if (d <= 0) { vs_reach("nonpositive"); vs_assert(r == 2, "divisor that is not positive accepted"); return; }
  bool want = x % d == 0; vs_reach(want ? "yes" : "no"); vs_assert(r == want, "multiple");
}
//@ entry dblInst shards=2 reach=yes,no cost=9
VS_ENTRY(dblInst) { // double instance, integer divisor
  uint64_t c = vs_shard_choice("weak", 2);
  int64_t d = (int64_t)vs_sym("d", 64); double x = vs_double("x"); vs_assume(d > 0); vs_assume(isFin(x));
  vs_assume((x < 9223372036854775808.0) & (x >= -9223372036854775808.0));
  int r = run(ji(d), jd(x), ver(), c ? Validator::kWeakTypes : Validator::kStrongTypes); vs_observe("r", r);
  bool want = integral(x) && (int64_t)x % d == 0; vs_reach(want ? "yes" : "no"); vs_assert(r == want, "multiple");
}
//@ entry dblDiv shards=2 reach=yes,no cost=9
VS_ENTRY(dblDiv) { // integral divisor stored as a double
  double d = vs_double("d"); vs_assume(isFin(d) & integral(d) & (d < 9223372036854775808.0)); bool xi = vs_shard_choice("xint", 2);
  J x; bool want = false; 
  if (xi) x = ji((int64_t)vs_sym("x", 64)); else { double v = vs_double("x"); vs_assume(isFin(v) & (v < 9223372036854775808.0) & (v >= -9223372036854775808.0)); x = jd(v); }
  int r = run(jd(d), x, ver()); vs_observe("r", r);
  if (d <= 0) { vs_assert(r == 2, "divisor that is not positive accepted"); return; }
  int64_t di = (int64_t)d; want = xi ? x.i % di == 0 : integral(x.d) && (int64_t)x.d % di == 0;
  vs_reach(want ? "yes" : "no"); vs_assert(r == want, "multiple");
}
//@ entry nonpos shards=1
VS_ENTRY(nonpos) { // no divisor that is not positive is accepted, whatever its form
  double d = vs_double("d"); vs_assume(isFin(d) & (d <= 0)); int r = run(jd(d), ji(3), ver()); vs_observe("r", r); vs_assert(r == 2, "divisor that is not positive accepted");
}
//@ entry frac shards=8 reach=yes,no cost=5
VS_ENTRY(frac) {
  static const double D[] = {0.5, 0.25, 0.125, 0.1, 0.01, 1.5, 0.0001, 2.5}; uint64_t c = vs_shard_choice("div", 8);
#ifdef VS_THOROUGH
  const int N = 1000;
#else
  const int N = 12;
#endif
  int64_t k = (int64_t)vs_choice("k", 2 * N + 1) - N; uint64_t h = vs_choice("half", 2);
  double x = ((double)k + (h ? 0.5 : 0.0)) * D[c];
  int r = run(jd(D[c]), jd(x), ver()); vs_observe("r", r); vs_reach(h ? "no" : "yes"); vs_assert(r == !h, "fractional multiple");
}
//@ entry fracInt shards=2 reach=yes cost=5
VS_ENTRY(fracInt) { // a fractional divisor that is a power of two, every integer instance: exact in double arithmetic
  static const double D[] = {0.5, 0.25}; uint64_t c = vs_shard_choice("div", 2);
  int64_t x = (int64_t)vs_sym("x", 64); vs_assume((x < (1LL << 20)) & (x > -(1LL << 20)));
  int r = run(jd(D[c]), ji(x), ver()); vs_observe("r", r);
  bool want = true; vs_reach(want ? "yes" : "no"); vs_assert(r == want, "multiple");
}
//@ entry near shards=6 reach=yes,no cost=7
VS_ENTRY(near) { // divisors that are powers of two: every double instance more than a few units in the last place away from a multiple is rejected
  static const double D[] = {0.5, 0.25, 0.0625}; uint64_t c = vs_shard_choice("div", 3), big = vs_shard_choice("range", 2); double x = vs_double("x"), lim = big ? 1e6 : 4; vs_assume((x < lim) & (x > -lim)); int r = run(jd(D[c]), jd(x), D7); vs_observe("r", r);
  double q = x / D[c], n = __builtin_rint(q), off = q > n ? q - n : n - q, m = q < 0 ? -q : q; bool yes = off == 0, no = off > (m > 1 ? m : 1) * 8.881784197001252e-16; if (yes) { vs_reach("yes"); vs_assert(r == 1, "multiple"); } if (no) { vs_reach("no"); vs_assert(r == 0, "value next to a multiple accepted"); }
}
//@ entry big
VS_ENTRY(big) { // doubles outside int64
  static const double X[] = {9223372036854775808.0, -9223372036854775808.0, 18446744073709551616.0, -18446744073709551616.0, 1e300, 9223372036854775808.0 * 3, 1e22};
  static const int64_t D[] = {1, 2, 3, 5, 7, 1024};
  uint64_t a = vs_choice("x", 7), b = vs_choice("d", 6); int r = run(ji(D[b]), jd(X[a]), ver());
  bool want = __builtin_fmod(X[a], (double)D[b]) == 0; vs_observe("r", r); vs_assert(r == want, "multiple");
}
//@ entry others shards=4
VS_ENTRY(others) { // instances of other types are never rejected
  uint64_t kw = vs_shard_choice("div", 4), t = vs_choice("type", 6);
  J x = t == 0 ? jn() : t == 1 ? jb(vs_choice("bool", 2)) : t == 2 ? js(vs_bytes("s", vs_choice("len", 2))) : t == 3 ? ja({ji(1)}) : t == 4 ? jo({{"a", ji(1)}}) : js("5");
  int r = run(kw == 0 ? ji(2) : kw == 1 ? jd(0.5) : kw == 2 ? ji(3) : jd(0.3), x, ver()); vs_observe("ok", r); vs_assert(r == 1, "non-number rejected");
}

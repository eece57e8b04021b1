#include "hx.h"
//@ bounds every int64 and every finite double, for the bound and for the instance (all 64 bits symbolic)
//@ bounds the four keywords in Draft 7, maximum/minimum with absent/false/true exclusive flag in Drafts 3 and 4; one bound alone, or an upper and a lower bound together
//@ outside numbers outside the int64 range written as integers; weak typing (see V23); NaN and infinities (not JSON)
static J number(const char *n, uint64_t kind) { if (kind) { double d = vs_double(n); vs_assume(isFin(d)); return jd(d); } return ji((int64_t)vs_sym(n, 64)); }
static bool side(int kw, double x, double b) { return kw == 0 ? x >= b : kw == 1 ? x <= b : kw == 2 ? x > b : x < b; }
static const char *kws[] = {"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"};
//@ entry d7 shards=8 reach=in,out cost=9
VS_ENTRY(d7) {
  uint64_t c = vs_shard_choice("kw*kinds", 16), kw = c & 3, bk = c >> 2 & 1, xk = c >> 3;
  J b = number("bound", bk), x = number("x", xk);
  bool ok = accepts(jo({{kws[kw], b}}), x), want = side((int)kw, x.dbl(), b.dbl());
  vs_observe("ok", ok); vs_reach(want ? "in" : "out");
  vs_assert(ok == want, "bound");
}
//@ entry d34 shards=6 reach=in,out cost=9
VS_ENTRY(d34) {
  uint64_t c = vs_shard_choice("kw*excl", 6), mx = c & 1, ex = c >> 1; bool d4 = vs_choice("draft4", 2);
  uint64_t kk = vs_choice("kinds", 2); J b = number("bound", kk), x = number("x", kk ^ vs_choice("mixed", 2));
  J s = jo({{mx ? "maximum" : "minimum", b}}); if (ex) s.o.insert(s.o.begin() + vs_choice("pos", 2), {mx ? "exclusiveMaximum" : "exclusiveMinimum", jb(ex == 2)});
  bool ok = accepts(s, x, d4 ? D4 : D3), want = side((int)(mx + (ex == 2 ? 2 : 0)), x.dbl(), b.dbl());
  vs_observe("ok", ok); vs_reach(want ? "in" : "out");
  vs_assert(ok == want, "bound");
}
//@ entry pair shards=8 reach=in,out cost=9
VS_ENTRY(pair) { // a lower and an upper bound (and, in Draft 7, inclusive and exclusive bounds) are independent
  uint64_t c = vs_shard_choice("pair", 6); static const int A[] = {0, 0, 2, 2, 0, 1}, B[] = {1, 3, 1, 3, 2, 3};
  J a = jd(vs_double("a")), b = jd(vs_double("b")), x = jd(vs_double("x")); vs_assume(isFin(a.d) & isFin(b.d) & isFin(x.d));
  bool ok = accepts(jo({{kws[B[c]], b}, {kws[A[c]], a}}), x), want = side(A[c], x.d, a.d) & side(B[c], x.d, b.d);
  vs_observe("ok", ok); vs_reach(want ? "in" : "out");
  vs_assert(ok == want, "bounds");
}
//@ entry others shards=4
VS_ENTRY(others) { // instances of other types are never rejected
  uint64_t kw = vs_shard_choice("kw", 4), t = vs_choice("type", 5); J b = ji((int64_t)vs_sym("bound", 64));
  J x = t == 0 ? jn() : t == 1 ? jb(vs_choice("bool", 2)) : t == 2 ? js(vs_bytes("s", vs_choice("len", 3))) : t == 3 ? ja({ji(1)}) : jo({{"a", ji(1)}});
  bool ok = accepts(jo({{kws[kw], b}}), x); vs_observe("ok", ok); vs_assert(ok, "non-number rejected");
}

#include "hx.h"
#ifdef VS_THOROUGH
enum { LEN = 7, CNT = 6 };
#else
enum { LEN = 5, CNT = 4 };
#endif
//@ bounds every byte string of length <= 5 (thorough 7) that is valid UTF-8 (embedded NULs included); for other byte strings the two keywords are checked to agree on one count
//@ bounds arrays and objects of 0..4 (thorough 6) elements; every int64 bound; bounds stored as integral doubles; Drafts 3, 4 and 7
//@ bounds strings of up to 28 bytes with 4 (thorough 6) arbitrary bytes (whole characters) at every position from 0 to 15 in ASCII or two-byte text; strings of 255, 256 and 65536 characters, arrays and objects of 255 to 257 elements
//@ outside other long strings and containers; bounds above INT64_MAX
// strict UTF-8 (RFC 3629) decoder written for the check: the number of code points, or -1
static int cps(const std::string &s) {
  int n = 0; size_t i = 0;
  auto c = [&](size_t k, unsigned lo, unsigned hi) { return k < s.size() && ((uint8_t)s[k] >= lo) & ((uint8_t)s[k] <= hi); };
  while (i < s.size()) {
    unsigned b = (uint8_t)s[i]; ++n;
    if (b < 0x80) { i += 1; continue; }
    if ((b >= 0xC2) & (b <= 0xDF)) { if (!c(i + 1, 0x80, 0xBF)) return -1; i += 2; continue; }
    if ((b >= 0xE0) & (b <= 0xEF)) { if (!c(i + 1, b == 0xE0 ? 0xA0 : 0x80, b == 0xED ? 0x9F : 0xBF) || !c(i + 2, 0x80, 0xBF)) return -1; i += 3; continue; }
    if ((b >= 0xF0) & (b <= 0xF4)) { if (!c(i + 1, b == 0xF0 ? 0x90 : 0x80, b == 0xF4 ? 0x8F : 0xBF) || !c(i + 2, 0x80, 0xBF) || !c(i + 3, 0x80, 0xBF)) return -1; i += 4; continue; }
    return -1;
  }
  return n;
}
static SchemaParser::Version ver(uint64_t v) { return v == 0 ? D7 : v == 1 ? D4 : D3; }
//@ entry utf8 shards=8 reach=in,out,invalid,multi cost=9
VS_ENTRY(utf8) {
  uint64_t mx = vs_shard_choice("maxLength", 2), l = vs_shard_choice("len", LEN + 1); std::string s = vs_bytes("s", l);
  int n = cps(s); vs_observe("n", n);
  int64_t b = (int64_t)vs_sym("bound", 64); vs_assume(b >= 0);
  bool ok = accepts(jo({{mx ? "maxLength" : "minLength", ji(b)}}), js(s)); vs_observe("ok", ok);
  if (n < 0) { // not UTF-8: some count of at least one and at most one per byte
    vs_reach("invalid"); if (mx) { vs_assert(b < (int64_t)l || ok, "count exceeds the bytes"); vs_assert(b > 0 || !ok, "empty count"); } else { vs_assert(b <= (int64_t)l || !ok, "count exceeds the bytes"); vs_assert(b > 1 || ok, "empty count"); }
    return;
  }
  if (n < (int)l) vs_reach("multi");
  bool want = mx ? n <= b : n >= b; vs_reach(want ? "in" : "out"); vs_assert(ok == want, "length");
}
//@ entry window shards=16 reach=in,out,multi cost=8
VS_ENTRY(window) { // longer strings: four (thorough five) arbitrary bytes forming whole characters, anywhere in up to 24 bytes
  uint64_t pre = vs_shard_choice("pre", 16), post = vs_choice("post", 3) * 4, fill = vs_choice("fill", 2), l = LEN - 1; std::string w = vs_bytes("w", l); int n = cps(w); vs_assume(n >= 0); if (n < (int)l) vs_reach("multi");
  std::string s; int m = n; for (uint64_t i = 0; i < pre; ++i) { s += 'a'; ++m; } s += w; for (uint64_t i = 0; i < post; ++i) { if (fill) s += "\xc3\xa9"; else s += 'z'; ++m; }
  uint64_t mx = vs_choice("maxLength", 2); int64_t b = (int64_t)vs_sym("bound", 64); vs_assume(b >= 0); bool ok = accepts(jo({{mx ? "maxLength" : "minLength", ji(b)}}), js(s)); vs_observe("ok", ok); bool want = mx ? m <= b : m >= b; vs_reach(want ? "in" : "out"); vs_assert(ok == want, "length");
}
//@ entry large shards=18 reach=in,out cost=6
VS_ENTRY(large) { // sizes around 2^8 and 2^16
  static const char *K[] = {"minItems", "maxItems", "minProperties", "maxProperties", "minLength", "maxLength"}; uint64_t kw = vs_shard_choice("kw", 6), z = vs_shard_choice("size", 3); int64_t n = kw < 4 ? (int64_t)(255 + z) : z == 2 ? 65536 : (int64_t)(255 + z);
  int64_t b = (int64_t)vs_sym("bound", 64); vs_assume(b >= 0); J x = kw < 2 ? ja() : kw < 4 ? jo() : js(std::string()); for (int64_t i = 0; i < n; ++i) if (kw < 2) x.a.push_back(jn()); else if (kw < 4) { char nm[3] = {(char)('a' + i / 26), (char)('a' + i % 26), 0}; x.o.emplace_back(nm, jn()); } else x.s += i % 97 == 5 ? "\xe2\x82\xac" : "q";
  bool ok = accepts(jo({{K[kw], ji(b)}}), x); vs_observe("ok", ok); bool want = kw & 1 ? n <= b : n >= b; vs_reach(want ? "in" : "out"); vs_assert(ok == want, "count");
}
//@ entry counts shards=8 reach=in,out cost=3
VS_ENTRY(counts) { // arrays and objects
  static const char *K[] = {"minItems", "maxItems", "minProperties", "maxProperties"}; uint64_t kw = vs_shard_choice("kw", 4), n = vs_shard_choice("n", CNT + 1), dbl = vs_choice("double", 2);
  int64_t b = (int64_t)vs_sym("bound", 64); vs_assume(b >= 0); if (dbl) vs_assume(b < (1LL << 53));
  J x = kw < 2 ? ja() : jo(); for (uint64_t i = 0; i < n; ++i) if (kw < 2) x.a.push_back(i & 1 ? jn() : ji(1)); else x.o.emplace_back(std::string(1, (char)('a' + i)), jn());
  bool ok = accepts(jo({{K[kw], dbl ? jd((double)b) : ji(b)}}), x, ver(vs_choice("draft", 3))); vs_observe("ok", ok);
  bool want = kw & 1 ? (int64_t)n <= b : (int64_t)n >= b; vs_reach(want ? "in" : "out"); vs_assert(ok == want, "count");
}
//@ entry strings shards=3 reach=in,out cost=3
VS_ENTRY(strings) { // string lengths in every draft, both limits together, bound stored as double
  static const char *S[] = {"", "a", "\xc3\xa9", "\xe2\x82\xac!", "\xf0\x9f\x98\x80" "ab", "abcdef"}; static const int N[] = {0, 1, 1, 2, 3, 6};
  uint64_t i = vs_choice("s", 6), dr = vs_shard_choice("draft", 3); int64_t lo = (int64_t)vs_sym("lo", 64), hi = (int64_t)vs_sym("hi", 64); vs_assume((lo >= 0) & (hi >= 0) & (lo < (1LL << 53)) & (hi < (1LL << 53)));
  uint64_t dbl = vs_choice("double", 2);
  bool ok = accepts(jo({{"maxLength", dbl ? jd((double)hi) : ji(hi)}, {"minLength", dbl ? jd((double)lo) : ji(lo)}}), js(S[i]), ver(dr)); vs_observe("ok", ok);
  bool want = (N[i] >= lo) & (N[i] <= hi); vs_reach(want ? "in" : "out"); vs_assert(ok == want, "length");
}
//@ entry negative shards=6
VS_ENTRY(negative) { // a bound that is negative or not a number is not a schema
  static const char *K[] = {"minItems", "maxItems", "minProperties", "maxProperties", "minLength", "maxLength"}; uint64_t kw = vs_shard_choice("kw", 6);
  int64_t b = (int64_t)vs_sym("bound", 64); vs_assume(b < 0); bool p = parses(jo({{K[kw], ji(b)}}), ver(vs_choice("draft", 3))); vs_observe("p", p); vs_assert(!p, "negative bound accepted");
}
//@ entry others shards=6
VS_ENTRY(others) { // instances of other types are never rejected
  static const char *K[] = {"minItems", "maxItems", "minProperties", "maxProperties", "minLength", "maxLength"}; uint64_t kw = vs_shard_choice("kw", 6), t = vs_choice("type", 7);
  J x = t == 0 ? jn() : t == 1 ? jb(vs_choice("bool", 2)) : t == 2 ? ji((int64_t)vs_sym("i", 64)) : t == 3 ? jd(2.5) : t == 4 ? js("ab") : t == 5 ? ja({jn(), jn()}) : jo({{"a", jn()}, {"b", jn()}});
  vs_assume(!(kw < 2 ? t == 5 : kw < 4 ? t == 6 : t == 4));
  int64_t b = (int64_t)vs_sym("bound", 64); vs_assume(b >= 0); bool ok = accepts(jo({{K[kw], ji(b)}}), x); vs_observe("ok", ok); vs_assert(ok, "instance of another type rejected");
}

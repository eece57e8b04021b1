#include "large.h"
//@ bounds objects of 17, 65 and 260 members against as many properties, twenty patterns, and additionalProperties false or a schema, one member symbolic, absent or added
//@ entry large shards=18 reach=in,out cost=6
VS_ENTRY(large) {
  uint64_t n = LG_N[vs_shard_choice("size", 3)], k = vs_shard_choice("kind", 6), p = lgPos(n); J x, lim = lgInt("c"), val = lgInt("x"); JO pr, o, pa; for (uint64_t i = 0; i < n; ++i) { pr.push_back({lgName(i), jo({{"maximum", i == p ? lim : ji(0)}})}); o.push_back({lgName(i), i == p ? val : ji(-1)}); } if (k & 1) std::reverse(o.begin(), o.end()); J s;
  switch (k / 2) { case 0: s = jo({{"properties", jo(pr)}, {"additionalProperties", jb(false)}}); if (vs_choice("extra", 2)) o.insert(o.begin() + (long)(p / 2), {"extra", ji(-1)}); if (vs_choice("missing", 2)) o.erase(o.begin() + (long)(n / 3)); break;
  case 1: { uint64_t np = 20; for (uint64_t i = 0; i < np; ++i) { string t = "^name"; t += (char)('a' + i); pa.push_back({t, jo({{"maximum", i == p % 26 ? lim : ji(40000)}})}); } s = jo({{"patternProperties", jo(pa)}, {"additionalProperties", vs_choice("schema", 2) ? jo({{"maximum", ji(5)}}) : vs_choice("false", 2) ? jb(false) : jb(true)}}); break; }
  default: pr.erase(pr.begin() + (long)p); s = jo({{"properties", jo(pr)}, {"additionalProperties", jo({{"maximum", lim}})}}); break; }
  lgCheck(s, jo(o));
}

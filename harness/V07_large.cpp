#include "large.h"
//@ bounds allOf, anyOf and oneOf of 17, 65 and 260 subschemas, of which one or all but one accept, and combinators nested to depth 17, 65 and 130
//@ entry large shards=15 reach=in,out cost=4
VS_ENTRY(large) {
  uint64_t z = vs_shard_choice("size", 3), n = LG_N[z], k = vs_shard_choice("kind", 5), p = k == 4 ? 0 : lgPos(n); J x = lgInt("x"), c = lgInt("c"), s; JV v; switch (k) {
  case 0: for (uint64_t i = 0; i < n; ++i) v.push_back(jo({{"minimum", i == p ? c : ji(-40000)}})); s = jo({{"allOf", ja(v)}}); break;
  case 1: for (uint64_t i = 0; i < n; ++i) v.push_back(jo({{"maximum", i == p ? c : ji(-40000)}})); s = jo({{"anyOf", ja(v)}}); break;
  case 2: for (uint64_t i = 0; i < n; ++i) v.push_back(jo({{"maximum", i == p ? c : ji(-40000)}})); v[(p + 3) % n] = jo({{"minimum", ji(100)}}); s = jo({{"oneOf", ja(v)}}); break;
  case 3: { uint64_t m = vs_choice("accepting", 5); uint64_t cnt = m == 0 ? 0 : m == 1 ? 1 : m == 2 ? 2 : m == 3 ? n - 3 : n - 4 + 1; if (n == 260) cnt = m == 0 ? 0 : m == 1 ? 1 : m == 2 ? 2 : m == 3 ? 256 : 257; for (uint64_t i = 0; i < n; ++i) v.push_back(i < cnt ? jo({{"type", js("integer")}}) : jo({{"type", js("string")}})); s = jo({{vs_choice("any", 2) ? "anyOf" : "oneOf", ja(v)}}); break; }
  default: { uint64_t dep = z == 2 ? 130 : n, how = vs_choice("how", 3); s = jo({{"maximum", c}}); for (uint64_t i = 0; i < dep; ++i) s = how == 0 ? jo({{"not", s}}) : how == 1 ? jo({{i & 1 ? "allOf" : "anyOf", ja({s})}}) : jo({{"oneOf", ja({jb(false), s})}}); break; } }
  lgCheck(s, x);
}

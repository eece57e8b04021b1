#include "large.h"
//@ bounds arrays of 17, 65 and 260 elements against items, lists of as many item schemas (one fewer, one more), additionalItems and contains, with a symbolic element and limit at the first, middle or last places
//@ entry large shards=15 reach=in,out cost=4
VS_ENTRY(large) {
  uint64_t n = LG_N[vs_shard_choice("size", 3)], k = vs_shard_choice("kind", 5), p = lgPos(n); J v = lgInt("x"), lim = lgInt("c"), s; JV a, it; for (uint64_t i = 0; i < n; ++i) { a.push_back(i == p ? v : ji(-40000)); it.push_back(jo({{"maximum", i == p ? lim : ji(0)}})); }
  switch (k) { case 0: s = jo({{"items", jo({{"maximum", lim}})}}); break; case 1: { uint64_t d = vs_choice("fewer", 3); if (d == 1) it.pop_back(); if (d == 2) a.pop_back(); s = jo({{"items", ja(it)}, {"additionalItems", jb(vs_choice("additional", 2))}}); break; }
  case 2: it.resize(vs_choice("listed", 2) ? n / 2 : 1); s = jo({{"items", ja(it)}, {"additionalItems", jo({{"maximum", lim}})}}); break; case 3: s = jo({{"contains", jo({{"minimum", lim}})}}); vs_assume(lim.i > -30000); break;
  default: s = jo({{"items", jo({{"items", jo({{"maximum", lim}})}})}}); a = JV(); for (uint64_t i = 0; i < n; ++i) a.push_back(ja(JV(i == p ? 3 : 1, i == p ? v : ji(-40000)))); break; }
  lgCheck(s, ja(a));
}

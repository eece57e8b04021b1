#include "large.h"
//@ bounds required lists, dependencies and objects of 17, 65 and 260 names, of which one, at the first, middle or last places, is absent or holds a symbolic value
//@ entry large shards=12 reach=in,out cost=3
VS_ENTRY(large) {
  uint64_t n = LG_N[vs_shard_choice("size", 3)], k = vs_shard_choice("kind", 4), p = lgPos(n); JV names; JO o; J v = lgInt("x"), lim = lgInt("c"); for (uint64_t i = 0; i < n; ++i) { names.push_back(js(lgName(i))); o.push_back({lgName(i), i == p ? v : ji(1)}); } J s; uint64_t miss = vs_choice("missing", 3); // 0: none, 1: the one at p, 2: the first
  switch (k) { case 0: s = jo({{"required", ja(names)}}); break; case 1: s = jo({{"dependencies", jo({{"trigger", ja(names)}})}}); if (vs_choice("trigger", 2)) o.push_back({"trigger", jn()}); break;
  case 2: { JO d; for (uint64_t i = 0; i < n; ++i) d.push_back({lgName(i), i == p ? jo({{"properties", jo({{lgName(p), jo({{"maximum", lim}})}})}}) : jo()}); d.push_back({"absent", jb(false)}); s = jo({{"dependencies", jo(d)}}); break; }
  default: { string longest = lgName(n - 1); s = jo({{"propertyNames", jo({{"maxLength", ji((int64_t)longest.size())}, {"pattern", js("^name")}})}}); if (miss == 2) o[p].first += "xxxx"; miss = miss == 1; break; } }
  if (miss == 1) o.erase(o.begin() + (long)p); else if (miss == 2) o.erase(o.begin()); lgCheck(s, jo(o));
}

#include "large.h"
//@ bounds lists, arrays and objects of 17, 65 and 260 values or members and strings of 17 to 260 bytes, with one symbolic 16-bit value or byte at the first, middle or last places
//@ entry large shards=15 reach=in,out cost=4
VS_ENTRY(large) {
  uint64_t n = LG_N[vs_shard_choice("size", 3)], k = vs_shard_choice("kind", 5), p = k == 0 ? 0 : lgPos(n); J s, x; switch (k) {
  case 0: { JV v; for (uint64_t i = 0; i < n; ++i) v.push_back(i == n / 3 ? js(lgName(i)) : ji((int64_t)i * 3)); s = jo({{"enum", ja(v)}}); x = vs_choice("str", 2) ? js(lgName(n / 3)) : lgInt("x"); vs_assume(x.k != J::Int || (x.i >= (int64_t)n * 3 - 12 && x.i <= (int64_t)n * 3)); if (x.k == J::Str) vs_reach("out"); break; }
  case 1: { JV v; for (uint64_t i = 0; i < n; ++i) v.push_back(ji((int64_t)i)); s = jo({{"const", ja(v)}}); v[p] = lgInt("x"); x = ja(v); break; }
  case 2: { JO o, q; for (uint64_t i = 0; i < n; ++i) { o.push_back({lgName(i), ji((int64_t)i)}); q.insert(q.begin(), o.back()); } s = jo({{"enum", ja({jo(o)})}}); for (auto &m : q) if (m.first == lgName(p)) m.second = lgInt("x"); x = jo(q); break; }
  case 3: { JO o; for (uint64_t i = 0; i < n; ++i) o.push_back({lgName(i), jn()}); s = jo({{"const", jo(o)}}); if (vs_choice("missing", 2)) o.erase(o.begin() + (long)p); if (vs_choice("extra", 2)) o.push_back({"extra", jn()}); x = jo(o); break; }
  default: { string a; for (uint64_t i = 0; i < n; ++i) a += (char)('a' + i % 26); s = jo({{"const", js(a)}}); a[p] = (char)vs_u8("c"); x = js(a); break; } }
  lgCheck(s, x);
}

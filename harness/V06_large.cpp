#include "large.h"
//@ bounds arrays of 17, 65 and 260 elements (integers, strings, arrays), of which one, at the first, middle or last places, is symbolic and may equal one of three others
//@ entry large shards=9 reach=in,out cost=6
VS_ENTRY(large) {
  uint64_t n = LG_N[vs_shard_choice("size", 3)], k = vs_shard_choice("kind", 3), p = lgPos(n); if (n == 260 && (p != n - 1 || k)) return; JV v; int64_t lo = vs_choice("near", 2) ? (int64_t)n - 6 : 1; for (uint64_t i = 0; i < n; ++i) { J e = ji((int64_t)i); if (i == p) { e = lgInt("x"); vs_assume(e.i >= -1 && (e.i < 0 || (e.i >= lo && e.i < lo + 3) || e.i == (int64_t)p)); } if (k == 1) { string t = "s"; t += (char)(e.i & 127); t += (char)((e.i >> 7) & 127); e = js(t); } if (k == 2) e = ja({e, js("x")}); v.push_back(e); }
  lgCheck(P("{'uniqueItems':true}"), ja(v));
}

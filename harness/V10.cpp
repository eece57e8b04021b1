#include "ref.h"
#ifdef VS_THOROUGH
enum { N = 5 };
#else
enum { N = 4 };
#endif
//@ bounds arrays of 0 to 4 (thorough 5) symbolic elements against a single items schema, lists of 0 to 3 item schemas with additionalItems absent, true, false or a schema, and contains, in Drafts 3, 4 and 7, with and without a results object
//@ bounds items nested in items, in properties and in additionalItems; items, additionalItems and contains together; boolean items schemas
//@ outside longer arrays and lists
static SchemaParser::Version ver(uint64_t v) { return v == 0 ? D7 : v == 1 ? D4 : D3; }
static J el(const char *n, unsigned kinds = 3) { std::string t(n); switch (vs_choice((t + "k").c_str(), kinds)) { case 0: return ji((int64_t)vs_sym(n, 8)); case 1: return js("s"); default: return jn(); } }
static J sub(const char *n, unsigned kinds, bool d7) { std::string t(n); switch (vs_choice((t + "k").c_str(), kinds)) { case 0: return jo({{"enum", ja({ji((int64_t)vs_sym(n, 8)), js("s")})}}); case 1: return P("{'type':'integer'}"); case 2: return jo(); case 3: return d7 ? jb(false) : P("{'enum':[]}"); default: return d7 ? jb(true) : jo(); } }
static void check(const J &s, const J &x, SchemaParser::Version v = D7) { bool w = want(s, x, v), ok = verdict(s, x, v); vs_observe("ok", ok); vs_reach(w ? "in" : "out"); vs_assert(ok == w, "elements"); }
static const char *E[] = {"a", "b", "c", "d", "e"};
static J arr(uint64_t n, unsigned kinds = 3) { J x = ja(); for (uint64_t i = 0; i < n; ++i) x.a.push_back(el(E[i], i < 2 ? kinds : 1 + (i == 2))); return x; }
static void addl(J &s, uint64_t k, bool d7) { if (k == 1) s.o.emplace_back("additionalItems", jb(true)); if (k == 2) s.o.emplace_back("additionalItems", jb(false)); if (k == 3) s.o.emplace_back("additionalItems", sub("ai", 2, d7)); }
//@ entry single shards=15 reach=in,out cost=2
VS_ENTRY(single) { uint64_t dr = vs_shard_choice("draft", 3), n = vs_shard_choice("n", N + 1); J s = jo({{"items", sub("s", 5, !dr)}}); addl(s, vs_choice("ai", 4), !dr); check(s, arr(n), ver(dr)); }
//@ entry list shards=80 reach=in,out cost=6
VS_ENTRY(list) {
  uint64_t m = vs_shard_choice("m", 4), n = vs_shard_choice("n", N + 1), ai = vs_shard_choice("ai", 4), dr = vs_choice("draft", 3); J l = ja(); static const char *S[] = {"p", "q", "r"};
  for (uint64_t i = 0; i < m; ++i) l.a.push_back(sub(S[i], i == 0 ? 4 : i == 1 ? 2 : 1, !dr)); J s = jo({{"items", l}}); addl(s, ai, !dr); check(s, arr(n, 2), ver(dr));
}
//@ entry alone reach=in
VS_ENTRY(alone) { uint64_t dr = vs_choice("draft", 3); J s = jo(); addl(s, 1 + vs_choice("ai", 3), !dr); check(s, arr(vs_choice("n", 3)), ver(dr)); } // additionalItems without items
//@ entry contains shards=10 reach=in,out cost=2
VS_ENTRY(contains) { uint64_t n = vs_shard_choice("n", N + 1); J s = jo({{"contains", sub("s", 5, true)}}); if (vs_shard_choice("also", 2)) { s.o.emplace_back("items", P("{'type':['integer','string']}")); } check(s, arr(n)); }
//@ entry nested shards=24 reach=in,out cost=4
VS_ENTRY(nested) {
  uint64_t w = vs_shard_choice("where", 8), dr = vs_shard_choice("draft", 3); J s, x; bool d7 = !dr;
  switch (w) {
  case 0: s = jo({{"items", jo({{"items", sub("p", 4, d7)}})}}); x = ja({arr(2), ja(), el("d")}); break;
  case 1: s = jo({{"items", ja({jo({{"items", ja({sub("p", 2, d7)})}, {"additionalItems", jb(false)}})})}, {"additionalItems", jo({{"items", sub("q", 2, d7)}})}}); x = ja({arr(vs_choice("n1", 3), 2), ja({el("d", 2)})}); break;
  case 2: s = jo({{"properties", jo({{"k", jo({{"items", ja({sub("p", 3, d7), sub("q", 2, d7)})}})}})}}); x = jo({{"k", arr(vs_choice("n", 4), 2)}}); break;
  case 3: s = jo({{"items", jo({{"properties", jo({{"k", sub("p", 3, d7)}})}})}}); x = ja({jo({{"k", el("a")}}), jo({{"z", el("b")}}), jo({{"k", el("c")}})}); break;
  case 4: s = jo({{"additionalProperties", jo({{"items", sub("p", 3, d7)}, {"additionalItems", jb(false)}})}}); x = jo({{"m", arr(2)}, {"n", el("c")}}); break;
  case 5: s = jo({{"items", ja({sub("p", 3, d7), sub("q", 2, d7)})}, {"additionalItems", sub("r", 2, d7)}, {"uniqueItems", jb(true)}, {"maxItems", ji(3)}}); x = arr(vs_choice("n", 5), 2); break;
  case 6: if (!d7) return; s = jo({{"contains", jo({{"contains", sub("p", 2, d7)}})}}); x = ja({arr(vs_choice("n1", 3)), ja({el("c")}), el("d")}); break;
  default: if (!d7) return; s = jo({{"contains", sub("p", 2, d7)}, {"items", ja({sub("q", 2, d7)})}, {"additionalItems", sub("r", 2, d7)}}); x = arr(vs_choice("n", 4), 2); break;
  }
  check(s, x, ver(dr));
}
//@ entry others reach=in
VS_ENTRY(others) { uint64_t t = vs_choice("type", 7), dr = vs_choice("draft", 3), f = vs_choice("form", 3); J x = t == 0 ? jn() : t == 1 ? jb(true) : t == 2 ? ji((int64_t)vs_sym("x", 64)) : t == 3 ? jd(1.5) : t == 4 ? js("a") : t == 5 ? js("") : jo({{"0", ji(1)}});
  if (f == 2 && dr) return; check(f == 0 ? P("{'items':{'enum':[]}}") : f == 1 ? P("{'items':[{'enum':[]}],'additionalItems':false}") : P("{'contains':false}"), x, ver(dr)); }

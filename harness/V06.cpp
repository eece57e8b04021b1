#include "deep.h"
#ifdef VS_THOROUGH
enum { N = 5 };
#else
enum { N = 4 };
#endif
//@ bounds arrays of 0 to 4 (thorough 5) elements, each null, a boolean, any int64, any finite double or any string of up to 2 bytes (or all arrays/objects of one int64 each); of different kinds in arrays of two, and in arrays of up to four with the double 1.0 for doubles and 8-bit integers;, with and without a results object
//@ bounds two- and three-element arrays of nested values: every pair of 18 shapes with symbolic leaves; Drafts 3, 4 and 7
//@ outside longer arrays; an integer beyond 2^53 against a double that rounds to the same double; objects with two members of the same name
static bool uni(const J &x, bool res, SchemaParser::Version v = D7, bool on = true) {
  Schema s; parseInto(s, jo({{"uniqueItems", jb(on)}}), v); ValidationResults r; bool ok = validates(s, x, Validator::kStrongTypes, res ? &r : nullptr); return ok;
}
static int distinct(const J &x) { int r = 1; for (size_t i = 0; i < x.a.size(); ++i) for (size_t j = 0; j < i; ++j) { int e = eq(x.a[j], x.a[i]); if (e == 1) return 0; if (e == 2) r = 2; } return r; }
//@ entry same shards=16 reach=uniq,dup cost=4
VS_ENTRY(same) { // elements of one kind
  uint64_t n = vs_shard_choice("n", N + 1), k = vs_shard_choice("kind", 7); J x = ja();
  for (uint64_t i = 0; i < n; ++i) { char nm[3] = {'e', (char)('0' + i), 0}; J v = k < 5 ? scalar(k, nm, 2) : k == 5 ? ja({ji((int64_t)vs_sym(nm, 64))}) : jo({{i & 1 ? "b" : "a", ji((int64_t)vs_sym(nm, 64))}}); x.a.push_back(v); }
  bool ok = uni(x, vs_choice("results", 2)); vs_observe("ok", ok); int d = distinct(x); vs_reach(d ? "uniq" : "dup"); vs_assert(ok == (d == 1), "uniqueItems");
}
//@ entry mixed shards=15 reach=uniq,dup cost=9
VS_ENTRY(mixed) { // elements of different kinds
  uint64_t n = 2 + vs_shard_choice("n", 3); J x = ja();
  for (uint64_t i = 0; i < n; ++i) { char nm[3] = {'e', (char)('0' + i), 0}; char c[3] = {'k', (char)('0' + i), 0}; uint64_t k = i == 0 ? vs_shard_choice(c, 5) : vs_choice(c, n == 4 ? 4 : 5); x.a.push_back(n == 2 ? scalar(k, nm, 1) : k == 3 ? jd(1.0) : k == 2 ? ji((int8_t)vs_sym(nm, 8)) : scalar(n == 4 && i && k == 0 ? 4 : k, nm, n == 4 ? 0 : 1)); }
  bool ok = uni(x, vs_choice("results", 2)); vs_observe("ok", ok); int d = distinct(x); if (d == 2) return; vs_reach(d ? "uniq" : "dup"); vs_assert(ok == (d == 1), "uniqueItems");
}
//@ entry nested shards=36 reach=uniq,dup cost=9
VS_ENTRY(nested) {
  uint64_t sa = vs_shard_choice("sa", 18), sb = vs_choice("sb", 18), f = vs_shard_choice("filler", 3); J a = shape(sa, "a", true), b = shape(sb, "b", true), z = P("[[[]]]");
  J x = f == 0 ? ja({a, b}) : f == 1 ? ja({a, z, b}) : ja({z, a, b});
  bool ok = uni(x, false); vs_observe("ok", ok); int d = distinct(x); vs_reach(d ? "uniq" : "dup"); vs_assert(ok == (d == 1), "uniqueItems");
}
//@ entry off reach=dup
VS_ENTRY(off) { // uniqueItems false; other drafts; instances of other types
  uint64_t on = vs_choice("on", 2), dr = vs_choice("draft", 3), t = vs_choice("type", 8); int64_t i = (int64_t)vs_sym("i", 64);
  J x = t == 0 ? jn() : t == 1 ? jb(vs_choice("bool", 2)) : t == 2 ? ji(i) : t == 3 ? jd(2.5) : t == 4 ? js("aa") : t == 5 ? jo({{"a", ji(1)}, {"b", ji(1)}}) : t == 6 ? ja({ji(i), ji(i)}) : ja({ji(i), js("x"), ji(i)});
  bool ok = uni(x, vs_choice("results", 2), dr == 0 ? D7 : dr == 1 ? D4 : D3, on); vs_observe("ok", ok); bool want = t < 6 || !on; if (!want) vs_reach("dup"); vs_assert(ok == want, "uniqueItems");
}

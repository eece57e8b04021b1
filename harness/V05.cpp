#include "deep.h"
#ifdef VS_THOROUGH
enum { SL = 4, NL = 3 };
#else
enum { SL = 3, NL = 2 };
#endif
//@ bounds scalars: null, booleans, every int64, every finite double, every byte string of up to 3 (thorough 4) bytes, on both sides, as const, one-element enum and enum of two
//@ bounds nested values: every pair of 17 shapes of arrays and objects up to depth 3 and 3 elements, with leaves ranging over null, booleans, every int64, 1-byte strings, and member names over every byte string of up to 2 (thorough 3) bytes
//@ bounds enum lists of 0 to 4 values; Drafts 3, 4 and 7 for enum
//@ outside objects with two members of the same name; an integer beyond 2^53 against a double that rounds to the same double but is not the same value; longer strings and deeper values
static J schema(uint64_t f, const J &v) { // const, enum [v], enum [x, v], enum [v, x] with an x equal to none of the instances used
  J x = P("{'other':[[[]]]}");
  return f == 0 ? jo({{"const", v}}) : jo({{"enum", f == 1 ? ja({v}) : f == 2 ? ja({x, v}) : ja({v, x})}});
}
//@ entry scalars shards=25 reach=eq,ne cost=6
VS_ENTRY(scalars) {
  uint64_t ka = vs_shard_choice("ka", 5), kb = vs_shard_choice("kb", 5), f = vs_choice("form", 3); J a = scalar(ka, "a", SL), b = scalar(kb, "b", SL);
  int e = eq(a, b); if (e == 2) return;
  bool ok = accepts(schema(f, a), b); vs_observe("ok", ok); vs_reach(e ? "eq" : "ne"); vs_assert(ok == (e == 1), "deep equality");
}
//@ entry shapes shards=36 reach=eq,ne cost=20
VS_ENTRY(shapes) {
  uint64_t sa = vs_shard_choice("sa", 18), sb = vs_choice("sb", 18); J a = shape(sa, "a", false), b = shape(sb, "b", true);
  bool ok = accepts(schema(vs_shard_choice("form", 2), a), b); vs_observe("ok", ok); int e = eq(a, b); vs_reach(e ? "eq" : "ne"); vs_assert(ok == (e == 1), "deep equality");
}
//@ entry names shards=18 reach=eq,ne cost=6
VS_ENTRY(names) { // member names are compared as whole byte strings
  uint64_t l0 = vs_shard_choice("l0", NL + 1), l1 = vs_shard_choice("l1", NL + 1), l2 = vs_shard_choice("l2", NL + 1); std::string x = vs_bytes("x", l0), y = vs_bytes("y", l1), z = vs_bytes("z", l2); vs_assume(y != z);
  uint64_t n = vs_choice("two", 2); J a, b;
  if (n) { vs_assume(x != z); a = jo({{x, ji(1)}, {z, ji(2)}}); b = jo({{z, ji(2)}, {y, ji(1)}}); } else { a = jo({{x, ji(1)}}); b = jo({{y, ji(1)}}); }
  bool ok = accepts(schema(vs_choice("form", 2), a), b); vs_observe("ok", ok); bool e = x == y; vs_reach(e ? "eq" : "ne"); vs_assert(ok == e, "member names");
}
//@ entry lists shards=9 reach=eq,ne cost=4
VS_ENTRY(lists) { // any position of the list, any draft
  uint64_t n = vs_shard_choice("n", 4) + 1, dr = vs_shard_choice("draft", 3); J l = ja(), x; bool want = false; x = scalar(2 + 2 * vs_choice("kx", 2), "x", 1);
  for (uint64_t i = 0; i < n; ++i) { char nm[3] = {'l', (char)('0' + i), 0}; J v = i == 1 ? ja({ji((int64_t)vs_sym(nm, 64))}) : i == 2 ? js(vs_bytes(nm, 1)) : ji((int64_t)vs_sym(nm, 64)); want |= eq(v, x) == 1; l.a.push_back(v); }
  bool ok = accepts(jo({{"enum", l}}), x, dr == 0 ? D7 : dr == 1 ? D4 : D3); vs_observe("ok", ok); vs_reach(want ? "eq" : "ne"); vs_assert(ok == want, "enum list");
}
//@ entry conj reach=eq,ne
VS_ENTRY(conj) { // const and enum together, nested in properties
  int64_t a = (int64_t)vs_sym("a", 64), b = (int64_t)vs_sym("b", 64), c = (int64_t)vs_sym("c", 64), x = (int64_t)vs_sym("x", 64);
  bool ok = accepts(P("{'properties':{'p':{'enum':[$0,$1],'const':$2}}}", {ji(a), ji(b), ji(c)}), jo({{"p", ji(x)}})); vs_observe("ok", ok); bool want = ((x == a) | (x == b)) & (x == c); vs_reach(want ? "eq" : "ne"); vs_assert(ok == want, "conjunction");
}

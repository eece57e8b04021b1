#include "gen.h"
//@ bounds every allOf, anyOf, oneOf of 1 to 3 subschemas, not, and if with any of then and else, over leaves of 8 kinds with symbolic 16-bit constants; Draft 3 extends as object and list; Drafts 3, 4 and 7
//@ bounds the same combinators nested in one another to depth 2 with one to three operands, and under not, items and properties; pairs of combinators side by side with type; every 16-bit integer, strings and other instances; with and without a results object
//@ bounds the 83 schema templates of gen.h (every keyword, all drafts, up to 8 instances each with symbolic 8-bit leaves, arrays of up to 7 items, objects of up to 5 members) in each of 21 contexts, against the reference validator, with and without a results object
//@ outside Draft 3 disallow, which the library does not implement; deeper nesting and longer lists
static SchemaParser::Version ver(uint64_t v) { return v == 0 ? D7 : v == 1 ? D4 : D3; }
static J leafS(const char *n, unsigned kinds, bool d7) { // a schema whose verdict on the instance is an independent unknown
  std::string t(n);
  switch (vs_choice((t + "k").c_str(), kinds)) {
  case 0: return jo({{"enum", ja({ji((int64_t)vs_sym(n, 16)), js("s")})}});
  case 1: return d7 ? jb(true) : jo(); case 2: return d7 ? jb(false) : P("{'enum':[]}"); case 3: return jo({{"const", ji((int64_t)vs_sym(n, 16))}});
  case 4: return P("{'type':'string'}"); case 5: return jo(); case 6: return P("{'not':{}}"); default: return P("{'type':['integer','null'],'enum':[null,$0]}", {ji((int64_t)vs_sym(n, 16))});
  }
}
static J inst() { switch (vs_choice("inst", 4)) { case 0: return ji((int64_t)vs_sym("x", 16)); case 1: return js("s"); case 2: return jn(); default: return jo(); } }
static const char *C[] = {"allOf", "anyOf", "oneOf"};
static void check(const J &s, const J &x, SchemaParser::Version v = D7) { bool w = want(s, x, v), ok = verdict(s, x, v); vs_observe("ok", ok); vs_reach(w ? "in" : "out"); vs_assert(ok == w, "combinator"); }
//@ entry lists shards=54 reach=in,out cost=6
VS_ENTRY(lists) {
  uint64_t c = vs_shard_choice("comb", 3), n = 1 + vs_shard_choice("n", 3), dr = vs_shard_choice("draft", 3); J l = ja(); static const char *N[] = {"p", "q", "r"};
  for (uint64_t i = 0; i < n; ++i) l.a.push_back(leafS(N[i], i == 0 ? 8 : i == 1 ? (n == 2 ? 8 : 3) : 1, !dr)); check(jo({{C[c], l}}), inst(), ver(dr));
}
//@ entry notif shards=12 reach=in,out cost=6
VS_ENTRY(notif) {
  uint64_t f = vs_shard_choice("form", 4); J s = jo(); if (vs_shard_choice("not", 2)) { s.o.emplace_back("not", leafS("p", 8, true)); check(s, inst()); return; }
  s.o.emplace_back("if", leafS("p", 8, true)); if (f & 1) s.o.emplace_back("then", leafS("q", 5, true)); if (f & 2) s.o.emplace_back("else", leafS("r", 5, true)); check(s, inst());
}
//@ entry not34 reach=in,out
VS_ENTRY(not34) { check(jo({{"not", leafS("p", 8, false)}}), inst(), ver(1 + vs_choice("draft", 2))); }
//@ entry dangling reach=in
VS_ENTRY(dangling) { J s = jo(); if (vs_choice("t", 2)) s.o.emplace_back("then", jb(false)); if (vs_choice("e", 2)) s.o.emplace_back("else", jb(false)); check(s, inst()); } // then and else without if have no effect
//@ entry extends3 shards=4 reach=in,out cost=2
VS_ENTRY(extends3) {
  uint64_t n = vs_shard_choice("n", 4); J e; if (!n) e = leafS("p", 8, false); else { e = ja(); static const char *N[] = {"p", "q", "r"}; for (uint64_t i = 0; i < n; ++i) e.a.push_back(leafS(N[i], i == 0 ? 8 : i == 1 ? 4 : 1, false)); }
  if (vs_choice("sib", 2)) check(P("{'extends':$0,'type':'integer'}", {e}), inst(), D3); else check(jo({{"extends", e}}), inst(), D3);
}
//@ entry nested shards=84 reach=in,out cost=20
VS_ENTRY(nested) { // combinator of (combinator, leaf [, combinator])
  uint64_t c = vs_shard_choice("outer", 6), d = vs_shard_choice("inner", 7), third = vs_shard_choice("third", 2);
  auto inner = [&](uint64_t k, const char *a, const char *b) {
    unsigned ka = third ? 1 : 3, kb = third ? 1 : 2;
    if (k < 3) return jo({{C[k], ja({leafS(a, ka, true), leafS(b, kb, true)})}}); if (k == 3) return jo({{"not", leafS(a, ka, true)}}); if (k == 4) return jo({{"if", leafS(a, ka, true)}, {"then", leafS(b, kb, true)}});
    if (k == 5) return jo({{"if", leafS(a, ka, true)}, {"else", leafS(b, kb, true)}}); return jo({{"not", jo({{"anyOf", ja({leafS(a, ka, true), leafS(b, kb, true)})}})}});
  };
  J in = inner(d, "p", "q"), lf = leafS("r", third ? 1 : 2, true), s;
  if (c < 3) { J l = vs_choice("order", 2) ? ja({in, lf}) : ja({lf, in}); if (third) l.a.push_back(inner((d + 1) % 7, "t", "u")); s = jo({{C[c], l}}); }
  else if (third) { s = c == 3 ? jo({{"items", in}}) : c == 4 ? jo({{"properties", jo({{"m", in}})}, {"additionalProperties", lf}}) : jo({{"additionalProperties", in}}); check(s, c == 3 ? ja({inst()}) : jo({{"m", inst()}, {"z", ji(7)}})); return; }
  else s = c == 3 ? jo({{"not", in}}) : c == 4 ? jo({{"if", in}, {"then", lf}, {"else", P("{'type':'integer'}")}}) : jo({{"if", lf}, {"then", in}, {"else", jo({{"not", in}})}});
  check(s, vs_choice("str", 2) ? js("s") : ji((int64_t)vs_sym("x", 16)));
}
//@ entry conj shards=49 reach=in,out cost=6
VS_ENTRY(conj) { // several keywords: the conjunction
  auto one = [&](uint64_t k, J &s, const char *a, const char *b) {
    if (k < 3) s.o.emplace_back(C[k], ja({leafS(a, 3, true), leafS(b, 1, true)})); else if (k == 3) s.o.emplace_back("not", leafS(a, 3, true));
    else if (k == 4) { s.o.emplace_back("if", leafS(a, 3, true)); s.o.emplace_back("then", leafS(b, 1, true)); s.o.emplace_back("else", P("{'type':'string'}")); } else if (k == 5) s.o.emplace_back("const", ji((int64_t)vs_sym(a, 16))); else s.o.emplace_back("type", js("integer"));
  };
  uint64_t a = vs_shard_choice("first", 7), b = vs_shard_choice("second", 7); J s = jo(); if (a == b) return; one(a, s, "p", "q"); one(b, s, "r", "t"); check(s, vs_choice("str", 2) ? js("s") : ji((int64_t)vs_sym("x", 16)));
}
//@ entry trivial reach=in,out
VS_ENTRY(trivial) { // boolean and empty schemas accept everything or nothing
  uint64_t k = vs_choice("schema", 3), t = vs_choice("type", 7); J x = t == 0 ? jn() : t == 1 ? jb(vs_choice("b", 2)) : t == 2 ? ji((int64_t)vs_sym("i", 64)) : t == 3 ? jd(vs_double("d")) : t == 4 ? js(vs_bytes("s", 2)) : t == 5 ? ja({jn()}) : jo({{"a", jn()}});
  if (t == 3) vs_assume(isFin(x.d)); if (k == 2) check(jo(), x, ver(vs_choice("draft", 3))); else check(jb(k), x);
}
//@ entry keywords shards=84 reach=in,out cost=9
VS_ENTRY(keywords) { // every keyword under every combinator and applicator
  uint64_t t = vs_shard_choice("tpl", NTPL), dr = vs_choice("draft", 3); if (strncmp(TPL[t].s, "{'format'", 9) == 0) return; Gen g; if (!tpl(g, t, dr)) return; uint64_t w = vs_choice("wrap", NWRAP);
#ifndef VS_THOROUGH
  if (dr == 1 && (w + t) % 4) return;
#endif
  if (!wrap(g, w)) return; check(g.s, g.x, g.v);
}

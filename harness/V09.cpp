#include "ref.h"
#ifdef VS_THOROUGH
enum { NL = 3 };
#else
enum { NL = 2 };
#endif
//@ bounds required lists of 0 to 3 names, dependencies on names (list, Draft 3 string) and on schemas, in objects of 0 to 3 members, all names over every byte string of up to 2 (thorough 3) bytes including NULs; Draft 3 required in properties, also below items and extends, and in patternProperties, where it has no effect
//@ bounds several required names, name dependencies and schema dependencies together (6 schemas, all drafts) against objects with every subset of five members, in both orders, with symbolic 8-bit values and limits
//@ bounds propertyNames with 16 kinds of subschema, at the root and nested in properties, items, allOf, not, additionalProperties and propertyNames' own siblings, with symbolic names of up to 2 bytes and names that look like numbers; self-referring schemas with propertyNames
//@ outside objects with two members of the same name; longer names; a Draft 3 dependency on the empty name given as a string; a Draft 3 required inside a referenced schema (see V11)
static SchemaParser::Version ver(uint64_t v) { return v == 0 ? D7 : v == 1 ? D4 : D3; }
static std::string nm(const char *n, bool sh = false) { std::string t(n); return vs_bytes(n, sh ? vs_shard_choice((t + "len").c_str(), NL + 1) : vs_choice((t + "len").c_str(), NL + 1)); }
static void check(const J &s, const J &x, SchemaParser::Version v = D7) { bool w = want(s, x, v), ok = verdict(s, x, v); vs_observe("ok", ok); vs_reach(w ? "in" : "out"); vs_assert(ok == w, "names"); }
static J obj2() { J x = jo(); uint64_t m = vs_choice("members", 3); if (m) { std::string a = nm("a"); x.o.emplace_back(a, jn()); if (m == 2) { std::string b = nm("b"); vs_assume(a != b); x.o.emplace_back(b, ji(1)); } } return x; }
//@ entry required shards=12 reach=in,out cost=3
VS_ENTRY(required) {
  uint64_t dr = vs_shard_choice("draft", 2), n = vs_shard_choice("n", 3); J l = ja(); if (dr == 1 && n == 0) n = 3;
  std::string p; if (n) { p = nm("p", true); l.a.push_back(js(p)); } if (n >= 2) { std::string q = vs_bytes("q", vs_choice("ql", 2)); vs_assume(q != p); l.a.push_back(js(q)); } if (n == 3) l.a.push_back(js("zz"));
  J x = obj2(); if (n == 3 && vs_choice("zz", 2)) { for (auto &m : x.o) vs_assume(m.first != "zz"); x.o.emplace_back("zz", jb(false)); } check(jo({{"required", l}}), x, ver(dr));
}
//@ entry required3 shards=6 reach=in,out cost=2
VS_ENTRY(required3) { // Draft 3: marked in the property
  uint64_t f = vs_shard_choice("form", 6); std::string p = nm("p"); J rq = jb(vs_choice("req", 2)); J x = obj2(), s;
  if (f == 0) s = jo({{"properties", jo({{p, jo({{"required", rq}})}})}}); else if (f == 1) { vs_assume(p != "k"); s = jo({{"properties", jo({{p, jo({{"required", rq}, {"type", js("any")}})}, {"k", P("{'required':true,'type':'null'}")}})}}); }
  else if (f == 2) { s = jo({{"properties", jo({{"k", jo({{"properties", jo({{p, jo({{"required", rq}})}})}})}})}}); x = jo({{"k", x}}); if (vs_choice("none", 2)) x = jo(); }
  else if (f == 4) s = jo({{"patternProperties", jo({{"^a", jo({{"required", rq}, {"type", js("null")}})}})}, {"properties", jo({{p, jo({{"required", jb(true)}})}})}}); // a pattern names no property that could be required
  else if (f == 5) s = jo({{"extends", jo({{"patternProperties", jo({{"b", jo({{"required", rq}, {"properties", jo({{"k", P("{'required':true}")}})}})}})}})}, {"properties", jo({{p, jo({{"required", rq}})}})}});
  else { s = jo({{"items", jo({{"properties", jo({{p, jo({{"required", rq}, {"minimum", ji(0)}})}})}})}}); x = ja({x, jo({{p, ji((int64_t)vs_sym("v", 8))}})}); }
  check(s, x, D3);
}
//@ entry deps shards=27 reach=in,out cost=4
VS_ENTRY(deps) { // dependencies on names
  std::string p = nm("p", true), q = nm("q", true), r = vs_bytes("r", 1); uint64_t f = vs_shard_choice("form", 3), dr = vs_choice("draft", 3); if (f == 1 && q.empty()) return; J d = f == 0 ? ja({js(q)}) : f == 1 ? js(q) : ja({js(q), js(r)}); if (f == 1) dr = 2; if (f == 2) vs_assume(q != r);
  J s = jo({{"dependencies", jo({{p, d}})}}), x = obj2(); if (f == 2) { for (auto &m : x.o) vs_assume(m.first != r); if (vs_choice("rin", 2)) x.o.emplace_back(r, jn()); } check(s, x, ver(dr));
}
//@ entry depschema shards=18 reach=in,out cost=4
VS_ENTRY(depschema) { // dependencies on schemas, several at once
  uint64_t k = vs_shard_choice("kind", 6), dr = vs_shard_choice("draft", 3); std::string p = vs_bytes("p", vs_choice("plen", 2)); vs_assume(p != "k"); J sub = k == 0 ? P("{'minProperties':2}") : k == 1 ? P("{'properties':{'k':{'type':'integer'}}}") : k == 2 ? jo() : k == 3 ? P("{'dependencies':{'k':['m']}}") : k == 4 ? P("{'maxProperties':1}") : P("{'type':'array'}");
  if (!dr && k == 5) sub = jb(false); J s = jo({{"dependencies", vs_choice("also", 2) ? jo({{p, sub}, {"k", P("['m']")}}) : jo({{p, sub}})}});
  J x = obj2(); for (auto &m : x.o) vs_assume(m.first != "k" && m.first != "m"); uint64_t e = vs_choice("extra", 4); if (e & 1) x.o.emplace_back("k", vs_choice("kv", 2) ? ji(3) : js("s")); if (e & 2) x.o.emplace_back("m", jn()); check(s, x, ver(dr));
}

static J nameSchema(uint64_t k) {
  switch (k) {
  case 0: return P("{'maxLength':$0}", {ji((int64_t)vs_sym("b", 8))}); case 1: return P("{'minLength':$0}", {ji((int64_t)vs_sym("b", 8))}); case 2: return P("{'pattern':'^[a-m]'}"); case 3: return P("{'enum':['a',1,'1',null,'\\0']}"); case 4: return P("{'const':$0}", {js(vs_bytes("c", vs_choice("cl", 3)))});
  case 5: return P("{'type':'string'}"); case 6: return P("{'type':['integer','number','boolean','null','array','object']}"); case 7: return P("{'not':{'const':'a'}}"); case 8: return jb(true); case 9: return jb(false); case 10: return P("{'anyOf':[{'enum':['1']},{'minLength':2}]}");
  case 11: return P("{'minimum':5,'maximum':1,'multipleOf':7,'exclusiveMinimum':9}"); case 12: return P("{'minItems':9,'required':['q'],'minProperties':9,'items':false,'contains':false,'propertyNames':false,'properties':{'a':false},'uniqueItems':true,'additionalProperties':false,'dependencies':{'a':['q']}}");
  case 13: return P("{'if':{'pattern':'b'},'then':{'maxLength':1},'else':{'enum':['','a']}}"); case 14: return P("{'oneOf':[{'pattern':'a'},{'pattern':'b'}]}"); default: return P("{'allOf':[{'type':'string'},{'enum':[1,true,1.5,[],{}]}]}");
  }
}
//@ entry names shards=32 reach=in,out cost=6
VS_ENTRY(names) {
  uint64_t k = vs_shard_choice("kind", 16), m = vs_shard_choice("two", 2); J x; uint64_t c = vs_choice("name", 4); static const char *L[] = {"1", "true", "null", "1.5"};
  if (c == 3) x = jo({{L[vs_choice("like", 4)], jn()}}); else { x = jo({{vs_bytes("a", c), jn()}}); } if (m) { for (auto &y : x.o) vs_assume(y.first != "a"); x.o.emplace_back("a", ji(1)); }
  if (k < 2 || k == 10 || k == 13) for (auto &y : x.o) for (char ch : y.first) vs_assume((uint8_t)ch < 0x80); // lengths of strings that are not UTF-8 are V03's
  check(jo({{"propertyNames", nameSchema(k)}}), x);
}
//@ entry nested shards=40 reach=in,out cost=6
VS_ENTRY(nested) { // propertyNames below the root
  uint64_t w = vs_shard_choice("where", 10), k = vs_shard_choice("kind", 4); J pn = k == 0 ? P("{'maxLength':1}") : k == 1 ? jb(false) : k == 2 ? P("{'enum':['k','m']}") : P("{'pattern':'^[k-z]'}"); J s0 = jo({{"propertyNames", pn}, {"minProperties", ji(1)}}), s;
  J in = jo({{vs_bytes("a", vs_choice("l", 3)), ji((int64_t)vs_sym("v", 8))}}), x; for (char ch : in.o[0].first) vs_assume((uint8_t)ch < 0x80);
  switch (w) {
  case 0: s = jo({{"properties", jo({{"k", s0}})}}); x = jo({{"k", in}, {"long name", ji(1)}}); break;
  case 1: s = jo({{"items", s0}}); x = ja({in}); break;
  case 2: s = jo({{"allOf", ja({s0, P("{'type':'object'}")})}}); x = in; break;
  case 3: s = jo({{"not", s0}}); x = in; break;
  case 4: s = jo({{"additionalProperties", s0}}); x = jo({{"long name", in}}); break;
  case 5: s = jo({{"propertyNames", P("{'maxLength':4}")}, {"properties", jo({{"k", s0}})}}); x = jo({{"k", in}}); break;
  case 6: s = jo({{"propertyNames", P("{'maxLength':2}")}, {"additionalProperties", P("{'type':'integer'}")}, {"maxProperties", ji(1)}}); x = in; break;
  case 7: s = jo({{"items", ja({s0, jo({{"propertyNames", P("{'minLength':2}")}})})}}); x = ja({in, in}); break;
  case 8: s = jo({{"propertyNames", pn}, {"additionalProperties", P("{'$ref':'#'}")}}); x = vs_choice("deep", 2) ? jo({{"k", in}}) : in; break;
  default: s = jo({{"properties", P("{'k':{'$ref':'#'}}")}, {"propertyNames", pn}, {"definitions", jo({{"d", s0}})}}); x = jo({{"k", vs_choice("deep", 2) ? jo({{"k", in}}) : in}}); break;
  }
  check(s, x);
}
//@ entry many shards=48 reach=in,out cost=4
VS_ENTRY(many) { // several dependencies, required and forbidden names at once, in objects with every subset of five members
  static const char *N[] = {"a", "b", "c", "d", "e"}; uint64_t k = vs_shard_choice("kind", 6), dr = vs_shard_choice("draft", 3), sub = vs_shard_choice("subset", 32); J v = ji((int64_t)vs_sym("v", 8)), lim = ji((int64_t)vs_sym("lim", 8)), x = jo(); bool rev = vs_choice("rev", 2); for (int i = 0; i < 5; ++i) { int n = rev ? 4 - i : i; if (sub >> n & 1) x.o.emplace_back(N[n], v); }
  static const char *S[] = {"{'dependencies':{'a':{'properties':{'b':{'maximum':$0}}},'c':{'minProperties':3},'e':{'maxProperties':2}}}", "{'dependencies':{'a':['b','c','d'],'b':['c'],'e':['a','b'],'d':['e']}}", "{'dependencies':{'a':['e'],'b':{'maxProperties':2},'c':['a','b'],'d':{'additionalProperties':{'maximum':$0}}}}", "{'required':['e','c','a'],'dependencies':{'a':['b']},'maxProperties':4}", "{'required':['b'],'properties':{'a':{'maximum':$0},'d':{'maximum':$0}},'dependencies':{'d':{'required':['a','c']},'e':{'not':{'required':['a']}}}}", "{'dependencies':{'c':['a','b','d'],'d':{'dependencies':{'e':{'maxProperties':2},'a':['c']}}},'minProperties':1}"};
  if (dr == 2 && (k == 3 || k == 4)) { static const char *T[] = {"{'properties':{'a':{'required':true},'c':{'required':true,'maximum':$0},'e':{'required':true},'b':{'required':false}},'dependencies':{'a':'b','c':['d']}}", "{'properties':{'b':{'required':true}},'dependencies':{'d':{'properties':{'a':{'required':true},'c':{'required':true}}},'e':'a','a':{'extends':{'properties':{'c':{'required':true}}}}}}"}; check(P(T[k - 3], {lim}), x, D3); return; }
  check(P(S[k], {lim}), x, ver(dr));
}
//@ entry others reach=in
VS_ENTRY(others) { uint64_t t = vs_choice("type", 6), dr = vs_choice("draft", 3); J x = t == 0 ? jn() : t == 1 ? jb(true) : t == 2 ? ji((int64_t)vs_sym("x", 64)) : t == 3 ? jd(1.5) : t == 4 ? js("a") : ja({jo({{"a", ji(1)}})});
  check(dr == 0 ? P("{'required':['q'],'dependencies':{'a':['q'],'b':false},'propertyNames':false}") : dr == 1 ? P("{'required':['q'],'dependencies':{'a':['q'],'b':{'not':{}}}}") : P("{'properties':{'q':{'required':true}},'dependencies':{'a':'q','b':{'type':'null'}}}"), x, ver(dr)); }

#include "gen.h"
#include "large.h"
//@ bounds every schema template of gen.h (83, all drafts, symbolic 8-bit leaves) behind each of 18 ways of referring to it: JSON Pointers into definitions and into other keywords, escaped and percent-encoded pointers, absolute and relative identifiers, chains of two to four references, references to remote documents, into them, within them and between them, with sibling keywords that must be hidden
//@ bounds each such reference placed in each of 19 positions (thorough: all templates; quick: eight templates); every pair of references to the same or to similar targets
//@ bounds definition names of up to 3 arbitrary bytes reached by their escaped form; references "#/definitions/" plus up to 3 arbitrary bytes against two symbolic names: parsing succeeds exactly when RFC 6901 finds a schema there
//@ bounds recursive schemas (root, definitions, mutual, through items, remote, by identifier) on instances of depth up to 4 with symbolic leaves; cycles of references below the root
//@ stub the fetch callback returns documents from a table in the harness
//@ outside plain-name identifiers, local references inside a schema that carries its own identifier, pointers that end in an empty token at the root ("#/")
using std::string; typedef SchemaParser::FunctionPtrs<RA> FP;
struct Docs { std::vector<std::pair<string, J>> d; };
static void parseWith(Schema &s, const J &schema, SchemaParser::Version v, const Docs &docs) {
  Doc d(schema); RA a = d.ad(); SchemaParser p(v);
  FP::FetchDoc fetch = [&](const string &u) -> const RD * { for (auto &e : docs.d) if (e.first == u) { RD *r = new RD; toRapid(e.second, *r, r->GetAllocator()); return r; } return nullptr; };
  FP::FreeDoc fr = [](const RD *r) { delete r; };
  p.populateSchema<RA>(a, s, fetch, fr);
}
static void same(const J &withRef, const J &inlined, const J &x, SchemaParser::Version v, const Docs &docs) {
  bool w = want(inlined, x, v); Schema s; parseWith(s, withRef, v, docs); bool ok = validates(s, x); ValidationResults r; bool ok2 = validates(s, x, Validator::kStrongTypes, &r); vs_observe("ok", ok); vs_reach(w ? "in" : "out"); vs_assert(ok == w && ok2 == w, "reference differs from what it refers to");
}
static J R(const string &r) { return jo({{"$ref", js(r)}}); }
enum { NSTYLE = 18 };
// a reference to t, and the root members or documents that it needs; base: the identifier given to the root, if any
static bool style(uint64_t k, const J &t, SchemaParser::Version v, J &ref, J &defs, Docs &docs, string &base) {
  const char *id = v == D7 ? "$id" : "id"; defs = jo(); auto withId = [&](const string &u) { J c = t; if (c.k != J::Obj) return J(); c.o.insert(c.o.begin(), {id, js(u)}); return c; };
  switch (k) {
  case 0: ref = R("#/definitions/d"); defs.o.push_back({"d", t}); return true;
  case 1: ref = R("#/definitions/x~1y~0/not"); defs.o.push_back({"x/y~", jo({{"not", t}})}); return true;
  case 2: ref = R("#/definitions/a%25b%2F%7E1/allOf/1"); defs.o.push_back({"a%b", jo()}); defs.o.push_back({"a%b///", jo()}); defs.o.back().first = "a%b/" "/"; defs.o.back().second = jo({{"allOf", ja({jo(), t})}}); ref = R("#/definitions/a%25b~1%7E1/allOf/1"); return true;
  case 3: ref = R("#/definitions/p/properties/q"); defs.o.push_back({"p", jo({{"properties", jo({{"q", t}})}})}); return true;
  case 4: ref = R("#/definitions/r1"); defs.o.push_back({"r1", R("#/definitions/r2")}); defs.o.push_back({"r2", R("#/definitions/r3")}); defs.o.push_back({"r3", t}); return true;
  case 5: ref = R("http://h/id"); defs.o.push_back({"d", withId("http://h/id")}); return t.k == J::Obj && !t.get("$ref");
  case 6: base = "http://h/a/root.json"; ref = R("sub.json"); defs.o.push_back({"d", withId("http://h/a/sub.json")}); return t.k == J::Obj;
  case 7: base = "http://h/a/root.json"; ref = R("../b/sub.json"); defs.o.push_back({"d", withId("../b/sub.json")}); return t.k == J::Obj;
  case 8: ref = R("http://h/id#/definitions/in"); defs.o.push_back({"d", jo({{id, js("http://h/id")}, {"definitions", jo({{"in", t}})}})}); return true;
  case 9: ref = R("http://h/r"); docs.d.push_back({"http://h/r", t}); return true;
  case 10: ref = R("http://h/r#/definitions/in"); docs.d.push_back({"http://h/r", jo({{"definitions", jo({{"in", t}})}})}); return true;
  case 11: ref = R("http://h/r#/properties/z"); docs.d.push_back({"http://h/r", jo({{"definitions", jo({{"in", t}})}, {"properties", jo({{"z", R("#/definitions/in")}})}})}); defs.o.push_back({"in", P("{'not':{}}")}); return true;
  case 12: base = "http://h/a/root.json"; ref = R("r.json#/definitions/x"); docs.d.push_back({"http://h/a/r.json", jo({{"definitions", jo({{"x", R("../s.json")}})}})}); docs.d.push_back({"http://h/s.json", R("#/definitions/y")}); docs.d.back().second = jo({{"definitions", jo({{"y", t}})}, {"allOf", ja({R("#/definitions/y")})}}); return true;
  case 13: ref = jo({{"type", js("null")}, {"$ref", js("#/definitions/d")}, {"maximum", ji(-1000)}, {"not", jo()}, {"enum", ja()}}); defs.o.push_back({"d", t}); return true;
  case 14: ref = R("urn:ex:doc:a"); docs.d.push_back({"urn:ex:doc:a", t}); return true;
  case 15: ref = R("http://h/id#/definitions/in"); docs.d.push_back({"http://h/r", t}); defs.o.push_back({"d", jo({{id, js("http://h/id")}, {"definitions", jo({{"in", R("http://h/r")}})}})}); return true;
  case 16: ref = R("http://h/id"); defs.o.push_back({"a%7e/%b", withId("http://h/id")}); return t.k == J::Obj && !t.get("$ref");
  default: ref = R("http://h/r?x=1#/items"); docs.d.push_back({"http://h/r?x=1", jo({{"items", R("http://h/r?x=2")}})}); docs.d.push_back({"http://h/r?x=2", t}); return true;
  }
}
static J finish(J s, const J &defs, const string &base, SchemaParser::Version v) { if (s.k != J::Obj) return s; if (!base.empty()) s.o.insert(s.o.begin(), {v == D7 ? "$id" : "id", js(base)}); s.o.push_back({"definitions", defs}); return s; }
enum { NPOS = 19 };
static bool inner15(uint64_t w) { return w == 14; }
//@ entry styles shards=59 reach=in,out cost=9
VS_ENTRY(styles) { // every template behind every style, as a property
  uint64_t t = vs_shard_choice("tpl", NTPL), dr = vs_choice("draft", 3); if (strncmp(TPL[t].s, "{'format'", 9) == 0) return; Gen g; if (!tpl(g, t, dr)) return; J ref, defs; Docs docs; string base; if (!style(vs_choice("style", NSTYLE), g.s, g.v, ref, defs, docs, base)) return;
  same(finish(jo({{"properties", jo({{"k", ref}})}}), defs, base, g.v), jo({{"properties", jo({{"k", g.s}})}}), jo({{"k", g.x}}), g.v, docs);
}
static const char *S8[] = {"{'enum':[$0]}", "{'properties':{'a':{'maximum':$0}},'additionalProperties':false}", "{'items':[{'enum':[$0]}],'additionalItems':false}", "{'anyOf':[{'type':'string'},{'maximum':$0}]}", "{'not':{'enum':[$0]}}", "{'dependencies':{'a':{'maxProperties':1}}}", "{'type':'integer','minimum':$0}", "false"}; static const char *X8[] = {"$1", "{'a':$1}", "[$1]", "$1", "$1", "{'a':$1}", "$1", "$1"};
//@ entry positions shards=19 reach=in,out cost=9
VS_ENTRY(positions) { // every position and every style
  uint64_t pos = vs_shard_choice("position", NPOS), k = vs_choice("style", NSTYLE), t = vs_choice("tpl", 8), d3 = pos >= 16 && pos <= 17; JV a{ji((int64_t)vs_sym("v0", 8)), ji((int64_t)vs_sym("v1", 8))}; J s = P(S8[t], a), x = P(X8[t], a); if (d3 && t == 7) return; SchemaParser::Version v = d3 ? D3 : D7; if (inner15(pos)) return;
  J ref, defs; Docs docs; string base; if (!style(k, s, v, ref, defs, docs, base)) return; Gen g, h; g.v = h.v = v; g.s = ref; g.x = x; h.s = s; h.x = x; g.conj = h.conj = true; if (pos == 18) { g.s = jo({{"propertyNames", ref}}); h.s = jo({{"propertyNames", s}}); g.x = h.x = P("{'ab':1}"); } else { bool o1 = wrap(g, pos + 1 < 18 ? pos + 1 : pos), o2 = wrap(h, pos + 1 < 18 ? pos + 1 : pos); if (!o1 || !o2) return; }
  same(finish(g.s, defs, base, v), h.s, g.x, v, docs);
}
//@ entry root shards=8 reach=in,out cost=3
VS_ENTRY(root) { // the root itself is a reference
  uint64_t k = vs_shard_choice("form", 8), t = vs_choice("tpl", 8); JV a{ji((int64_t)vs_sym("v0", 8)), ji((int64_t)vs_sym("v1", 8))}; J s = P(S8[t], a), x = P(X8[t], a), r; Docs docs;
  switch (k) {
  case 0: r = P("{'$ref':'#/definitions/d','definitions':{'d':$0},'type':'null','not':{}}", {s}); break; case 1: r = P("{'$ref':'#/definitions/e','definitions':{'d':$0,'e':{'$ref':'#/definitions/d'}}}", {s}); break;
  case 2: r = R("http://h/r"); docs.d.push_back({"http://h/r", s}); break; case 3: r = R("http://h/r#/definitions/d"); docs.d.push_back({"http://h/r", P("{'definitions':{'d':$0}}", {s})}); break; case 4: r = R("http://h/r#/definitions/e"); docs.d.push_back({"http://h/r", P("{'definitions':{'d':$0,'e':{'$ref':'#/definitions/d'}}}", {s})}); break;
  case 5: r = R("http://h/r"); docs.d.push_back({"http://h/r", R("q/s")}); docs.d.push_back({"http://h/q/s", s}); break; case 6: if (t == 7) return; r = P("{'$ref':'http://h/i','definitions':{'d':$0}}", {s}); r.o[1].second.o[0].second.o.insert(r.o[1].second.o[0].second.o.begin(), {"$id", js("http://h/i")}); break;
  default: r = R("http://h/r"); docs.d.push_back({"http://h/r", P("{'allOf':[{'$ref':'#/definitions/d'},{'$ref':'r#/definitions/d'}],'definitions':{'d':$0}}", {s})}); break;
  }
  same(r, s, x, D7, docs);
}
//@ entry pairs shards=64 reach=in,out cost=6
VS_ENTRY(pairs) { // two references: the registry must not confuse their targets
  static const char *T[] = {"#/definitions/a~1b", "#/definitions/a/not", "#/definitions/a", "http://h/r#/definitions/a", "http://h/r", "#/definitions/b", "http://h/r/definitions/a", "http://h/r/"}; uint64_t i = vs_shard_choice("p", 8), j = vs_shard_choice("q", 8); JV c; static const char *N[] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6"}; for (auto n : N) c.push_back(ji((int64_t)(int8_t)vs_sym(n, 8)));
  J defs = P("{'a/b':{'minimum':$0},'a':{'minimum':$2,'not':{'minimum':$1}},'b':{'$ref':'#/definitions/a~1b'},'http://h/r':{}}", c); Docs docs; docs.d.push_back({"http://h/r", P("{'minimum':$4,'definitions':{'a':{'minimum':$3},'b':{}}}", c)}); docs.d.push_back({"http://h/r/definitions/a", P("{'minimum':$5}", c)}); docs.d.push_back({"http://h/r/", P("{'minimum':$6}", c)});
  auto tgt = [&](uint64_t k) { return k == 0 || k == 5 ? P("{'minimum':$0}", c) : k == 1 ? P("{'minimum':$1}", c) : k == 2 ? P("{'minimum':$2,'not':{'minimum':$1}}", c) : k == 3 ? P("{'minimum':$3}", c) : k == 4 ? P("{'minimum':$4}", c) : k == 6 ? P("{'minimum':$5}", c) : P("{'minimum':$6}", c); };
  J x = jo({{"p", ji((int64_t)(int8_t)vs_sym("x", 8))}, {"q", ji((int64_t)(int8_t)vs_sym("y", 8))}}); J s = P("{'properties':{'p':{'$ref':$0},'q':{'$ref':$1}},'definitions':$2}", {js(T[i]), js(T[j]), defs}), in = jo({{"properties", jo({{"p", tgt(i)}, {"q", tgt(j)}})}}); same(s, in, x, D7, docs);
}
static string esc(const string &n, bool pct) { string r; static const char *H = "0123456789ABCDEF"; for (char ch : n) { unsigned char c = (unsigned char)ch; if (c == '~') r += "~0"; else if (c == '/') r += "~1"; else if (c == '%') r += "%25"; else if (pct || c == '#') { r += '%'; r += H[c >> 4]; r += H[c & 15]; } else r += ch; } return r; }
//@ entry names shards=8 reach=in,out cost=4
VS_ENTRY(names) { // definition names of arbitrary bytes
  uint64_t l = vs_shard_choice("len", 4); bool pct = vs_shard_choice("pct", 2); if (pct && l > 1) return; string n = vs_bytes("n", l), m = vs_bytes("m", 1); vs_assume(n != m); J lim = ji((int64_t)(int8_t)vs_sym("lim", 8)), x = ji((int64_t)(int8_t)vs_sym("x", 8)); if (l == 0) return;
  J s = jo({{"properties", jo({{"k", R("#/definitions/" + esc(n, pct))}})}, {"definitions", jo({{m, P("{'not':{}}")}, {n, jo({{"maximum", lim}})}})}}); same(s, P("{'properties':{'k':{'maximum':$0}}}", {lim}), jo({{"k", x}}), D7, {});
}
static bool hexd(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool valid(const string &p) { string d; for (size_t i = 0; i < p.size(); ++i) { if (p[i] != '%') { d += p[i]; continue; } if (i + 2 >= p.size() || !hexd((unsigned char)p[i + 1]) || !hexd((unsigned char)p[i + 2])) return false; auto h = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; d += (char)(h(p[i + 1]) * 16 + h(p[i + 2])); i += 2; } for (size_t i = 0; i < d.size(); ++i) if (d[i] == '~') { if (i + 1 >= d.size() || (d[i + 1] != '0' && d[i + 1] != '1')) return false; ++i; } return true; }
//@ entry unresolved shards=8 reach=parsed,thrown cost=6
VS_ENTRY(unresolved) { // a reference that does not resolve is reported while parsing
  uint64_t l = vs_shard_choice("len", 4); bool remote = vs_shard_choice("remote", 2); string n = vs_bytes("n", 1), p = vs_bytes("p", l); vs_assume(n[0] != 'w'); J defs = jo({{n, P("{'maximum':5}")}, {"w", P("{'minimum':1}")}}); for (char c : p) vs_assume(c != '/' && c != '#');
  J s = jo({{"properties", jo({{"k", R((remote ? "http://h/r#/definitions/" : "#/definitions/") + p)}})}, {"definitions", remote ? jo() : defs}}); Docs docs; docs.d.push_back({"http://h/r", jo({{"definitions", defs}})}); const J *t = valid(p) ? Ref::ptr(jo({{"definitions", defs}}), "/definitions/" + p) : nullptr; bool has = t != nullptr;
  bool ok = true; try { Schema sc; parseWith(sc, s, D7, docs); } catch (const std::exception &) { ok = false; } vs_observe("ok", ok); vs_reach(has ? "parsed" : "thrown"); vs_assert(ok == has, has ? "reference not resolved" : "unresolvable reference accepted");
}
//@ entry nested shards=4 reach=in,out cost=3
VS_ENTRY(nested) { // names made of the text that joins the parts of a path: the registry must keep their schemas apart
  static const char *N[] = {"a", "a/properties/b", "a~1properties~1b", "a%2fproperties%2fb"}; uint64_t i = vs_shard_choice("n", 4), kw = vs_choice("kw", 2), order = vs_choice("order", 2); JV c; for (auto n : {"c0", "c1", "c2"}) c.push_back(ji((int64_t)(int8_t)vs_sym(n, 8))); const char *K = kw ? "patternProperties" : "properties"; string o = N[i]; if (kw) { size_t p = o.find("properties"); if (p != string::npos) o.replace(p, 10, "patternProperties"); } if (kw && i == 0) o = "b";
  J in = jo({{K, jo({{"b", P("{'maximum':$1}", c)}})}}), other = P("{'maximum':$0}", c); std::pair<string, J> m1{"a", in}, m2{i ? o : "zz", other}; J props = order ? jo({m1, m2}) : jo({m2, m1}); J s = jo({{K, props}}); J x = ji((int64_t)(int8_t)vs_sym("x", 8)), y = ji((int64_t)(int8_t)vs_sym("y", 8)); uint64_t use = vs_choice("ref", 2); J s2 = s; if (use) s2.o.push_back({"additionalProperties", R(string("#/") + K + "/" + esc(m2.first, false))}); J s3 = s; if (use) s3.o.push_back({"additionalProperties", other});
  same(s2, s3, jo({{"a", jo({{"b", x}})}, {m2.first, y}, {"q", y}}), D7, {});
}
//@ entry missing reach=thrown
VS_ENTRY(missing) { // other references that resolve to nothing
  static const char *T[] = {"http://h/none", "#/definitions/none", "none.json", "http://h/r#/none", "http://h/r#none", "#/definitions/d/0", "#/enum/0", "urn:ex:none", "#definitions", "http://h/r#/enum/2"}; uint64_t k = vs_choice("k", 10), f = vs_choice("fetch", 2); J s = P("{'allOf':[{'$ref':$0}],'definitions':{'d':{}},'enum':[]}", {js(T[k])}); Docs docs; docs.d.push_back({"http://h/r", P("{'enum':[1,2]}")}); bool ok = true;
  try { Schema sc; if (f) parseWith(sc, s, D7, docs); else parseInto(sc, s); } catch (const std::exception &) { ok = false; } vs_reach("thrown"); vs_assert(!ok, "unresolvable reference accepted");
}
static J leaf(const char *n) { return ji((int64_t)(int8_t)vs_sym(n, 8)); }
static J tree(int d, const char *const *N, int i) { JO m{{"v", leaf(N[i])}}; if (d > 0) { uint64_t k = vs_choice("kids", 3); if (k > 0) m.push_back({"l", tree(d - 1, N, 2 * i + 1)}); if (k > 1) m.push_back({"r", tree(d - 1, N, 2 * i + 2)}); } return jo(m); }
static bool treeOk(const J &t, int64_t lim) { bool r = t.get("v")->i <= lim; if (const J *l = t.get("l")) r &= treeOk(*l, lim); if (const J *q = t.get("r")) r &= treeOk(*q, lim); return r; }
//@ entry recursive shards=8 reach=in,out cost=6
VS_ENTRY(recursive) {
  uint64_t k = vs_shard_choice("form", 8); J lim = leaf("lim"), s; Docs docs; static const char *N[] = {"t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "t9", "ta", "tb", "tc", "td", "te"};
#ifdef VS_THOROUGH
  int depth = 2;
#else
  int depth = 1;
#endif
  J x = tree(depth, N, 0); bool w = treeOk(x, lim.i); auto node = [&](const char *a, const char *b) { return P("{'properties':{'v':{'maximum':$0},'l':{'$ref':$1},'r':{'$ref':$2}}}", {lim, js(a), js(b)}); };
  switch (k) {
  case 0: s = node("#", "#"); break; case 1: s = P("{'$ref':'#/definitions/n','definitions':{'n':$0}}", {node("#/definitions/n", "#/definitions/n")}); break; case 2: s = node("#/definitions/a", "#/definitions/b"); s.o.push_back({"definitions", jo({{"a", node("#/definitions/b", "#")}, {"b", node("#/definitions/a", "#/properties/l")}})}); break;
  case 3: s = node("http://h/t", "#"); s.o.insert(s.o.begin(), {"$id", js("http://h/t")}); break; case 4: s = R("http://h/t"); docs.d.push_back({"http://h/t", node("#", "http://h/t")}); break; case 5: s = node("http://h/a", "http://h/b"); docs.d.push_back({"http://h/a", node("b", "#")}); docs.d.push_back({"http://h/b", node("a", "b#/properties/r")}); docs.d.back().second = node("a", "#"); break;
  case 6: s = P("{'allOf':[{'$ref':'#/definitions/n'}],'definitions':{'n':$0}}", {node("#/allOf/0", "#/definitions/n")}); break; default: s = P("{'properties':{'v':{'maximum':$0},'l':{'anyOf':[{'not':{}},{'$ref':'#'}]},'r':{'not':{'not':{'$ref':'#'}}}}}", {lim}); break;
  }
  Schema sc; parseWith(sc, s, D7, docs); bool ok = validates(sc, x); vs_observe("ok", ok); vs_reach(w ? "in" : "out"); vs_assert(ok == w, "recursive schema");
}
//@ entry lists shards=2 reach=in,out cost=2
VS_ENTRY(lists) { // nested arrays through items
  J lim = leaf("lim"), x = leaf("x"); bool w = x.i <= lim.i; uint64_t d = vs_choice("depth", 5), k = vs_shard_choice("form", 2); for (uint64_t i = 0; i < d; ++i) x = i & 1 ? ja({x, ja()}) : ja({x}); J s = k ? P("{'items':{'$ref':'#'},'maximum':$0}", {lim}) : P("{'items':[{'$ref':'#'}],'additionalItems':{'$ref':'#'},'maximum':$0}", {lim}); Schema sc; parseInto(sc, s); bool ok = validates(sc, x); vs_reach(w ? "in" : "out"); vs_assert(ok == w, "recursion through items");
}
//@ entry cycles reach=thrown
VS_ENTRY(cycles) { // references that refer to each other only: an exception, not endless recursion
  uint64_t k = vs_choice("k", 8); Docs docs; J s;
  switch (k) { case 0: s = P("{'properties':{'k':{'$ref':'#/properties/k'}}}"); break; case 1: s = P("{'properties':{'k':{'$ref':'#/definitions/a'}},'definitions':{'a':{'$ref':'#/definitions/b'},'b':{'$ref':'#/definitions/a'}}}"); break; case 2: s = P("{'properties':{'k':{'$ref':'http://h/a'}}}"); docs.d = {{"http://h/a", R("http://h/b")}, {"http://h/b", R("http://h/a")}}; break; case 3: s = P("{'allOf':[{'$ref':'http://h/a#/x'}]}"); docs.d = {{"http://h/a", P("{'x':{'$ref':'#/y'},'y':{'$ref':'#/x'}}")}}; break;
  case 4: s = P("{'items':{'$ref':'http://h/a'}}"); docs.d = {{"http://h/a", R("http://h/a")}}; break; case 5: s = P("{'items':{'$ref':'http://h/a#'}}"); docs.d = {{"http://h/a", R("#")}}; break; case 6: s = P("{'not':{'$ref':'#/not'}}"); break; default: s = P("{'items':{'$ref':'#/definitions/a'},'definitions':{'a':{'$ref':'#/definitions/b'},'b':{'$ref':'#/definitions/c'},'c':{'$ref':'#/definitions/b'}}}"); break; }
  bool ok = true; try { Schema sc; parseWith(sc, s, D7, docs); } catch (const std::exception &) { ok = false; } vs_reach("thrown"); vs_assert(!ok, "cycle of references accepted");
}
//@ entry bundled shards=8 reach=in,out
VS_ENTRY(bundled) { // several identified schemas bundled in one document, referring to each other by identifier
  uint64_t k = vs_shard_choice("form", 4), rev = vs_choice("order", 2), t = vs_shard_choice("half", 2) * 4 + vs_choice("tpl", 4); if (t == 7) return; JV a{ji((int64_t)vs_sym("v0", 8)), ji((int64_t)vs_sym("v1", 8))}; J s = P(S8[t], a), x = P(X8[t], a), in, ref; auto idd = [](const char *u, J c) { c.o.insert(c.o.begin(), {"$id", js(u)}); return c; };
  J A, B = idd("http://h/b", s); bool inner = k >= 2; // inner: the reference to b lies in an identified schema that is itself reached by reference
  switch (k) { case 0: ref = ja({R("http://h/a"), R("http://h/b")}); A = idd("http://h/a", P("{'minProperties':0}")); in = s; break; case 1: ref = ja({R("http://h/a#/definitions/z"), R("http://h/b")}); A = idd("http://h/a", P("{'definitions':{'z':{'maxLength':100}}}")); in = s; break; case 2: ref = ja({R("http://h/a")}); A = idd("http://h/a", P("{'anyOf':[{'$ref':'http://h/b'}]}")); in = s; break; default: ref = ja({R("#/definitions/1")}); A = P("{'anyOf':[{'$ref':'http://h/b'}]}"); in = s; inner = false; break; }
  J defs = rev ? jo({{"2", B}, {"1", A}}) : jo({{"1", A}, {"2", B}}); J sch = jo({{"allOf", ref}, {"definitions", defs}}); bool w = want(in, x, D7), ok = !w; bool thrown = false; try { Schema sc; parseWith(sc, sch, D7, {}); ok = validates(sc, x); } catch (const std::exception &) { thrown = true; } vs_observe("ok", ok); vs_reach(w ? "in" : "out"); vs_known(!thrown && ok == w, "reference between bundled schemas", inner && thrown, "bundled-id-from-identified-schema");
}
static J place(uint64_t k, uint64_t i, const J &t) { // t somewhere inside a schema
  JV l; for (uint64_t j = 0; j < i; ++j) l.push_back(jo({{"minLength", ji(0)}})); l.push_back(t); l.push_back(jo());
  switch (k) { case 0: return jo({{"allOf", ja(l)}}); case 1: return jo({{"anyOf", ja(l)}}); case 2: return jo({{"oneOf", ja(l)}}); case 3: return jo({{"items", ja(l)}}); case 4: return jo({{"items", t}}); case 5: return jo({{"items", ja({jo()})}, {"additionalItems", t}}); case 6: return jo({{"additionalProperties", t}}); case 7: return jo({{"patternProperties", jo({{"a/~", t}})}}); case 8: return jo({{"not", t}}); case 9: return jo({{"if", jo()}, {i ? "then" : "else", t}}); case 10: return jo({{"contains", t}}); case 11: return jo({{"propertyNames", t}}); case 12: return jo({{"dependencies", jo({{"b", ja({js("c")})}, {"a", t}})}}); case 13: return jo({{"x-unknown", jo({{"y", ja({ji(1), t})}})}}); case 14: return jo({{"x-unknown", ja({ja(l), jo()})}}); case 15: return jo({{"definitions", jo({{"a~1b", jo()}, {"~", t}})}}); default: return jo({{"title", js("t")}, {"properties", jo({{"$id", jo()}, {"", t}})}}); }
}
//@ entry placed shards=17 reach=in,out cost=3
VS_ENTRY(placed) { // a schema with an identifier is found wherever it lies, before and after it is parsed
  uint64_t k = vs_shard_choice("place", 17), i = vs_choice("index", k < 4 || k == 14 ? 4 : k == 9 ? 2 : 1), nest = vs_choice("nest", 4), at = vs_choice("at", 3), base = vs_choice("base", 3), dr = vs_choice("draft", 2); if (dr && (k == 9 || k == 10 || k == 11)) return; if (nest && (dr || at == 1 || base == 1)) return; J v = ji((int64_t)(int8_t)vs_sym("v", 8)), x = ji((int64_t)(int8_t)vs_sym("x", 8)); const char *id = dr ? "id" : "$id";
  J t = jo({{id, js(base ? "b" : "http://x/b")}, {"maximum", v}}), in = t; in.o.erase(in.o.begin()); J c = place(k, i, t); if (nest) c = place(nest == 1 ? 0 : nest == 2 ? 3 : 15, nest == 2 ? 2 : 1, c); if (k == 13 || k == 14 || nest == 3 || k == 15) { if (at != 0 && base == 2) return; }
  J ref = R(base == 0 ? "http://x/b" : base == 1 ? "http://x/b" : "b"), s; switch (at) { case 0: s = jo({{"properties", jo({{"p", ref}})}, {"definitions", jo({{"c", c}})}}); break; case 1: s = jo({{"properties", jo({{"z", c}, {"p", ref}})}}); break; default: s = jo({{"properties", jo({{"p", ref}, {"z", c}})}}); } if (base) s.o.insert(s.o.begin(), {id, js("http://x/r")});
  bool w = x.i <= v.i, ok = !w, thrown = false; try { Schema sc; parseWith(sc, s, dr ? D4 : D7, {}); ok = validates(sc, jo({{"p", x}})); } catch (const std::exception &) { thrown = true; } vs_observe("ok", ok); vs_observe("thrown", thrown); vs_reach(w ? "in" : "out"); vs_assert(!thrown && ok == w, "reference to an identified schema");
}
struct Counting : SchemaParser { int n = 0; Counting() : SchemaParser(kDraft7) {} std::optional<std::string> resolveDocumentUri(const std::optional<std::string> &scope, const std::optional<std::string> &u) override { if (++n > 40) throw n; return u ? u : scope; } };
//@ entry rootcycles reach=cycle
VS_ENTRY(rootcycles) { // the same at the root of the document
  uint64_t k = vs_choice("k", 5); J s; std::vector<std::pair<string, J>> docs; switch (k) { case 0: s = R("#"); break; case 1: s = P("{'$ref':'#/definitions/a','definitions':{'a':{'$ref':'#/definitions/b'},'b':{'$ref':'#/definitions/a'}}}"); break; case 2: s = P("{'$ref':'#/definitions/a','definitions':{'a':{'$ref':'#'}}}"); break; case 3: s = R("http://h/a"); docs = {{"http://h/a", R("http://h/b")}, {"http://h/b", R("http://h/a")}}; break; default: s = R("http://h/a"); docs = {{"http://h/a", R("http://h/a")}}; break; }
  Doc d(s); RA a = d.ad(); int endless = 0; bool ok = true; FP::FetchDoc fetch = [&](const string &u) -> const RD * { for (auto &e : docs) if (e.first == u) { RD *r = new RD; toRapid(e.second, *r, r->GetAllocator()); return r; } return nullptr; }; FP::FreeDoc fr = [](const RD *r) { delete r; };
  try { Schema sc; Counting p; p.populateSchema<RA>(a, sc, fetch, fr); } catch (const std::exception &) { ok = false; } catch (int) { endless = 1; } vs_observe("endless", endless); vs_reach("cycle"); vs_known(!endless && !ok, "cycle of references at the root", endless, "root-ref-cycle");
}
//@ bounds chains of 17 and 65 references, 17 and 65 (thorough: 65 and 260) definitions referred to one by one, a recursive schema on instances of depth 65 and 130, and definition names of 300 bytes that share all but the last
//@ entry large shards=10 reach=in,out cost=4
VS_ENTRY(large) {
  uint64_t k = vs_shard_choice("kind", 5), z = vs_shard_choice("size", 2), n = z ? 65 : 17, p = 0; J c = lgInt("c"), v = lgInt("x"), s, t, x = jo({{"k", v}}); JO d; JO props, flat, o;
  switch (k) {
  case 0: for (uint64_t i = 0; i < n; ++i) d.push_back({lgName(i), i + 1 < n ? R("#/definitions/" + lgName(i + 1)) : jo({{"maximum", c}})}); s = jo({{"properties", jo({{"k", R("#/definitions/" + lgName(0))}})}, {"definitions", jo(d)}}); t = P("{'properties':{'k':{'maximum':$0}}}", {c}); break;
  case 1:
#ifdef VS_THOROUGH
    n = z ? 260 : 65;
#else
    n = z ? 65 : 17;
#endif
    p = lgPos(n); for (uint64_t i = 0; i < n; ++i) { d.push_back({lgName(i), i == p ? jo({{"maximum", c}}) : jo({{"maximum", ji(-(int64_t)i)}})}); props.push_back({lgName(i), R("#/definitions/" + lgName(i))}); flat.push_back({lgName(i), d.back().second}); o.push_back({lgName(i), i == p ? v : ji(-40000)}); } s = jo({{"properties", jo(props)}, {"definitions", jo(d)}}); t = jo({{"properties", jo(flat)}}); x = jo(o); break;
  case 2: { n = z ? 130 : 65; s = P("{'properties':{'next':{'$ref':'#/definitions/l'},'v':{'maximum':$0}},'definitions':{'l':{'properties':{'next':{'$ref':'#/definitions/l'},'v':{'maximum':$0}},'required':['v']}}}", {c}); x = jo({{"v", v}}); for (uint64_t i = 0; i < n; ++i) x = jo({{"next", x}, {"v", ji(-40000)}}); t = jo({{"maximum", c}}); bool w = want(t, v, D7); Schema sc; parseWith(sc, s, D7, {}); ValidationResults r; bool ok = validates(sc, x), ok2 = validates(sc, x, Validator::kStrongTypes, &r); vs_observe("ok", ok); vs_reach(w ? "in" : "out"); vs_assert(ok == w && ok2 == w, "recursion on a deep instance"); return; }
  case 3: { string q(z ? 300 : 40, 'n'); d = {{q + "a", jo({{"maximum", c}})}, {q + "b", jo({{"minimum", c}})}, {q, jo({{"enum", ja({c})}})}}; static const char *E[] = {"a", "b", ""}; uint64_t a = vs_choice("a", 3), b = vs_choice("b", 3); s = jo({{"properties", jo({{"k", R("#/definitions/" + q + E[a])}, {"l", R("#/definitions/" + q + E[b])}})}, {"definitions", jo(d)}}); t = jo({{"properties", jo({{"k", d[a].second}, {"l", d[b].second}})}}); x = jo({{"k", v}, {"l", v}}); break; }
  default: n = z ? 33 : 9; p = lgPos(n); { Docs docs; for (uint64_t i = 0; i < n; ++i) { J m = i == p ? jo({{"maximum", c}}) : jo({{"maximum", ji(-(int64_t)i)}}); docs.d.push_back({"http://h/" + lgName(i), jo({{"definitions", jo({{"in", m}})}})}); props.push_back({lgName(i), R("http://h/" + lgName(i) + "#/definitions/in")}); flat.push_back({lgName(i), m}); o.push_back({lgName(i), i == p ? v : ji(-40000)}); } same(jo({{"properties", jo(props)}}), jo({{"properties", jo(flat)}}), jo(o), D7, docs); } return;
  }
  same(s, t, x, D7, {});
}
//@ bounds Draft 3 required in referenced schemas: one or two properties that refer to the schema, in definitions or in a sibling property, in both orders, and in a remote document
//@ entry required3 shards=12 reach=in,out
VS_ENTRY(required3) { // required belongs to the property that refers to the schema
  uint64_t f = vs_shard_choice("form", 6); bool rev = vs_shard_choice("rev", 2); J rq = jb(vs_choice("req", 2)), t = jo({{"required", rq}, {"maximum", ji((int64_t)vs_sym("lim", 8))}}), ps, in, defs = jo(); Docs docs; bool shared = false;
  if (f == 0) { ps = jo({{"a", R("#/definitions/t")}}); in = jo({{"a", t}}); defs = jo({{"t", t}}); }
  else if (f == 1) { ps = jo({{"a", R("http://h/r#/t")}}); in = jo({{"a", t}}); docs.d.push_back({"http://h/r", jo({{"t", t}})}); }
  else if (f == 2) { ps = jo({{"a", R("#/definitions/t")}, {"b", R("#/definitions/u")}}); in = jo({{"a", t}, {"b", t}}); defs = jo({{"t", t}, {"u", t}}); }
  else if (f == 3) { ps = jo({{"a", R("#/definitions/t")}, {"b", R("#/definitions/t")}}); in = jo({{"a", t}, {"b", t}}); defs = jo({{"t", t}}); shared = true; }
  else if (f == 4) { ps = jo({{"a", R("#/properties/b")}, {"b", t}}); in = jo({{"a", t}, {"b", t}}); shared = true; }
  else { ps = jo({{"a", R("#/definitions/c")}, {"b", t}}); in = jo({{"a", t}, {"b", t}}); defs = jo({{"c", R("#/definitions/t")}, {"t", t}}); }
  if (rev) { std::reverse(ps.o.begin(), ps.o.end()); std::reverse(in.o.begin(), in.o.end()); }
  J x = jo(); uint64_t m = vs_choice("members", 4); J v = ji((int64_t)vs_sym("v", 8)); if (m & 1) x.o.emplace_back("a", v); if (m & 2) x.o.emplace_back("b", v);
  bool w = want(jo({{"properties", in}}), x, D3); Schema sc; parseWith(sc, jo({{"properties", ps}, {"definitions", defs}}), D3, docs); bool ok = validates(sc, x); ValidationResults r; bool ok2 = validates(sc, x, Validator::kStrongTypes, &r);
  vs_observe("ok", ok); vs_reach(w ? "in" : "out"); vs_known(ok == w && ok2 == w, "required in a referenced Draft 3 schema", shared && rq.b && ok && ok2, "draft3-required-shared");
}

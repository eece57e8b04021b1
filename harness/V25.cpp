#include "api.h"
//@ bounds every schema template of gen.h (83, all drafts, symbolic 8-bit leaves): parsed with the source document destroyed, overwritten in place, or the Schema moved (construction, assignment into an empty and into a used Schema) between parsing and validation, in 10 contexts; thorough: in all 21 contexts
//@ bounds every constraint class built through the construction API with symbolic parameters, added by reference to the root or to a subschema, then modified and destroyed; enum and const values that are strings of up to 3 arbitrary bytes and nested values with 64-bit leaves
//@ bounds const and enum strings, member names and required names of 12, 22, 33, 70 and 300 bytes with one arbitrary byte at either end
//@ bounds recursive schemas and schemas with identifiers and remote documents, moved after parsing
//@ outside constraint objects that lack the value they are defined by (a const constraint without a value)
using std::string; using namespace valijson; using namespace valijson::constraints; typedef SchemaParser::FunctionPtrs<RA> FP;
static void spoil(RV &v, RD::AllocatorType &al) { // overwrite a document in place
  switch (v.GetType()) {
  case rapidjson::kObjectType: for (auto i = v.MemberBegin(); i != v.MemberEnd(); ++i) { spoil(i->value, al); char *p = const_cast<char *>(i->name.GetString()); for (unsigned k = 0; k < i->name.GetStringLength(); ++k) p[k] = '#'; } break;
  case rapidjson::kArrayType: for (auto i = v.Begin(); i != v.End(); ++i) spoil(*i, al); v.PushBack(77, al); break;
  case rapidjson::kStringType: { char *p = const_cast<char *>(v.GetString()); for (unsigned k = 0; k < v.GetStringLength(); ++k) p[k] = '#'; break; }
  case rapidjson::kNumberType: v.SetInt64(123456789); break;
  default: v.SetBool(!v.IsTrue());
  }
}
static bool fmt(const J &s) { bool r = s.k == J::Obj && s.get("format"); for (auto &m : s.o) r |= fmt(m.second); for (auto &m : s.a) r |= fmt(m); return r; }
static void check(const Schema &s, const J &schema, const J &x, SchemaParser::Version v) { bool w = fmt(schema) ? accepts(schema, x, v) : want(schema, x, v), ok = validates(s, x); ValidationResults r; bool ok2 = validates(s, x, Validator::kStrongTypes, &r); vs_observe("ok", ok); vs_reach(w ? "in" : "out"); vs_assert(ok == w && ok2 == w, "verdict changed after parsing"); }
static void used(Schema &s) { parseInto(s, P("{'title':'t','$id':'http://h/u','not':{},'properties':{'a':{'$ref':'#'},'b':{'enum':['x']}}}")); }
static void moved(const J &schema, const J &x, SchemaParser::Version v, uint64_t how, const FP::FetchDoc &fetch = nullptr, const FP::FreeDoc &fr = nullptr) {
  std::unique_ptr<Doc> d(new Doc(schema)); std::unique_ptr<SchemaParser> p(new SchemaParser(v)); std::unique_ptr<Schema> s(new Schema); { RA a = d->ad(); if (fetch) p->populateSchema<RA>(a, *s, fetch, fr); else p->populateSchema(a, *s); }
  switch (how) {
  case 0: p.reset(); d.reset(); check(*s, schema, x, v); break;
  case 1: spoil(d->d, d->d.GetAllocator()); check(*s, schema, x, v); break;
  case 2: { d.reset(); Schema t(std::move(*s)); s.reset(); check(t, schema, x, v); break; }
  case 3: { d.reset(); Schema t; t = std::move(*s); s.reset(); check(t, schema, x, v); break; }
  default: { d.reset(); Schema t; used(t); t = std::move(*s); check(t, schema, x, v); s.reset(); check(t, schema, x, v); Schema q(std::move(t)); Schema y(std::move(q)); check(y, schema, x, v); }
  }
}
//@ entry parsed shards=83 reach=in,out cost=9
VS_ENTRY(parsed) {
  static const uint64_t W[] = {0, 2, 4, 7, 9, 10, 11, 14, 15, 5}; uint64_t t = vs_shard_choice("tpl", NTPL), dr = vs_choice("draft", 3);
#ifdef VS_THOROUGH
  uint64_t w = vs_choice("wrap", NWRAP);
#else
  uint64_t w = W[vs_choice("wrap", 10)]; if (strncmp(TPL[t].s, "{'format'", 9) == 0) { if (w != 7 || dr) return; }
#endif
  uint64_t how = vs_choice("how", 5); Gen g; if (!tpl(g, t, dr) || !wrap(g, w)) return;
  moved(g.s, g.x, g.v, how);
}
//@ entry values shards=40 reach=in,out cost=5
VS_ENTRY(values) { // enum and const values
  uint64_t k = vs_shard_choice("shape", 20), how = vs_choice("how", 5); bool cst = vs_shard_choice("const", 2); J v = k < 4 ? js(vs_bytes("s", k)) : k == 4 ? ji((int64_t)vs_sym("vi", 64)) : k == 5 ? jd(vs_double("vd")) : k == 6 ? jn() : k == 7 ? jb(vs_choice("vb", 2)) : J();
  if (k == 5) vs_assume(isFin(v.d)); J x; if (k < 4) x = js(vs_bytes("t", k)); else if (k == 4) x = ji((int64_t)vs_sym("xi", 64)); else if (k == 5) { x = jd(vs_double("xd")); vs_assume(isFin(x.d)); } else if (k < 8) x = vs_choice("xn", 2) ? jn() : jb(vs_choice("xb", 2));
  if (k >= 8) { J a = ji((int64_t)vs_sym("a", 64)), b = js(vs_bytes("b", 1)), c = ji((int64_t)vs_sym("c", 64)), e = js(vs_bytes("e", 1)); static const char *T[] = {"[$0,$1]", "{'a':$0,'b':$1}", "[[$0],[$1]]", "{'a':{'b':$0},'c':[$1]}", "[{'x':$0},{'x':$1}]", "[[],{},$0,$1,null,true]", "{'a':[1,{'b':[$0]}],'z':$1}", "[$1,$1,$0]", "{'':$0,'0':$1}", "[[[[$0]]],$1]", "{'a':null,'b':$0,'c':$1}", "[{'a':[]},$0,$1]"}; v = P(T[k - 8], {a, b}); x = P(T[k - 8], {c, e}); }
  J schema = cst ? jo({{"const", v}}) : jo({{"enum", ja({P("['other']"), v, jb(false)})}}); if (!cst && k == 7) schema = jo({{"enum", ja({P("['other']"), v})}});
  moved(schema, x, D7, how);
}
//@ entry longer shards=30 reach=in,out cost=3
VS_ENTRY(longer) { // long strings and numbers of every representation, also as member names and inside arrays
  uint64_t f = vs_shard_choice("form", 6), l = vs_shard_choice("len", 5), how = vs_choice("how", 5); static const size_t L[] = {12, 22, 33, 70, 300}; uint64_t at = vs_choice("at", 2); string a(L[l], 'x'), b = a; size_t p = at ? L[l] - 1 : 0; a[p] = (char)vs_sym("a", 8); b[p] = (char)vs_sym("b", 8); J lim = ji((int64_t)vs_sym("lim", 8)), y = ji((int64_t)vs_sym("y", 8));
  J s, x; switch (f) { case 0: s = jo({{"const", js(a)}}); x = js(b); break; case 1: s = jo({{"enum", ja({ji(1), js(a), js("y")})}}); x = js(b); break; case 2: s = jo({{"const", ja({js(a), lim})}}); x = ja({js(b), y}); break; case 3: s = jo({{"enum", ja({jo({{string(L[l], 'n'), js(a)}})})}}); x = jo({{string(L[l], 'n'), js(b)}}); break;
  case 4: s = jo({{"properties", jo({{string(L[l], 'n'), jo({{"maximum", lim}})}})}, {"required", ja({js(string(L[l], 'n'))})}, {"additionalProperties", jb(false)}}); x = jo({{string(L[l] - at, 'n'), y}}); break;
  default: s = jo({{"dependencies", jo({{string(L[l], 'n'), ja({js(string(L[l], 'm'))})}})}, {"patternProperties", jo({{"^" + string(12, 'n'), jo({{"maximum", lim}})}})}}); x = jo({{string(L[l], 'n'), y}, {string(L[l] - at, 'm'), y}}); }
  moved(s, x, D7, how);
}
//@ entry graphs shards=14 reach=in,out cost=3
VS_ENTRY(graphs) { // references to the root, to identifiers and to remote documents must survive the move
  uint64_t k = vs_shard_choice("k", 14), how = vs_choice("how", 5); J lim = ji((int64_t)(int8_t)vs_sym("lim", 8)), x = ji((int64_t)(int8_t)vs_sym("x", 8)), y = ji((int64_t)(int8_t)vs_sym("y", 8)); JV a{lim};
  static const char *S[] = {"{'properties':{'n':{'$ref':'#'},'v':{'maximum':$0}}}", "{'$id':'http://h/r','properties':{'n':{'$ref':'#'},'v':{'maximum':$0}}}", "{'$id':'http://h/r','properties':{'n':{'$ref':'http://h/r'},'v':{'maximum':$0}}}", "{'$id':'http://h/r','properties':{'n':{'$ref':'r#'},'v':{'maximum':$0}}}", "{'$id':'http://h/r','properties':{'n':{'$ref':'http://h/s'},'v':{'maximum':$0}},'definitions':{'d':{'$id':'http://h/s','properties':{'n':{'$ref':'http://h/r'},'v':{'maximum':$0}}}}}", "{'$ref':'http://h/q'}", "{'properties':{'n':{'$ref':'http://h/q'},'v':{'maximum':$0}}}", "{'$id':'http://h/q','properties':{'n':{'$ref':'http://h/q#/definitions/z'},'v':{'maximum':$0}},'definitions':{'z':{'properties':{'n':{'$ref':'#'},'v':{'maximum':$0}}}}}", "{'$id':'http://h/r','anyOf':[{'properties':{'n':{'$ref':'#'},'v':{'maximum':$0}}}]}", "{'$id':'http://h/r','properties':{'n':{'not':{'not':{'$ref':'#'}}},'v':{'maximum':$0}}}", "{'$id':'http://h/r','if':{},'then':{'properties':{'n':{'$ref':'#'},'v':{'maximum':$0}}}}", "{'$id':'urn:ex:doc','properties':{'n':{'$ref':'#'},'v':{'maximum':$0}}}", "{'$id':'r','properties':{'n':{'$ref':'#'},'v':{'maximum':$0}},'title':'t','description':'d'}", "{'$id':'http://h/r','dependencies':{'n':{'properties':{'n':{'$ref':'#'}}}},'properties':{'v':{'maximum':$0}}}"};
  J schema = P(S[k], a), remote = P("{'properties':{'n':{'$ref':'#'},'v':{'maximum':$0}}}", a); FP::FetchDoc fetch = [&](const string &) -> const RD * { RD *r = new RD; toRapid(remote, *r, r->GetAllocator()); return r; }; FP::FreeDoc fr = [](const RD *r) { delete r; };
  std::unique_ptr<Doc> d(new Doc(schema)); std::unique_ptr<Schema> s(new Schema); { RA ad = d->ad(); SchemaParser p(D7); p.populateSchema<RA>(ad, *s, fetch, fr); }
  uint64_t depth = vs_choice("depth", 3); J in = jo({{"v", y}}); for (uint64_t i = 0; i < depth; ++i) in = jo({{"v", x}, {"n", in}}); bool w = (depth == 0 || x.i <= lim.i) && y.i <= lim.i; vs_reach(w ? "in" : "out"); auto chk = [&](const Schema &t) { bool ok = validates(t, in); vs_observe("ok", ok); vs_assert(ok == w, "verdict changed after the move"); };
  d.reset(); if (how == 0) chk(*s); else if (how == 1) { Schema t(std::move(*s)); chk(t); s.reset(); chk(t); } else if (how == 2) { Schema t; t = std::move(*s); s.reset(); chk(t); } else if (how == 3) { Schema t; used(t); t = std::move(*s); chk(t); s.reset(); chk(t); } else { std::vector<Schema> v; v.push_back(std::move(*s)); s.reset(); v.emplace_back(); v.emplace_back(); chk(v[0]); }
}
//@ entry api shards=34 reach=in,out cost=8
VS_ENTRY(api) { // constraints built by hand: c is added, then changed, then destroyed
  uint64_t k = vs_shard_choice("c", NAPI); Schema s; int8_t p = (int8_t)vs_sym("p", 8), q = (int8_t)vs_sym("q", 8); J x = ji((int64_t)(int8_t)vs_sym("x", 8)); bool sub = vs_choice("sub", 2); const Subschema *at = sub ? s.createSubschema() : s.root();
  Api a{s, at, sub, p, q, J(), x, D7, nullptr, nullptr}; a.run(k);
  if (sub) { AllOfConstraint c; c.addSubschema(at); s.addConstraint(c); } uint64_t mv = vs_choice("move", 2);
  if (mv) { Schema t(std::move(s)); check(t, a.schema, a.x, a.ver); } else check(s, a.schema, a.x, a.ver);
}
//@ entry foreign shards=2 reach=refused
VS_ENTRY(foreign) { // a schema modifies only subschemas that it owns
  bool empty = vs_shard_choice("empty", 2); Schema s, o; MaximumConstraint m; m.setMaximum(vs_sym("m", 8)); m.setExclusiveMaximum(true); const Subschema *t = empty ? s.emptySubschema() : vs_choice("other", 2) ? o.createSubschema() : o.root(); uint64_t k = vs_choice("op", 5); bool thrown = false; try { switch (k) { case 0: s.addConstraintToSubschema(m, t); break; case 1: s.setAlwaysInvalid(t, true); break; case 2: s.setSubschemaTitle(t, "t"); break; case 3: s.setSubschemaId(t, "t"); break; default: s.setSubschemaDescription(t, "d"); } } catch (const std::exception &) { thrown = true; }
  vs_reach("refused"); vs_assert(thrown, "foreign subschema modified"); J x = ji((int64_t)vs_sym("x", 8)); vs_assert(validates(s, x) && validates(o, x), "verdict changed");
}

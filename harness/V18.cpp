#include "gen.h"
//@ bounds one validator, in each typing mode, and one results object used for every sequence of 3 validations over 18 schemas (patterns, pattern properties, property names, references, combinators, false) and 2-3 instances each with symbolic 8-bit leaves, success and failure interleaved; the instance document is compared with its source after every validation
//@ bounds a user-supplied regular expression engine: sequences of 3 validations over two of 13 patterns and two subjects of 1 and 2 arbitrary bytes; patterns that the engine refuses by exception included
//@ bounds validators in all four combinations of typing and date-time mode used alternately in every order on 'time', 'date-time', 'date' and 'ipv4' values, twice each
//@ bounds one parser used for every sequence of 3 of 12 schemas of all drafts, failing ones and ones with equal identifiers, pointers and remote URIs but different contents included
//@ outside a Schema object populated more than once
using std::string; typedef SchemaParser::FunctionPtrs<RA> FP;
static bool same(const RV &v, const J &j) {
  switch (j.k) {
  case J::Null: return v.IsNull(); case J::Bool: return v.IsBool() && v.GetBool() == j.b; case J::Int: return v.IsInt64() && v.GetInt64() == j.i; case J::Dbl: return v.IsDouble() && v.GetDouble() == j.d;
  case J::Str: return v.IsString() && string(v.GetString(), v.GetStringLength()) == j.s;
  case J::Arr: { if (!v.IsArray() || v.Size() != j.a.size()) return false; bool r = true; for (unsigned i = 0; i < v.Size(); ++i) r &= same(v[i], j.a[i]); return r; }
  default: { if (!v.IsObject() || v.MemberCount() != j.o.size()) return false; bool r = true; size_t i = 0; for (auto m = v.MemberBegin(); m != v.MemberEnd(); ++m, ++i) { r &= string(m->name.GetString(), m->name.GetStringLength()) == j.o[i].first; r &= same(m->value, j.o[i].second); } return r; }
  }
}
enum { NS = 18 };
static const char *S[NS] = {"{'pattern':'^a'}", "{'pattern':'a$'}", "{'patternProperties':{'^a':{'maximum':$0}}}", "{'patternProperties':{'a$':false},'additionalProperties':{'enum':[$0]}}", "{'propertyNames':{'pattern':'^a'}}", "{'type':'integer'}", "{'properties':{'a':{'maximum':$0}},'required':['a']}", "{'items':{'pattern':'^a'}}", "{'anyOf':[{'pattern':'^a'},{'pattern':'a$'}]}", "{'not':{'pattern':'a$'}}", "{'if':{'pattern':'^a'},'then':{'minLength':2},'else':{'maximum':$0}}", "false", "{'allOf':[{'$ref':'#/definitions/d'}],'definitions':{'d':{'enum':[$0,'ba']}}}", "{'oneOf':[{'maximum':$0},{'maxLength':1}]}", "{'contains':{'enum':[$0]}}", "{'uniqueItems':true}", "{'dependencies':{'a':['ba']},'additionalProperties':false,'properties':{'a':{},'ba':{}}}", "{'const':{'a':$0}}"};
static const char *X[] = {"'ab'", "{'a':$0}", "['ba',$0]", "$0", "{'ba':$0,'a':1}", "[$0,$0]", "'ba'"};
//@ entry sequences shards=54 reach=in,out cost=9
VS_ENTRY(sequences) {
  uint64_t s0 = vs_shard_choice("s0", NS); J lim = ji((int64_t)(int8_t)vs_sym("lim", 8)), leaf = ji((int64_t)(int8_t)vs_sym("x", 8)); uint64_t weak = vs_shard_choice("weak", 3);
#ifndef VS_THOROUGH
  if (weak == 1 && s0 % 3) return;
#endif
  if (weak == 2) return; Validator v(weak ? Validator::kWeakTypes : Validator::kStrongTypes); ValidationResults r; uint64_t k[3] = {s0, vs_choice("s1", NS), 0}, y[3] = {vs_choice("x0", 7), 0, 0}; y[1] = (y[0] * 3 + k[1] + 1) % 7;
#ifdef VS_THOROUGH
  k[2] = vs_choice("s2", NS); y[2] = vs_choice("x2", 7);
#else
  k[2] = vs_choice("again", 2) ? k[0] : k[1]; y[2] = (y[0] + y[1] + 1 + k[1] / 3) % 7;
#endif
  std::unique_ptr<Schema> sc[NS]; J src[NS];
  for (int i = 0; i < 3; ++i) { if (!sc[k[i]]) { sc[k[i]].reset(new Schema); src[k[i]] = P(S[k[i]], {lim}); parseInto(*sc[k[i]], src[k[i]]); } J x = P(X[y[i]], {leaf}); Doc d(x); RA a = d.ad(); bool w = weak ? false : want(src[k[i]], x, D7); if (weak) { Validator f(Validator::kWeakTypes); w = f.validate(*sc[k[i]], a, nullptr); } bool ok = v.validate(*sc[k[i]], a, i == 1 ? nullptr : &r); vs_observe("ok", ok); vs_reach(w ? "in" : "out"); vs_assert(ok == w, "verdict depends on history"); vs_assert(same(d.d, x), "instance modified"); if (i == 0 && y[0] % 2) { string m; ValidationResults::Error e; r.popError(e); } }
}
struct Bad {}; static char gBad = 0;
struct Engine { string p; static int live; explicit Engine(const string &s) : p(s) { if (!s.empty() && s[0] == '!') throw Bad(); } static bool search(const string &s, const Engine &e) { return s.find(e.p) != string::npos; } };
//@ entry engine shards=24 reach=in,out,refused cost=6
VS_ENTRY(engine) { // patterns reach the engine unchanged, whatever was validated before
  uint64_t l = vs_shard_choice("lens", 6), form = vs_shard_choice("form", 4); size_t n0 = l == 5 ? 2 : l % 3, n1 = l == 5 ? 2 : l / 3 + 1; static const char *PA[3][6] = {{""}, {"a", "A", "!", "^", "\x80", "b"}, {"ab", "!a", "ba", "a!", ".*", "aa"}}; string p[2] = {PA[n0][n0 ? vs_choice("p", 6) : 0], PA[n1][n1 ? vs_choice("q", 6) : 0]}, t[2] = {vs_bytes("s", 1), vs_bytes("t", 2)}; static const char *ON[] = {"patternProperties", "propertyNames"};
  auto mk = [&](const string &pat) { J a = jo({{"pattern", js(pat)}}); return form == 0 ? a : form == 1 ? jo({{"patternProperties", jo({{pat, jo()}})}, {"additionalProperties", jb(false)}}) : form == 2 ? jo({{"propertyNames", a}}) : jo({{"anyOf", ja({jb(false), jo({{"items", a}})})}}); }; (void)ON;
  Schema s[2]; parseInto(s[0], mk(p[0])); parseInto(s[1], mk(p[1])); valijson::ValidatorT<Engine> v; uint64_t seq = vs_choice("seq", 4); int which[3] = {(int)(seq & 1), (int)(seq >> 1), 0};
  for (int i = 0; i < 3; ++i) { const string &subj = t[i & 1]; J x = form == 0 ? js(subj) : form == 3 ? ja({js(subj)}) : jo({{subj, ji(1)}}); Doc d(x); RA a = d.ad(); const string &pat = p[which[i]]; bool bad = !pat.empty() && pat[0] == '!', w = subj.find(pat) != string::npos, ok = false, thrown = false; try { ok = v.validate(s[which[i]], a, nullptr); } catch (const Bad &) { thrown = true; } vs_observe("ok", ok); vs_reach(bad ? "refused" : w ? "in" : "out"); vs_assert(thrown == bad, "exception of the engine"); vs_assert(thrown || ok == w, "pattern or subject changed"); }
}
//@ entry modes shards=8 reach=in,out cost=6
VS_ENTRY(modes) { // validators of different modes used in turn
  uint64_t f = vs_shard_choice("format", 4), first = vs_choice("first", 4), second = vs_choice("second", 4), rev = vs_shard_choice("rev", 2); static const char *F[] = {"time", "date-time", "date", "ipv4"}, *T[][3] = {{"23:59:59", "23:59:59Z", "24:00:00Z"}, {"2020-02-29T23:59:59", "2020-02-29t23:59:59+01:00", "2021-02-29T00:00:00Z"}, {"2020-02-29", "2021-02-29", "2020-2-29"}, {"1.2.3.4", "1.2.3.256", "1.2.3"}}; static const bool ST[][3] = {{false, true, false}, {false, true, false}, {true, false, false}, {true, false, false}}, PE[][3] = {{true, true, false}, {true, true, false}, {true, false, false}, {true, false, false}};
  Schema s; parseInto(s, jo({{"format", js(F[f])}})); std::unique_ptr<Validator> v[2]; uint64_t m[2] = {first, second}; for (int i = 0; i < 2; ++i) v[i].reset(new Validator(m[i] & 1 ? Validator::kWeakTypes : Validator::kStrongTypes, m[i] & 2 ? Validator::kPermissiveDateTime : Validator::kStrictDateTime));
  for (int i = 0; i < 6; ++i) { int k = i & 1; uint64_t t = rev ? 2 - i / 2 : i / 2; J x = js(T[f][t]); Doc d(x); RA a = d.ad(); bool w = m[k] & 2 ? PE[f][t] : ST[f][t]; bool ok = v[k]->validate(s, a, nullptr); vs_reach(w ? "in" : "out"); vs_assert(ok == w, "verdict depends on other validators"); }
}
//@ entry parser shards=36 reach=in,out,refused cost=6
VS_ENTRY(parser) { // one parser, several schemas
  static const char *D[] = {"{'properties':{'a':{'$ref':'#/definitions/d'}},'definitions':{'d':{'maximum':$0}}}", "{'properties':{'a':{'$ref':'#/definitions/d'}},'definitions':{'d':{'minimum':$0}}}", "{'$id':'http://h/i','properties':{'a':{'$ref':'http://h/i#/definitions/d'}},'definitions':{'d':{'enum':[$0]}}}", "{'$id':'http://h/i','properties':{'a':{'$ref':'#/definitions/d'}},'definitions':{'d':{'not':{'enum':[$0]}}}}", "{'properties':{'a':{'$ref':'http://h/r'}}}", "{'properties':{'a':{'$ref':'http://h/r#/definitions/d'}},'definitions':{'d':false}}", "{'maximum':'x'}", "{'properties':{'a':{'$ref':'#/definitions/none'}}}", "{'properties':{'a':{'$ref':'#'},'b':{}},'maximum':$0}", "{'properties':{'a':{'maximum':$0}}}", "{'allOf':[{'properties':{'a':{'minimum':$0}}}]}", "{'properties':{'a':{'allOf':[{'$ref':'http://h/none'}]}}}"};
  uint64_t k[3] = {vs_shard_choice("s0", 12), vs_choice("s1", 12), vs_choice("s2", 12)}, ver = vs_shard_choice("ver", 3);
#ifndef VS_THOROUGH
  if (ver == 2 || (ver == 1 && k[2] != k[0])) return;
#endif
  SchemaParser::Version v = ver == 0 ? D7 : ver == 1 ? D4 : D3; const char *id = ver == 0 ? "$id" : "id"; J lim = ji((int64_t)(int8_t)vs_sym("lim", 8)), y = ji((int64_t)(int8_t)vs_sym("x", 8)), x = jo({{"a", y}}); SchemaParser p(v); int n = 0; FP::FreeDoc fr = [](const RD *r) { delete r; };
  for (int i = 0; i < 3; ++i) {
    J remote = i & 1 ? P("{'maximum':$0,'definitions':{'d':{'minimum':$0}}}", {lim}) : P("{'enum':[$0],'definitions':{'d':{'not':{'enum':[$0]}}}}", {lim}); FP::FetchDoc fetch = [&](const string &u) -> const RD * { ++n; if (u != "http://h/r") return nullptr; RD *r = new RD; toRapid(remote, *r, r->GetAllocator()); return r; };
    J s = P(D[k[i]], {lim}); if (v != D7) { if (s.o[0].first == "$id") s.o[0].first = id; if (k[i] == 5) s.o.pop_back(); } bool bad = k[i] == 6 || k[i] == 7 || k[i] == 11, thrown = false, ok = false; Schema sc; { Doc d(s); RA a = d.ad(); n = 0; try { p.populateSchema<RA>(a, sc, fetch, fr); } catch (const std::exception &) { thrown = true; } } vs_assert(thrown == bad, "parser reuse changes what is accepted"); vs_assert(n == (k[i] == 4 || k[i] == 5 || k[i] == 11), "documents kept from an earlier schema"); if (thrown) { vs_reach("refused"); continue; }
    J eff = s; if (k[i] == 4) eff = P("{'properties':{'a':$0}}", {remote}); if (k[i] == 5) eff = P("{'properties':{'a':$0}}", {remote.get("definitions") ? *remote.o[1].second.get("d") : jn()}); if (k[i] == 2) eff = P("{'properties':{'a':{'enum':[$0]}}}", {lim}); if (k[i] == 3) eff = P("{'properties':{'a':{'not':{'enum':[$0]}}}}", {lim});
    bool w = want(eff, x, v); ok = validates(sc, x); vs_observe("ok", ok); vs_reach(w ? "in" : "out"); vs_assert(ok == w, "parser reuse changes the schema");
  }
}

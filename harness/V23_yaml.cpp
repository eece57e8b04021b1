//@ irflags -I$V/harness/stubs/yaml
//@ libs -lyaml-cpp
//@ stub yaml-cpp is modelled by stubs/yaml in the symbolic run; the native replays use the real library and have to agree
//@ bounds YAML nodes: strings of up to 3 arbitrary bytes, sequences of 0-3 of them, maps of 0-3 members with distinct names of up to 2 bytes, the keyword schemas and the constant schema templates of gen.h held in YAML
//@ outside the getBool, getDouble and getInteger functions of the YAML adapter, which use the conversions of yaml-cpp
#include "libs.h"
#include "conv.h"
#include <valijson/adapters/yaml_cpp_adapter.hpp>
typedef adapters::YamlCppAdapter YA;
static bool symbolic(const char *t) { for (; *t; ++t) if (*t == '$' && t[1] >= '0' && t[1] <= '9') return true; return false; }
static YAML::Node toY(const J &j) { switch (j.k) { case J::Null: return YAML::Node(); case J::Bool: return YAML::Node(string(j.b ? "true" : "false")); case J::Int: return YAML::Node(std::to_string(j.i)); case J::Str: return YAML::Node(j.s); case J::Arr: { YAML::Node r(YAML::NodeType::Sequence); for (auto &x : j.a) r.push_back(toY(x)); return r; } case J::Obj: { YAML::Node r(YAML::NodeType::Map); for (auto &p : j.o) r.force_insert(p.first, toY(p.second)); return r; } default: return YAML::Node(string(j.d == 0.5 ? "0.5" : j.d == 0.1 ? "0.1" : j.d == 2.5 ? "2.5" : "0.25")); } }
//@ entry yamlStrings shards=4 reach=int,num,none cost=5
VS_ENTRY(yamlStrings) { uint64_t n = vs_shard_choice("len", 4); string s = vs_bytes("s", n); Conv c = conv(s); vs_assume(c.known); vs_reach(c.isInt ? "int" : c.isNum ? "num" : "none"); if (!n) { vs_reach("int"); vs_reach("num"); } stringConversions(YA(YAML::Node(s)), s, c); }
//@ entry yamlContainers shards=8 reach=found,absent cost=3
VS_ENTRY(yamlContainers) {
  uint64_t n = vs_shard_choice("n", 8), c = n % 4; if (n < 4) { JV v; for (uint64_t i = 0; i < c; ++i) v.push_back(js(vs_bytes(("v" + std::to_string(i)).c_str(), 2))); vs_reach("found"); vs_reach("absent"); YAML::Node d = toY(ja(v)); YA a(d); vs_assert(a.isArray() && !a.isObject() && !a.isString() && !a.isNull() && a.getArraySize() == c && a.maybeArray() && a.maybeString() == !c && a.maybeObject() == !c, "a sequence"); auto arr = a.asArray(); vs_assert(arr.size() == c, "size"); size_t k = 0; for (auto e : arr) { vs_assert(k < c && e.isString() && e.asString() == v[k].s, "element"); ++k; } vs_assert(k == c, "elements iterated over"); auto it = arr.begin(); k = 0; while (it != arr.end()) { auto old = it++; vs_assert((*old).asString() == v[k].s && old->asString() == v[k].s && !(old == it), "iterator"); ++k; } auto at = arr.begin(); at.advance((std::ptrdiff_t)c); vs_assert(at == arr.end(), "advance");
    size_t m = 0; bool all = a.applyToArray([&](const Adapter &e) { vs_assert(e.asString() == v[m].s, "element applied to"); return ++m != 2; }); vs_assert(m == (c < 2 ? c : 2) && all == (c < 2), "applyToArray"); return; }
  JO o; for (uint64_t i = 0; i < c; ++i) { string nm = vs_bytes(("m" + std::to_string(i)).c_str(), i ? vs_choice("len", 3) : 2); for (auto &p : o) vs_assume(p.first != nm); o.push_back({nm, js(vs_bytes(("v" + std::to_string(i)).c_str(), 2))}); } string q = vs_bytes("q", vs_choice("qlen", 3)), wv; bool has = false; for (auto &p : o) if (p.first == q) { has = true; wv = p.second.s; } vs_reach(has ? "found" : "absent"); if (!c) vs_reach("found");
  YAML::Node d = toY(jo(o)); YA a(d); vs_assert(a.isObject() && !a.isArray() && !a.isString() && !a.isNull() && a.getObjectSize() == c && a.maybeObject() && a.maybeString() == !c && a.maybeArray() == !c, "a map"); auto obj = a.asObject(); vs_assert(obj.size() == c, "size"); auto it = obj.find(q); vs_observe("found", it != obj.end()); vs_assert((it != obj.end()) == has, "lookup"); if (it != obj.end()) vs_assert((*it).first == q && it->second.asString() == wv, "member looked up"); size_t k = 0; for (auto m : obj) { vs_assert(k < c && m.first == o[k].first && m.second.asString() == o[k].second.s, "member iterated over"); ++k; } vs_assert(k == c, "members iterated over");
  size_t m = 0; bool all = a.applyToObject([&](const string &nm, const Adapter &e) { vs_assert(nm == o[m].first && e.asString() == o[m].second.s, "member applied to"); return ++m != 2; }); vs_assert(m == (c < 2 ? c : 2) && all == (c < 2), "applyToObject"); YA none; vs_assert(none.isObject() && none.getObjectSize() == 0, "default adapter");
}
//@ entry yamlEqual shards=8 reach=eq,ne cost=3
VS_ENTRY(yamlEqual) { // strict comparison with a RapidJSON value made of strings, plain and frozen
  static const char *T[] = {"$0", "[$0,$1]", "{'a':$0,'b':$1}", "{'a':[$0,{'c':$1}]}", "[[$0],{'z':{}},[]]", "{'':null,'x':[null,$0]}", "[$1]", "[{'k':$0},{'k':$1}]"}; uint64_t t = vs_shard_choice("shape", 8), t2 = t, how = vs_choice("how", 3); if (vs_choice("differ", 2)) t2 = (t + 1 + vs_choice("other", 7)) % 8; auto leaf = [&](const char *n, uint64_t l) { return js(vs_bytes(n, l)); };
  J x = P(T[t], {leaf("p", 2), leaf("q", 2)}), y = P(T[t2], {leaf("r", vs_choice("rl", 2) + 1), leaf("s", 2)}); if (vs_choice("swap", 2) && y.k == J::Obj && y.o.size() > 1) std::swap(y.o[0], y.o[1]); int w = eq(x, y); vs_assume(w != 2); vs_reach(w ? "eq" : "ne"); Doc e(y); bool r; if (how == 2) { std::unique_ptr<FrozenValue> f, g; { YAML::Node d = toY(x); f.reset(YA(d).freeze()); g.reset(f->clone()); f.reset(); if (d.IsSequence()) d.push_back(YAML::Node(string("changed"))); else if (d.IsMap()) d.force_insert("changed", YAML::Node()); } r = g->equalTo(e.ad(), true); } else { YAML::Node d = toY(x); r = how ? e.ad().equalTo(YA(d), true) : YA(d).equalTo(e.ad(), true); } vs_observe("equal", r); vs_assert(r == (w == 1), "equality with a YAML value");
}
//@ entry yamlKeywords shards=22 reach=in,out cost=4
VS_ENTRY(yamlKeywords) { // numbers written in a YAML schema or a YAML instance
  static const char *S[] = {"{'minimum':$0}", "{'maximum':$0}", "{'exclusiveMinimum':$0}", "{'exclusiveMaximum':$0}", "{'multipleOf':3}", "{'minLength':$0}", "{'maxItems':$0}", "{'type':'integer','maximum':$0}", "{'not':{'type':'number','minimum':$0}}", "{'const':true}", "{'maxProperties':$0}"}; static const char *L[] = {"0", "7", "3", "12", "2147483648", "-9"};
  uint64_t k = vs_shard_choice("kw", 11), sy = vs_shard_choice("schemaInYaml", 2), l = vs_choice("literal", 6); Conv c = conv(L[l]); J n = ji(c.i), x;
  if (sy) { if (k == 4 || k == 9) return; if ((k == 5 || k == 6 || k == 10) && c.i > 12) return; if ((k == 5 || k == 6 || k == 10) && c.i < 0) return; J sc = P(S[k], {n}); x = k == 5 ? js(string(vs_choice("len", 5), 'x')) : k == 6 ? ja(JV(vs_choice("items", 5), ji(1))) : k == 10 ? (vs_choice("members", 2) ? P("{'a':1,'b':2}") : jo()) : ji((int64_t)vs_sym("x", 64)); bool w = want(sc, x, D7); vs_reach(w ? "in" : "out"); YAML::Node d = toY(sc); Schema s; { SchemaParser p(D7); p.populateSchema(YA(d), s); } bool ok = validates(s, x); vs_observe("ok", ok); vs_assert(ok == w, "schema in YAML"); return; }
  if (k == 5 || k == 6 || k == 10) return; J lim = ji((int64_t)vs_sym("limit", 64)), sc = P(S[k], {lim}); if (k == 9) n = jb(l & 1); bool w = want(sc, n, D7); vs_reach(w ? "in" : "out"); Schema s; parseInto(s, sc); YAML::Node d = toY(n); Validator v(Validator::kWeakTypes); ValidationResults r; bool ok = v.validate(s, YA(d), nullptr), ok2 = v.validate(s, YA(d), &r); vs_observe("ok", ok); vs_assert(ok == w && ok2 == w, "instance in YAML");
}
//@ entry yamlSchema shards=28 reach=in,out cost=5
VS_ENTRY(yamlSchema) { // a schema document in YAML, the instance in RapidJSON
  uint64_t t = vs_shard_choice("tpl", NTPL), dr = vs_choice("draft", 3); if (strncmp(TPL[t].s, "{'format'", 9) == 0 || string(TPL[t].s).find("enum") != string::npos || string(TPL[t].s).find("const") != string::npos) { vs_reach("in"); return; } Gen g; if (!tpl(g, t, dr)) return; if (symbolic(TPL[t].s)) return; bool w = want(g.s, g.x, g.v); vs_reach(w ? "in" : "out"); YAML::Node d = toY(g.s); Schema s; { SchemaParser p(g.v); p.populateSchema(YA(d), s); } bool ok = validates(s, g.x); vs_observe("ok", ok); vs_assert(ok == w, "schema in YAML");
}
static J strings(const J &j) { J r = j; if (j.k == J::Bool) return js(j.b ? "true" : "false"); if (j.k == J::Int) return js(std::to_string(j.i)); if (j.k == J::Dbl) return js(j.d == 1.5 ? "1.5" : j.d == 2.5 ? "2.5" : j.d == 1.25 ? "1.25" : j.d == 3.5 ? "3.5" : j.d == 99.5 ? "99.5" : "0.75"); for (auto &x : r.a) x = strings(x); for (auto &p : r.o) p.second = strings(p.second); return r; }
static bool blank(const J &j) { if (j.k == J::Null || (j.k == J::Str && j.s.empty()) || (j.k == J::Arr && j.a.empty()) || (j.k == J::Obj && j.o.empty())) return true; for (auto &x : j.a) if (blank(x)) return true; for (auto &p : j.o) if (blank(p.second) || p.first.empty()) return true; return false; }
static boost::property_tree::ptree toT(const J &j) { boost::property_tree::ptree t; if (j.k == J::Str) t.data() = j.s; for (auto &x : j.a) t.push_back({"", toT(x)}); for (auto &p : j.o) t.push_back({p.first, toT(p.second)}); return t; }
template <class A> static bool weakly(const Schema &s, const A &a, bool want) { Validator v(Validator::kWeakTypes); ValidationResults r; bool ok = v.validate(s, a, nullptr), ok2 = v.validate(s, a, &r); vs_observe("ok", ok); return ok == want && ok2 == want && (want == (r.numErrors() == 0) || !want); }
//@ entry weakLibraries shards=28 reach=in,out cost=5
VS_ENTRY(weakLibraries) { // an instance made of strings gets one weak verdict from every library
  uint64_t t = vs_shard_choice("tpl", NTPL), dr = vs_choice("draft", 3); Gen g; if (!tpl(g, t, dr)) return; if (symbolic(TPL[t].x[g.inst])) return; J x = strings(g.x); Schema s; parseInto(s, g.s, g.v); Doc d(x); Validator v(Validator::kWeakTypes); bool w = v.validate(s, d.ad(), nullptr); vs_reach(w ? "in" : "out"); vs_assert(weakly(s, d.ad(), w), "errors under weak typing"); YAML::Node y = toY(x); vs_assert(weakly(s, YA(y), w), "verdict on YAML"); if (!blank(x)) { boost::property_tree::ptree p = toT(x); vs_assert(weakly(s, adapters::PropertyTreeAdapter(p), w), "verdict on a property tree"); }
}
//@ entry weakEmpty shards=12 reach=in,out cost=2
VS_ENTRY(weakEmpty) { // an empty array, object or property tree node meets a keyword on containers like the empty container that the keyword is about
  static const char *S[] = {"{'additionalProperties':false}", "{'properties':{'a':{}},'additionalProperties':false}", "{'maxProperties':$0}", "{'minProperties':$0}", "{'required':['a']}", "{'dependencies':{'a':['b']}}", "{'propertyNames':false}", "{'maxItems':$0}", "{'minItems':$0}", "{'uniqueItems':true}", "{'items':[{}],'additionalItems':false}", "{'contains':true}"};
  uint64_t k = vs_shard_choice("kw", 12), how = vs_choice("how", 4); J s = P(S[k], {ji((int64_t)(vs_sym("n", 16)))}), own = k < 7 ? jo() : ja(); bool w = want(s, own, D7); vs_reach(w ? "in" : "out"); if (k != 2 && k != 3 && k != 7 && k != 8) { vs_reach("in"); vs_reach("out"); } if (k == 2 || k == 7) vs_reach("out"); Schema sc; parseInto(sc, s); vs_observe("w", w); Validator v(Validator::kWeakTypes);
  if (how == 3) { boost::property_tree::ptree t; vs_assert(weakly(sc, adapters::PropertyTreeAdapter(t), w), "empty property tree"); } else if (how == 2) { YAML::Node n(k & 1 ? YAML::NodeType::Sequence : YAML::NodeType::Map); vs_assert(weakly(sc, YA(n), w), "empty YAML node"); } else { Doc d(how ? ja() : jo()); vs_assert(weakly(sc, d.ad(), w), "empty container"); }
}

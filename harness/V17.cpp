#include "gen.h"
#include <map>
#include "large.h"
//@ bounds 83 schema templates covering every keyword of Drafts 3, 4 and 7 with up to 5 instances each and symbolic 8-bit leaves, at the root and nested in each of 21 contexts (thorough: in two contexts, every pair; quick: eight templates in every pair); member names of up to 3 arbitrary bytes at two levels, under properties, patternProperties, additionalProperties, items and references; arrays of up to 12 elements
//@ assume an error may point at any node at which a keyword, or a subschema applied to it, is violated; where every keyword on the way is a conjunction other than patternProperties (which stops at its first failure), each violated leaf keyword has an error at its node
//@ outside the wording of descriptions; deeper contexts
using std::string; typedef std::vector<string> SV;
static bool in(const SV &v, const string &s) { for (auto &x : v) if (x == s) return true; return false; }
static string esc(const string &n) { string r; for (char c : n) { if (c == '~') r += "~0"; else if (c == '/') r += "~1"; else r += c; } return r; }
static bool leafKw(const string &k, const J &w) { static const char *L[] = {"enum", "const", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "divisibleBy", "minLength", "maxLength", "pattern", "minItems", "maxItems", "uniqueItems", "minProperties", "maxProperties", "required"}; for (auto l : L) if (k == l) return true; if (k == "type") { if (w.k == J::Str) return true; if (w.k == J::Arr) { for (auto &t : w.a) if (t.k != J::Str) return false; return true; } } return false; }
struct Fails { // formats are left to V15: with one in the schema only the existence of the node is checked
  const Ref &r; SV any, must;
  void sub(const J &s, const J &x, const string &p, bool conj) { walk(s, x, p, conj); }
  void walk(const J &s, const J &x, const string &p, bool conj) {
    if (s.k == J::Bool) { if (!s.b) any.push_back(p); return; }
    if (const J *rf = s.get("$ref")) { const J *t = r.deref(rf->s); if (t) walk(*t, x, p, conj); return; }
    for (auto &kv : s.o) {
      const string &k = kv.first; const J &w = kv.second; if (k == "format") continue;
      if (!r.kw(s, k, w, x)) { any.push_back(p); if (conj && leafKw(k, w)) must.push_back(p); } else if (k != "properties" && k != "patternProperties" && k != "additionalProperties" && k != "then" && k != "else" && k != "anyOf" && k != "oneOf" && k != "if") { // a keyword that holds has no failures below it that may be reported
        continue; }
      if (k == "allOf" || (k == "extends" && r.v == D3)) { if (w.k == J::Obj) sub(w, x, p, conj); for (auto &e : w.a) sub(e, x, p, conj); }
      else if (k == "type") { if (w.k == J::Obj) sub(w, x, p, false); for (auto &e : w.a) if (e.k == J::Obj) sub(e, x, p, false); }
      else if ((k == "anyOf" || k == "oneOf") && !r.kw(s, k, w, x)) { for (auto &e : w.a) sub(e, x, p, false); }
      else if (k == "if") { bool c = r.ok(w, x); if (const J *t = s.get(c ? "then" : "else")) sub(*t, x, p, conj); }
      else if (k == "contains" && x.k == J::Arr) { for (size_t i = 0; i < x.a.size(); ++i) sub(w, x.a[i], p + "/" + std::to_string(i), false); }
      else if (k == "items" && x.k == J::Arr) { const J *ai = s.get("additionalItems"); for (size_t i = 0; i < x.a.size(); ++i) { string q = p + "/" + std::to_string(i); if (w.k != J::Arr) sub(w, x.a[i], q, conj); else if (i < w.a.size()) sub(w.a[i], x.a[i], q, conj); else if (ai) sub(*ai, x.a[i], q, conj); } }
      else if ((k == "properties" || k == "patternProperties" || k == "additionalProperties") && x.k == J::Obj) {
        const J *ps = s.get("properties"), *pp = s.get("patternProperties"); if (k == "properties" && r.v == D3) for (auto &d : w.o) if (const J *q = d.second.get("required")) if (q->b && !x.get(d.first) && conj) must.push_back(p);
        for (auto &m : x.o) { string q = p + "/" + esc(m.first); bool cov = false; if (ps && ps->get(m.first)) { cov = true; if (k == "properties") sub(*ps->get(m.first), m.second, q, conj); } if (pp) for (auto &d : pp->o) if (rxFind(d.first, m.first)) { cov = true; if (k == "patternProperties") sub(d.second, m.second, q, false); } if (k == "additionalProperties" && !cov) { sub(w, m.second, q, conj); if (w.k == J::Bool && !w.b) any.push_back(p); } }
      }
      else if (k == "dependencies" && x.k == J::Obj) for (auto &d : w.o) if (r.has(x, d.first)) { if (d.second.k == J::Obj || d.second.k == J::Bool) sub(d.second, x, p, conj); else if (conj) { if (d.second.k == J::Str) { if (!r.has(x, d.second.s)) must.push_back(p); } else for (auto &n : d.second.a) if (!r.has(x, n.s)) must.push_back(p); } }
    }
  }
};
// RFC 6901 evaluation without percent-encoding; the context that belongs to it
static const J *at(const J &x, const string &p, SV &ctx) {
  const J *n = &x; ctx.push_back("<root>"); size_t i = 0;
  while (i < p.size()) { if (p[i] != '/') return nullptr; string t; for (++i; i < p.size() && p[i] != '/'; ++i) { if (p[i] == '~') { ++i; if (i == p.size() || (p[i] != '0' && p[i] != '1')) return nullptr; t += p[i] == '0' ? '~' : '/'; } else t += p[i]; }
    if (n->k == J::Obj) { n = n->get(t); if (!n) return nullptr; ctx.push_back("[\"" + t + "\"]"); } else if (n->k == J::Arr) { if (t.empty() || t.size() > 3 || (t[0] == '0' && t.size() > 1)) return nullptr; size_t v = 0; for (char c : t) { if (c < '0' || c > '9') return nullptr; v = v * 10 + (size_t)(c - '0'); } if (v >= n->a.size()) return nullptr; n = &n->a[v]; ctx.push_back("[" + t + "]"); } else return nullptr; }
  return n;
}
static bool hasFormat(const J &s) { for (auto &m : s.o) if (m.first == "format" || hasFormat(m.second)) return true; for (auto &e : s.a) if (hasFormat(e)) return true; return false; }
static void check(const J &s, const J &x, SchemaParser::Version v) {
  Schema sc; parseInto(sc, s, v); Doc d(x); RA a = d.ad(); Validator val; ValidationResults r; bool ok = val.validate(sc, a, &r); vs_observe("ok", ok); vs_observe("errors", r.numErrors()); vs_reach(ok ? "valid" : "invalid"); if (ok) return;
  Ref ref(s, v); Fails f{ref, {}, {}}; bool fmt = hasFormat(s); f.walk(s, x, "", true); SV got; ValidationResults::Error e;
  while (r.popError(e)) { SV ctx; const J *n = at(x, e.jsonPointer, ctx); vs_assert(n != nullptr, "error points at no node"); vs_assert(ctx == e.context, "context does not match the pointer"); vs_assert(in(f.any, e.jsonPointer) || fmt, "error at a node that violates nothing"); got.push_back(e.jsonPointer); }
  for (auto &m : f.must) vs_assert(in(got, m), "no error at the node that violates a leaf keyword");
}
//@ entry keywords shards=83 reach=valid,invalid cost=9
VS_ENTRY(keywords) { uint64_t t = vs_shard_choice("tpl", NTPL), dr = vs_choice("draft", 3); Gen g; if (!tpl(g, t, dr)) return; uint64_t w = vs_choice("wrap", NWRAP); if (heavy(t, dr, w) || !wrap(g, w)) return; check(g.s, g.x, g.v); }
//@ entry twice shards=83 reach=valid,invalid cost=9 tier=thorough
VS_ENTRY(twice) { uint64_t t = vs_shard_choice("tpl", NTPL), dr = vs_choice("draft", 3); Gen g; if (!tpl(g, t, dr)) return; if (!wrap(g, 1 + vs_choice("wrap", NWRAP - 1))) return; if (!wrap(g, 1 + vs_choice("wrap2", NWRAP - 1))) return; check(g.s, g.x, g.v); }
//@ entry quicktwice shards=21 reach=valid,invalid cost=9 tier=quick
VS_ENTRY(quicktwice) {
  static const char *S[] = {"{'enum':[$0]}", "{'type':[{'type':'string'},{'enum':[$0]}]}", "{'maximum':$0,'type':'string'}", "{'properties':{'a':{'enum':[$0]}},'additionalProperties':false}", "{'items':[{'enum':[$0]}],'additionalItems':false}", "{'required':['a'],'minProperties':1}", "{'additionalProperties':{'maximum':$0}}", "{'anyOf':[{'items':{'maximum':$0}},{'minItems':3}]}"}; static const char *X[] = {"$1", "$1", "$1", "{'a':$1}", "[$1,1]", "{}", "{'x/':$1,'~':1}", "[1,$1]"};
  uint64_t w2 = vs_shard_choice("wrap2", NWRAP), t = vs_choice("tpl", 8); Gen g; g.conj = true; JV a{ji((int64_t)vs_sym("v0", 8)), ji((int64_t)vs_sym("v1", 8))}; g.v = t == 1 ? D3 : D7; g.s = P(S[t], a); g.x = P(X[t], a);
  if (!wrap(g, 1 + vs_choice("wrap", NWRAP - 1)) || !wrap(g, w2)) return; check(g.s, g.x, g.v);
}
//@ entry names shards=30 reach=invalid cost=6
VS_ENTRY(names) { // arbitrary bytes in member names
  uint64_t k = vs_shard_choice("form", 6), l = vs_shard_choice("len", 4); string n = vs_bytes("n", l), m = vs_bytes("m", 1); J bad = P("{'type':'string'}"), x = jo({{n, jo({{m, ji(1)}})}}), s;
  if (k == 0) s = jo({{"properties", jo({{n, jo({{"properties", jo({{m, bad}})}})}})}}); else if (k == 1) s = P("{'additionalProperties':{'additionalProperties':$0}}", {bad}); else if (k == 2) s = P("{'patternProperties':{'':{'patternProperties':{'.|\n':$0}}}}", {bad}); else if (k == 3) { s = P("{'items':{'additionalProperties':{'properties':$0,'additionalProperties':true}}}", {jo({{m, bad}})}); x = ja({jo({}), x}); }
  else if (k == 4) s = P("{'additionalProperties':{'$ref':'#/definitions/a'},'definitions':{'a':{'additionalProperties':$0}}}", {bad}); else s = P("{'additionalProperties':{'additionalProperties':false,'maxProperties':0}}");
  check(s, x, D7);
}
//@ entry index shards=12 reach=invalid cost=3
VS_ENTRY(index) { // the right element of an array
  uint64_t n = 1 + vs_shard_choice("n", 12); uint64_t b = vs_choice("bad", n), f = vs_choice("form", 3); J x = ja(); for (uint64_t i = 0; i < n; ++i) x.a.push_back(i == b ? js("s") : ji(i == (b + 1) % n ? (int64_t)vs_sym("v", 8) : 7)); J s = f == 0 ? P("{'items':{'maximum':100,'type':'integer'}}") : f == 1 ? P("{'items':[{}],'additionalItems':{'type':'integer','maximum':100}}") : P("{'properties':{'k':{'items':{'items':{'type':'integer'}}}}}"); if (f == 2) x = jo({{"k", ja({ja(), x})}}); if (f == 1 && b == 0 && n < 4) return; check(s, x, D7);
}
//@ bounds arrays and objects of 17, 65 and 260 elements or members with a symbolic one at the first, middle or last places; instances nested to depth 65 and 130
//@ entry large shards=15 reach=valid,invalid cost=4
VS_ENTRY(large) {
  uint64_t z = vs_shard_choice("size", 3), n = LG_N[z], k = vs_shard_choice("kind", 5), p = lgPos(n); J v = lgInt("x"), lim = lgInt("c"), s, x; JV a, it; JO o, pr; for (uint64_t i = 0; i < n; ++i) { a.push_back(i == p ? v : ji(-40000)); o.push_back({lgName(i), a.back()}); it.push_back(jo({{"maximum", i == p ? lim : ji(0)}})); pr.push_back({lgName(i), it.back()}); }
  switch (k) { case 0: s = jo({{"items", jo({{"maximum", lim}})}}); x = ja(a); break; case 1: it.resize(n / 2); s = jo({{"items", ja(it)}, {"additionalItems", jo({{"maximum", lim}})}}); x = ja(a); break; case 2: s = jo({{"properties", jo(pr)}}); x = jo(o); break; case 3: pr.resize(n / 2); s = jo({{"properties", jo(pr)}, {"additionalProperties", jo({{"maximum", lim}})}}); x = jo(o); break;
  default: { uint64_t dep = z == 2 ? 130 : n; s = jo({{"maximum", lim}}); x = v; for (uint64_t i = 0; i < dep; ++i) { if (i & 1) { s = jo({{"items", s}}); x = ja({x}); } else { s = jo({{"properties", jo({{"a~/", s}})}}); x = jo({{"a~/", x}}); } } break; } }
  check(s, x, D7);
}
//@ bounds documents with 65 and 1100 (thorough also 300 and 5000) nodes that violate a keyword, all but one of them by one symbolic value, in arrays, in object members and in two branches of allOf
//@ entry crowd shards=6 reach=valid,invalid cost=5
VS_ENTRY(crowd) { // every one of very many errors is there
#ifdef VS_THOROUGH
  static const uint64_t N[] = {65, 300, 1100, 5000};
#else
  static const uint64_t N[] = {65, 1100};
#endif
  uint64_t f = vs_shard_choice("form", 3), n = N[vs_shard_choice("n", sizeof N / sizeof *N)], p = lgPos(n); J v = lgInt("v"), w = lgInt("w"), lim = lgInt("lim"), x, leaf = jo({{"maximum", lim}}), s; std::vector<string> where(n);
  for (uint64_t i = 0; i < n; ++i) { J y = i == p ? w : v; if (f == 1) { string k = lgName(i); x.k = J::Obj; x.o.emplace_back(k, y); where[i] = "/" + k; } else { x.k = J::Arr; x.a.push_back(y); where[i] = "/" + std::to_string(i); } }
  s = f == 0 ? jo({{"items", leaf}}) : f == 1 ? jo({{"additionalProperties", leaf}}) : jo({{"allOf", ja({jo({{"items", leaf}}), jo({{"items", ja({leaf})}, {"additionalItems", leaf}})})}});
  bool bv = v.i > lim.i, bw = w.i > lim.i; Schema sc; parseInto(sc, s, D7); Doc d(x); Validator val; ValidationResults r; bool ok = val.validate(sc, d.ad(), &r); vs_reach(ok ? "valid" : "invalid"); vs_observe("ok", ok); vs_observe("errors", r.numErrors());
  std::map<string, int> got; ValidationResults::Error e; while (r.popError(e)) ++got[e.jsonPointer]; uint64_t missing = 0; bool extra = false;
  for (uint64_t i = 0; i < n; ++i) { bool bad = i == p ? bw : bv, has = got.count(where[i]) != 0; if (bad != has) { if (has) extra = true; else ++missing; } }
  vs_assert(!missing, "one of many violated keywords has no error"); vs_assert(!extra, "error at a node that violates nothing");
}

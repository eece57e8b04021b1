#include "api.h"
#include <valijson/constraint_builder.hpp>
//@ bounds failure of any one allocation (its number is a symbolic 16-bit value, every one that is reached is explored) while parsing each of the 83 schema templates of gen.h, plain and in 5 contexts (thorough: in all 21), and 8 larger schemas with references, identifiers and remote documents
//@ bounds failure of any one allocation while validating, with and without a results object, an instance of each template; while building and cloning every class of constraint through the construction API, moving, and copying results
//@ bounds user-supplied allocation functions that fail at any one call, or only count, for every constraint class added to the root and to subschemas
//@ outside failures of allocations that RapidJSON makes with malloc; failures inside the C++ runtime's exception allocation; more than one failure in a run; regular expressions of format keywords that are compiled once per process
using std::string; using namespace valijson; using namespace valijson::constraints; typedef SchemaParser::FunctionPtrs<RA> FP;
static void warm() { vs_observe("warm", accepts(P("{'format':'ipv4'}"), js("1.2.3.4"), D7)); } // the regular expression of the format is compiled once per process
static bool mayMove() { return vs_choice("move", 2); }
static bool once(const J &s) { for (auto &m : s.o) if (m.first == "format" || m.first == "pattern" || m.first == "patternProperties" || once(m.second)) return true; for (auto &m : s.a) if (once(m)) return true; return false; }
// ---- parsing
static void parsing(const J &schema, const J &x, SchemaParser::Version v, bool use) {
  Doc d(schema), dx(x); RA a = d.ad(), ax = dx.ad(); { Schema w; SchemaParser p(v); p.populateSchema(a, w); } uint64_t base = vs_live(), k = vs_sym("k", 16); bool ok = false;
  { SchemaParser p(v); { Schema s; vs_fail_alloc(k); try { p.populateSchema(a, s); ok = true; } catch (const std::exception &) {} vs_fail_alloc(0); vs_observe("ok", ok); vs_reach(ok ? "ok" : "failed"); if (use) { Validator val; val.validate(s, ax, nullptr); } }
    vs_assert(vs_live() == base, "memory leaked after a failed parse"); if (use) { Schema s; p.populateSchema(a, s); Validator val; vs_assert(val.validate(s, ax, nullptr) == want(schema, x, v), "verdict of a schema parsed after a failure"); } }
  vs_assert(vs_live() == base, "memory leaked");
}
#ifdef VS_THOROUGH
static const uint64_t W[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}; enum { NW = NWRAP };
#else
static const uint64_t W[] = {0, 3, 6, 9, 11, 15}; enum { NW = 6 };
#endif
//@ entry parse shards=83 reach=ok,failed cost=9
VS_ENTRY(parse) { uint64_t t = vs_shard_choice("tpl", NTPL); Gen g; uint64_t dr = TPL[t].drafts & 1 ? 0 : TPL[t].drafts & 2 ? 1 : 2; JV c; for (int i = 0; i < 3; ++i) c.push_back(ji(i + 3)); g.s = P(TPL[t].s, c); g.x = P(TPL[t].x[0], c); g.v = gver(dr); if (!wrap(g, W[vs_choice("wrap", NW)])) return; parsing(g.s, g.x, g.v, !once(g.s)); }
//@ entry validate shards=83 reach=ok,failed cost=9
VS_ENTRY(validate) { // an allocation fails while an instance is validated
  uint64_t t = vs_shard_choice("tpl", NTPL), dr = TPL[t].drafts & 1 ? 0 : TPL[t].drafts & 2 ? 1 : 2, n = tplInst(TPL[t]), i = vs_choice("inst", n), res = vs_choice("results", 2); 
#ifndef VS_THOROUGH
  if (i > 1) return;
#endif
  JV c; for (int j = 0; j < 3; ++j) c.push_back(ji(j == 1 ? 9 : 3)); J s = P(TPL[t].s, c), x = P(TPL[t].x[i], c); if (once(s) && strncmp(TPL[t].s, "{'format'", 9) == 0) return;
  Schema sc; parseInto(sc, s, gver(dr)); Doc d(x); RA a = d.ad(); bool w = want(s, x, gver(dr)); { Validator warm; warm.validate(sc, a, nullptr); } uint64_t base = vs_live(), k = vs_sym("k", 16); bool ok = false;
  { Validator v; { ValidationResults r; vs_fail_alloc(k); try { bool y = v.validate(sc, a, res ? &r : nullptr); ok = true; vs_assert(y == w, "verdict"); } catch (const std::exception &) {} vs_fail_alloc(0); vs_observe("ok", ok); vs_reach(ok ? "ok" : "failed"); }
    vs_assert(v.validate(sc, a, nullptr) == w, "verdict of a validator after a failure"); }
  vs_assert(vs_live() == base, "memory leaked");
}
//@ entry api shards=34 reach=ok,failed cost=6
VS_ENTRY(api) { // an allocation fails while a schema is built by hand
  uint64_t k = vs_shard_choice("c", NAPI); if (k == 31) warm(); uint64_t base = vs_live(); uint64_t f = vs_sym("k", 16); { J schema, xj; bool ok = false; SchemaParser::Version ver = D7;
  { std::unique_ptr<Schema> s(new Schema); bool sub = vs_choice("sub", 2); const Subschema *at = sub ? s->createSubschema() : s->root(); if (sub) { AllOfConstraint c; c.addSubschema(at); s->addConstraint(c); }
    { Api a{*s, at, sub, 3, 5, J(), ji(4), D7, nullptr, nullptr}; vs_fail_alloc(f); try { a.run(k); ok = true; } catch (const std::exception &) {} vs_fail_alloc(0); schema = a.schema; xj = a.x; ver = a.ver; }
    vs_reach(ok ? "ok" : "failed"); vs_observe("ok", ok); { J i = ji(4); validates(*s, i); } if (ok) vs_assert(validates(*s, xj) == accepts(schema, xj, ver), "verdict");
    Schema t; { Api a{t, t.root(), false, 3, 5, J(), ji(4), D7, nullptr, nullptr}; a.run(k); vs_assert(validates(t, a.x) == accepts(a.schema, a.x, a.ver), "verdict of a schema built after a failure"); if (mayMove()) { *s = std::move(t); vs_assert(validates(*s, a.x) == accepts(a.schema, a.x, a.ver), "verdict of a schema moved after a failure"); } } }
  } vs_assert(vs_live() == base, "memory leaked");
}
static struct Book { uint64_t calls, fail, live, bad; void *p[600]; } B;
static void *take(size_t n) { if (++B.calls == B.fail) return nullptr; void *p = malloc(n); for (auto &q : B.p) if (!q) { q = p; ++B.live; return p; } ++B.bad; return p; }
static void give(void *p) { if (!p) return; for (auto &q : B.p) if (q == p) { q = nullptr; --B.live; free(p); return; } ++B.bad; }
//@ entry custom shards=34 reach=ok,failed cost=6
VS_ENTRY(custom) { // user allocation functions, one call of which fails
  uint64_t k = vs_shard_choice("c", NAPI), own = vs_choice("own", 3); if (k == 31) warm(); uint64_t base = vs_live(); B = Book(); B.fail = vs_sym("k", 16); { J schema, xj; bool ok = false; SchemaParser::Version ver = D7;
  { std::unique_ptr<Schema> s; try { if (own == 1) s.reset(new Schema); else s.reset(new Schema(take, give)); bool sub = vs_choice("sub", 2); const Subschema *at = sub ? s->createSubschema() : s->root(); if (sub) { AllOfConstraint c(take, give); c.addSubschema(at); s->addConstraint(c); }
      Api a{*s, at, sub, 3, 5, J(), ji(4), D7, own == 2 ? nullptr : take, give}; a.run(k); schema = a.schema; xj = a.x; ver = a.ver; ok = true; } catch (const std::exception &) {}
    vs_reach(ok ? "ok" : "failed"); vs_observe("ok", ok); if (ok) { vs_assert(validates(*s, xj) == accepts(schema, xj, ver), "verdict"); uint64_t mv = vs_choice("move", 3); if (mv == 1) { Schema t(std::move(*s)); s.reset(); vs_assert(validates(t, xj) == accepts(schema, xj, ver), "verdict after a move"); } else if (mv == 2) { Schema t; t = std::move(*s); vs_assert(validates(t, xj) == accepts(schema, xj, ver), "verdict after a move"); s.reset(); vs_assert(validates(t, xj) == accepts(schema, xj, ver), "verdict after a move"); } } }
  } vs_assert(!B.live, "memory of the user's allocation function not returned"); vs_assert(!B.bad, "memory returned to the wrong function"); vs_assert(vs_live() == base, "memory leaked");
}
static ValidationResults::Error err(std::vector<string> c, string p, string d) { ValidationResults::Error e; e.context = c; e.jsonPointer = p; e.description = d; return e; }
//@ entry results shards=6 reach=ok,failed cost=3
VS_ENTRY(results) { // an allocation fails while errors are copied, pushed or moved
  uint64_t op = vs_shard_choice("op", 6), n = vs_choice("n", 4), base = vs_live(), f = vs_sym("k", 16); bool ok = false;
  { ValidationResults r, o; for (uint64_t i = 0; i < n; ++i) r.pushError(err({"<root>", "[\"a rather long member name that needs memory\"]"}, "#/pointer/that/is/long/enough", "description of the problem number " + std::to_string(i))); o.pushError(err({"x"}, "y", "z")); size_t m = 0;
    vs_fail_alloc(f); try { switch (op) { case 0: { ValidationResults c(r); m = c.numErrors(); break; } case 1: o = r; m = o.numErrors(); break; case 2: { ValidationResults c(std::move(r)); m = c.numErrors(); break; } case 3: r.pushError(err({"<root>"}, "", "a description that is long enough to need memory")); m = r.numErrors() - 1; break; case 4: { ValidationResults::Error e; m = n; if (r.popError(e)) { --m; vs_assert(e.description == "description of the problem number 0", "first error"); } m = r.numErrors() + (n ? 1 : 0); break; } default: { m = 0; for (auto &e : r) { string s = e.description + e.jsonPointer; for (auto &c : e.context) s += c; m += !s.empty(); } } } ok = true; } catch (const std::exception &) {} vs_fail_alloc(0);
    vs_observe("ok", ok); vs_reach(ok ? "ok" : "failed"); if (ok) vs_assert(m == n, "number of errors"); else if (op != 2 && op != 4) vs_assert(r.numErrors() == n || (op == 3 && r.numErrors() == n + 1), "errors lost after a failure"); }
  vs_assert(vs_live() == base, "memory leaked");
}
//@ entry larger shards=24 reach=ok,failed cost=6
VS_ENTRY(larger) { // an allocation, or a call of the user's allocation function, fails while a schema with references is parsed
  static const char *S[] = {
    "{'$id':'http://h/r','title':'a title that does not fit','description':'a description that does not fit','properties':{'n':{'$ref':'#'},'d':{'$ref':'#/definitions/x'},'e':{'$ref':'s'}},'definitions':{'x':{'type':['string','integer'],'minimum':3},'y':{'$id':'s','enum':['a long string that does not fit',[1,{'a':[2]}],4]}}}",
    "{'properties':{'n':{'$ref':'http://h/q#/definitions/a'},'d':{'$ref':'http://h/q'},'e':{'$ref':'http://h/q#/definitions/b'}},'additionalProperties':false}",
    "{'allOf':[{'anyOf':[{'oneOf':[{'not':{'type':'string'}},{'const':{'d':[1,2,3]}}]},{'required':['a long name that does not fit in place']}]},{'dependencies':{'d':['e'],'e':{'minProperties':1}}}]}",
    "{'patternProperties':{'^d':{'maximum':9},'^a-long-pattern-that-does-not-fit':{}},'propertyNames':{'maxLength':20},'if':{'required':['d']},'then':{'properties':{'d':{'type':'integer'}}},'else':{'maxProperties':3}}",
    "{'items':[{'maximum':3},{'$ref':'#/items/0'}],'additionalItems':{'$ref':'#/items/1'},'contains':{'const':3},'uniqueItems':true,'minItems':1,'maxItems':9}",
    "{'properties':{'d':{'$ref':'http://h/q#/definitions/none'}}}", "{'properties':{'d':{'allOf':[{'$ref':'http://h/q'},{'type':'nothing'}]}}}", "{'properties':{'d':{'enum':[1,2],'required':['x','y','a long name that does not fit'],'dependencies':{'x':['y','y']}}},'required':['d','d']}"};
  uint64_t k = vs_shard_choice("schema", 8), mode = vs_shard_choice("mode", 3); J schema = P(S[k]), remote = P("{'properties':{'n':{'$ref':'#'}},'definitions':{'a':{'type':'object'},'b':{'$ref':'#/definitions/a'},'c':{'$id':'http://h/c','enum':['another long string that does not fit']}}}"), x = P(k == 4 ? "[3,2,1]" : "{'d':3,'e':['x']}");
  Doc d(schema), dr(remote), dx(x); RA a = d.ad(), ax = dx.ad(); bool ref = false, refOk = true; static int frees, fetches; frees = fetches = 0; typedef SchemaParser::FunctionPtrs<RA> FP; FP::FetchDoc fetch = [&](const string &) -> const RD * { ++fetches; return &dr.d; }; FP::FreeDoc fr = [&](const RD *) { ++frees; };
  auto run = [&](Schema &s, bool &v) { SchemaParser p(D7); p.populateSchema<RA>(a, s, fetch, fr); Validator val; v = val.validate(s, ax, nullptr); };
  try { Schema s; run(s, ref); } catch (const std::exception &) { refOk = false; } uint64_t base = vs_live(); frees = fetches = 0; B = Book(); bool ok = false, v = false; uint64_t f = vs_sym("k", 16);
  { std::unique_ptr<Schema> s; if (mode == 2) B.fail = f; try { if (mode) s.reset(new Schema(take, give)); else s.reset(new Schema); if (mode < 2) vs_fail_alloc(f); run(*s, v); ok = true; } catch (const std::exception &) {} vs_fail_alloc(0); B.fail = 0; vs_observe("ok", ok); vs_reach(ok ? "ok" : "failed"); vs_assert(fetches == frees, "document not freed"); if (ok) { vs_assert(refOk, "failure ignored"); vs_assert(v == ref, "verdict"); } if (s) { Validator val; val.validate(*s, ax, nullptr); }
    Schema t; bool again = false, ok2 = true; try { run(t, again); } catch (const std::exception &) { ok2 = false; } vs_assert(ok2 == refOk && again == ref, "parser unusable after a failure"); }
  vs_assert(!B.live && !B.bad, "memory of the user's allocation function not returned"); vs_assert(vs_live() == base, "memory leaked");
}

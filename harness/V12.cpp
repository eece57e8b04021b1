#include "gen.h"
//@ bounds every graph of references over a root and three documents in which each document has one of 11 forms (no reference, whole-document and fragment references, chains, cycles, several references to one document under different names, identifiers, malformed keywords, unresolvable pointers) and the root one of 8 forms, with the fetch callback succeeding, or returning null or throwing at any one of its first four calls (quick: failures, and pairs of the later forms, only for part of the graphs)
//@ bounds two references whose last two bytes are arbitrary, under every relative or absolute form of the stated list; failure of each allocation made while parsing of each of 4 workloads
//@ stub the callbacks are harness functions that record their calls; documents are RapidJSON documents deleted by the free callback, so a later use is a use after free
//@ outside chains of references that never leave the root of the document (known finding root-ref-cycle of V11), free callbacks that throw
using std::string; typedef SchemaParser::FunctionPtrs<RA> FP;
struct Boom { int n; };
struct Log { struct E { char uri[48]; const RD *doc; int frees; } e[12]; int n = 0, calls = 0, bad = 0, dup = 0; };
static Log L;
static void note(const string &u, const RD *d) { for (int i = 0; i < L.n; ++i) if (u == L.e[i].uri) ++L.dup; if (L.n < 12 && u.size() < 48) { strcpy(L.e[L.n].uri, u.c_str()); L.e[L.n].doc = d; L.e[L.n].frees = 0; ++L.n; } else ++L.bad; }
static void freed(const RD *d) { bool hit = false; for (int i = 0; i < L.n; ++i) if (d && L.e[i].doc == d) { ++L.e[i].frees; hit = true; if (L.e[i].frees == 1) delete d; } if (!hit) ++L.bad; }
typedef std::vector<std::pair<string, J>> Docs;
// fault: at that call (1..) return null (kind 1) or throw (kind 2)
static bool parse(const J &schema, const Docs &docs, int fault, int kind, SchemaParser::Version v, Schema &sc, int &boom) {
  L.n = L.calls = L.bad = L.dup = 0; Doc d(schema); RA a = d.ad(); SchemaParser p(v);
  FP::FetchDoc fetch = [&](const string &u) -> const RD * { ++L.calls; if (L.calls == fault) { note(u, nullptr); if (kind == 2) throw Boom{7}; return nullptr; } for (auto &e : docs) if (e.first == u) { std::unique_ptr<RD> r(new RD); toRapid(e.second, *r, r->GetAllocator()); note(u, r.get()); return r.release(); } note(u, nullptr); return nullptr; };
  FP::FreeDoc fr = [](const RD *r) { freed(r); };
  try { p.populateSchema<RA>(a, sc, fetch, fr); return true; } catch (const Boom &b) { boom = b.n; return false; } catch (const std::exception &) { return false; }
}
static void check() { vs_observe("fetches", L.calls); vs_assert(!L.dup, "document fetched twice"); vs_assert(!L.bad, "unknown document freed"); for (int i = 0; i < L.n; ++i) if (L.e[i].doc) vs_assert(L.e[i].frees == 1, "document not freed exactly once"); }
static J R(const string &r) { return jo({{"$ref", js(r)}}); }
static const char *U[] = {"http://h/a", "http://h/b", "http://h/d/c"};
enum { NF = 11, NR = 8 };
static J form(uint64_t f, int i, bool &chain) { string n = U[(i + 1) % 3], m = U[(i + 2) % 3]; chain = false;
  switch (f) {
  case 0: return P("{'maximum':5,'definitions':{'x':{},'y':{'minimum':1}}}"); case 1: chain = true; return P("{'$ref':$0,'definitions':{'x':{},'y':{'$ref':'#/definitions/x'}}}", {js(n)}); case 2: return P("{'allOf':[{'$ref':$0},{'$ref':$1}],'definitions':{'x':{},'y':{}}}", {js(n), js(m + "#")}); case 3: return P("{'properties':{'p':{'$ref':$0},'q':{'$ref':$1}},'definitions':{'x':{'$ref':$1},'y':{'$ref':'#/definitions/x'}}}", {js(n + "#/definitions/y"), js(m)});
  case 4: return P("{'items':{'$ref':'#'},'not':{'$ref':'#/definitions/y'},'definitions':{'x':{},'y':{'$ref':$0}}}", {js(n)}); case 5: return P("{'anyOf':[{'$ref':$0},{'type':7}],'definitions':{'x':{},'y':{'enum':3}}}", {js(n)}); case 6: return P("{'allOf':[{'$ref':'#/nowhere'}],'definitions':{'x':{},'y':{}}}"); case 7: return i == 2 ? P("{'items':[{'$ref':'../a'},{'$ref':'http://h/a#'},{'$ref':'../b#/definitions/x'}],'definitions':{'x':{},'y':{}}}") : P("{'items':[{'$ref':'d/../a'},{'$ref':'d/c#'},{'$ref':'./b#/definitions/x'}],'definitions':{'x':{},'y':{}}}");
  case 8: return P("{'$id':'http://h/d/z','items':{'$ref':'../a#/definitions/x'},'not':{'$ref':'c#/definitions/y'},'definitions':{'x':{},'y':{'$id':'w'}}}"); case 9: return P("[]"); default: return P("{'$ref':$0,'definitions':{'x':{},'y':{}}}", {js(m + "#/definitions/y")});
  }
}
//@ entry graphs shards=88 reach=ok,failed cost=9
VS_ENTRY(graphs) {
  uint64_t r = vs_shard_choice("root", NR), fa = vs_shard_choice("a", NF), fb = vs_choice("b", NF), fc = vs_choice("c", NF), kind = vs_choice("kind", 3); int fault = kind ? 1 + (int)vs_choice("fault", 4) : 0;
#ifndef VS_THOROUGH
  if (kind && fc != 0 && fc != 2 && fc != 7) return; if (kind && fb != 2 && fb != 7) return; if (!kind && (fc == 1 || fc == 4 || fc == 6 || fc == 8 || (fc > 4 && fb > 4))) return;
#endif
  bool ca, cb, cc; Docs d{{U[0], form(fa, 0, ca)}, {U[1], form(fb, 1, cb)}, {U[2], form(fc, 2, cc)}}; if (r < 2 && ca && cb && cc) return;
  J s; switch (r) {
  case 0: s = R(U[0]); break; case 1: s = P("{'$ref':'#/definitions/k','definitions':{'k':{'$ref':$0}}}", {js(U[0])}); break; case 2: s = P("{'allOf':[{'$ref':$0},{'$ref':$0},{'$ref':$1}]}", {js(U[0]), js(string(U[0]) + "#/definitions/x")}); break; case 3: s = P("{'$id':'http://h/','properties':{'p':{'$ref':'a'},'q':{'$ref':'b'},'r':{'$ref':'d/c'}}}"); break;
  case 4: s = P("{'additionalProperties':{'$ref':$0},'propertyNames':{'$ref':$1},'maximum':'x'}", {js(U[0]), js(U[1])}); break; case 5: s = P("{'items':[{'$ref':$0},{'$ref':$1}],'additionalItems':{'$ref':$2},'contains':{'$ref':$0}}", {js(U[2]), js(U[1]), js(U[0])}); break; case 6: s = P("{'if':{'$ref':$0},'then':{'$ref':$1},'else':{'$ref':'http://h/none'}}", {js(U[0]), js(U[2])}); break; default: s = P("{'$id':'http://h/d/r','dependencies':{'k':{'$ref':'c#/definitions/y'}},'patternProperties':{'p':{'$ref':'../b'}},'oneOf':[{'$ref':'../a#/definitions/y'}]}"); break;
  }
  Schema sc; int boom = 0; bool ok = parse(s, d, fault, (int)kind, D7, sc, boom); vs_observe("ok", ok); vs_reach(ok ? "ok" : "failed"); check(); vs_assert(boom == (kind == 2 && fault <= L.calls && fault ? 7 : 0), "exception of the fetch callback replaced"); vs_assert(!(ok && fault && fault <= L.calls), "failed fetch ignored");
  auto plain = [](uint64_t f) { return f == 0 || f == 3 || f == 7; }; if (ok && plain(fa) && plain(fb) && plain(fc)) { validates(sc, P("{'p':{'q':[1,2]},'k':1}")); validates(sc, P("[[1],2,3]")); }
}
//@ entry uris shards=16 reach=same,distinct cost=4
VS_ENTRY(uris) { // two references with arbitrary last bytes
  uint64_t f = vs_shard_choice("form", 8), kind = vs_shard_choice("order", 2); static const char *P1[] = {"http://h/d/", "http://h/d/", "", "../d/", "urn:ex:a:", "http://h/d/", "http://h/d/x?", "http://h/d/"}; static const char *P2[] = {"http://h/d/", "", "", "", "urn:ex:a:", "http://h/d/", "http://h/d/x?", "./"}; string p = vs_bytes("p", 2), q = vs_bytes("q", 2); auto plain = [](const string &s) { for (char c : s) vs_assume((c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '_' || c == '~' || c == '-'); vs_assume(s[1] != '-'); }; plain(p); plain(q);
  J r1 = R(P1[f] + p + (f == 5 ? "#/definitions/x" : "")), r2 = R(P2[f] + q + (f == 5 ? "#" : "")); J doc = P("{'definitions':{'x':{}}}"); string base = f == 4 ? "" : f == 6 ? "" : "http://h/d/base"; string u1 = (f == 4 || f == 6 ? string(P1[f]) : string("http://h/d/")) + p, u2 = (f == 4 || f == 6 ? string(P2[f]) : string("http://h/d/")) + q; J s = kind ? jo({{"allOf", ja({r1, r2})}}) : jo({{"properties", jo({{"k", r1}})}, {"not", r2}}); if (!base.empty()) s.o.insert(s.o.begin(), {"$id", js(base)});
  Docs d{{u1, doc}}; bool same = u1 == u2; vs_reach(same ? "same" : "distinct"); if (!same) d.push_back({u2, doc}); Schema sc; int boom = 0; bool ok = parse(s, d, 0, 0, D7, sc, boom); vs_observe("ok", ok); check(); vs_assert(ok, "document not found"); vs_assert(L.calls == (same ? 1 : 2), "number of fetches");
}
//@ entry alloc shards=4 reach=failed,ok cost=6
VS_ENTRY(alloc) { // an allocation fails while parsing
  uint64_t w = vs_shard_choice("workload", 4), k = vs_sym("k", 16); bool ca;
  Docs d; for (int i = 0; i < 3; ++i) d.push_back({U[i], form(w == 3 ? 8 : 2 + w, i, ca)}); J s = w == 0 ? R(U[0]) : P("{'allOf':[{'$ref':$0}]}", {js(U[1])});
  Doc dd(s); RA a = dd.ad(); SchemaParser p(D7); L.n = L.calls = L.bad = L.dup = 0; FP::FetchDoc fetch = [&](const string &u) -> const RD * { ++L.calls; for (auto &e : d) if (e.first == u) { std::unique_ptr<RD> r(new RD); toRapid(e.second, *r, r->GetAllocator()); note(u, r.get()); return r.release(); } return nullptr; }; FP::FreeDoc fr = [](const RD *r) { freed(r); };
  bool ok = false; { Schema sc; vs_fail_alloc(k); try { p.populateSchema<RA>(a, sc, fetch, fr); ok = true; } catch (const std::exception &) {} vs_fail_alloc(0); } vs_reach(ok ? "ok" : "failed"); check();
}
//@ entry functions reach=thrown
VS_ENTRY(functions) { // one callback without the other
  uint64_t k = vs_choice("which", 2); J s = P("{'allOf':[{'$ref':'http://h/a'}]}"); Doc d(s); RA a = d.ad(); SchemaParser p(D7); bool thrown = false, called = false; Schema sc; FP::FetchDoc fetch; FP::FreeDoc fr; if (k) fetch = [&](const string &) -> const RD * { called = true; return nullptr; }; else fr = [&](const RD *) { called = true; };
  try { p.populateSchema<RA>(a, sc, fetch, fr); } catch (const std::exception &) { thrown = true; } vs_reach("thrown"); vs_assert(thrown && !called, "fetching without a free function");
}

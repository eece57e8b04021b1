#include "gen.h"
#include <map>
using std::string; using namespace valijson;
//@ bounds custom keywords: a keyword with the meaning of maximum (integers) in place of, beside and inside the standard keywords in 21 contexts and every draft, with symbolic 8-bit limits and instances; one to three builders; names of standard keywords; keywords inside values (enum, const, properties, definitions) that are not keywords
//@ bounds failures: builders that throw (a standard exception, another type) at each occurrence, allocation failures at every symbolic position of parsing and validating
//@ bounds regular expressions: an engine that searches for a substring, nine patterns (with NUL, newline, non-ASCII bytes, the empty one) and strings of up to 3 arbitrary bytes in nine places (pattern, patternProperties, nested, propertyNames, conditions), counted constructions, failing construction and search
//@ outside builders that return a null pointer; constraints whose sizeOf or cloneInto lie
struct Log { int made = 0, builders = 0, cons = 0, calls = 0, throwAt = -1, kind = 0; std::vector<string> paths; };
static Log G;
struct Cu : constraints::PolyConstraint { // integers up to a limit
  int64_t lim; explicit Cu(int64_t l) : lim(l) { ++G.cons; } Cu(const Cu &o) : constraints::PolyConstraint(o), lim(o.lim) { ++G.cons; } ~Cu() override { --G.cons; lim = -1000000; }
  bool validate(const adapters::Adapter &t, const ValidationResults::Path &p, ValidationResults *r) const override { ++G.calls; bool ok = !t.isInteger() || t.asInteger() <= lim; if (!ok && r) r->pushError(p, "too large"); return ok; }
private:
  constraints::Constraint *cloneInto(void *p) const override { return new (p) Cu(*this); } size_t sizeOf() const override { return sizeof(Cu); }
};
struct Cb : ConstraintBuilder { int64_t off; explicit Cb(int64_t o = 0) : off(o) { ++G.builders; } ~Cb() override { --G.builders; } Cb(const Cb &) = delete;
  constraints::Constraint *make(const adapters::Adapter &v) const override { if (G.made++ == G.throwAt) { if (G.kind) throw 7; throw std::logic_error("builder"); } if (!v.isInteger()) throw std::runtime_error("not an integer"); return new Cu(v.asInteger() + off); } };
static J rename(const J &j, const char *from, const char *to) { J r = j; for (auto &m : r.o) { if (m.first == from) m.first = to; m.second = rename(m.second, from, to); } for (auto &m : r.a) m = rename(m, from, to); return r; }
static int count(const J &j, const char *k) { int n = 0; for (auto &m : j.o) n += (m.first == k) + count(m.second, k); for (auto &m : j.a) n += count(m, k); return n; }
static const char *CS[] = {"{'maximum':$0}", "{'maximum':$0,'minimum':$1}", "{'type':'integer','maximum':$0}", "{'allOf':[{'maximum':$0},{'maximum':$1}]}", "{'anyOf':[{'maximum':$0},{'minimum':$1}]}", "{'properties':{'a':{'maximum':$0}},'maximum':$1}", "{'items':{'maximum':$0}}", "{'not':{'maximum':$0}}", "{'enum':[{'maximum':5},1,2,3],'maximum':$0}", "{'properties':{'maximum':{'maximum':$0},'const':{}}}", "{'oneOf':[{'maximum':$0},{'maximum':$1}]}", "{'properties':{'p':{'$ref':'#/definitions/d'},'q':{'$ref':'#/definitions/d'}},'definitions':{'d':{'maximum':$0}}}"};
//@ entry keyword shards=36 reach=in,out cost=6
VS_ENTRY(keyword) { // a custom keyword is a conjunct like any other keyword
  uint64_t c = vs_shard_choice("schema", 12), dr = vs_shard_choice("draft", 3), w = vs_choice("wrap", c == 11 ? 1 : NWRAP); G = Log(); Gen g; g.v = gver(dr); g.conj = true; JV a{ji((int64_t)(int8_t)vs_sym("p", 8)), ji((int64_t)(int8_t)vs_sym("q", 8))}; J x = ji((int64_t)(int8_t)vs_sym("x", 8)); g.s = P(CS[c], a);
  static const char *X[] = {"$0", "{'a':$0}", "[$0]", "{'maximum':$0,'q':$0,'p':$1}"}; g.x = P(X[vs_choice("inst", 4)], {x, ji(0)}); if (!wrap(g, w)) return;
  bool ok1, ok2; ValidationResults r; J cs = rename(g.s, "maximum", "x-max"); bool wnt = want(g.s, g.x, g.v); vs_reach(wnt ? "in" : "out"); J xi = rename(g.x, "maximum", "x-max"); vs_assert(want(rename(cs, "x-max", "maximum"), g.x, g.v) == wnt, "renaming");
  { Schema s; { SchemaParser p(g.v); p.addConstraintBuilder("x-max", new Cb()); p.addConstraintBuilder("unused", new Cb(3)); vs_assert(G.builders == 2, "builders"); Doc d(cs); RA ad = d.ad(); p.populateSchema(ad, s); } vs_assert(G.builders == 0, "builders are freed with the parser"); int stored = G.cons; vs_assert(G.made >= stored || G.made > 0, "constraints stored"); ok1 = validates(s, xi); ok2 = validates(s, xi, Validator::kStrongTypes, &r); vs_assert(G.cons == stored, "constraints are not copied by validating"); vs_assert((r.numErrors() == 0) == ok2, "errors"); }
  vs_observe("ok", ok1); vs_assert(G.cons == 0, "constraints are freed with the schema"); vs_assert(ok1 == wnt && ok2 == wnt, "verdict with a custom keyword");
}
//@ entry places shards=8 reach=in,out
VS_ENTRY(places) { // where the builder is asked, with which value, and what the constraint is given
  uint64_t k = vs_shard_choice("k", 8), dr = vs_choice("draft", 3); G = Log(); J p = ji((int64_t)(int8_t)vs_sym("p", 8)), x = ji((int64_t)(int8_t)vs_sym("x", 8)); JV a{p, x}; SchemaParser::Version v = gver(dr); int made = 0, calls = 0; bool w = true; J s, i = x; std::vector<std::pair<string, int64_t>> keys; string at;
  bool in = x.i <= p.i;
  switch (k) {
  case 0: s = P("{'enum':[{'x-max':1},$1],'definitions':{'x-max':{'maximum':1}}}", a); keys = {{"x-max", 0}}; break;
  case 1: s = P("{'properties':{'x-max':{}}}"); keys = {{"x-max", 0}}; i = jo({{"x-max", x}}); break;
  case 2: s = P("{'x-max':$0}", a); keys = {{"x-max", 0}}; made = calls = 1; w = in; break;
  case 3: s = P("{'x-max':$0,'X-max':1,'x-ma':2,'x-maxi':3,'':4}", a); keys = {{"x-max", 0}}; made = calls = 1; w = in; break;
  case 4: s = P("{'x-max':$0}", a); keys = {{"x-max", 5}, {"x-max", 0}}; made = 2; calls = in ? 2 : 2; w = in; break; // two builders for one keyword
  case 5: s = P("{'maximum':$0}", a); keys = {{"maximum", -1}}; made = calls = 1; w = x.i <= p.i - 1; break; // for a standard keyword
  case 6: s = P("{'properties':{'k':{'x-max':$0}},'items':{'items':{'x-max':$0}}}", a); keys = {{"x-max", 0}}; made = 2; calls = 1; w = in; i = jo({{"k", x}}); at = "/k"; break;
  default: s = P("{'properties':{'k':{'a':$0,'b':$0}}}", a); keys = {{"b", 1}, {"a", 0}}; made = 2; calls = 2; w = in; i = jo({{"k", x}}); at = "/k"; break; }
  Schema sc; { SchemaParser ps(v); for (auto &kv : keys) ps.addConstraintBuilder(kv.first, new Cb(kv.second)); Doc d(s); RA ad = d.ad(); ps.populateSchema(ad, sc); } vs_assert(G.made == made && G.cons == made && G.builders == 0, "builders asked once for each occurrence"); ValidationResults r; bool ok = validates(sc, i, Validator::kStrongTypes, &r); vs_reach(w ? "in" : "out"); if (!made) vs_reach("out"); vs_observe("ok", ok); vs_assert(ok == w, "verdict"); vs_assert(G.calls == calls, "constraint asked once"); ValidationResults::Error e; bool saw = w; while (r.popError(e)) { saw |= e.jsonPointer == at && (e.description == "too large" || k == 5); } vs_assert(saw, "error of the constraint at its node");
}
//@ entry failing shards=14 reach=thrown,done cost=3
VS_ENTRY(failing) { // a failure while building, cloning or storing leaves nothing behind
  uint64_t k = vs_shard_choice("k", 7), how = vs_shard_choice("how", 2); G = Log(); static const char *S[] = {"{'x-max':$0}", "{'x-max':'s'}", "{'properties':{'a':{'x-max':$0},'b':{'x-max':1}}}", "{'allOf':[{'x-max':$0},{'x-max':1},{'x-max':2}]}", "{'$id':'http://h/i','x-max':$0,'properties':{'k':{'$ref':'#'}}}", "{'items':[{'x-max':$0}],'additionalItems':{'x-max':3}}", "{'x-max':$0,'not':{'x-max':null}}"}; JV a{ji(3)}; Doc d(P(S[k], a)); uint64_t live = vs_live(); bool thrown = false;
  { Schema s; SchemaParser p; p.addConstraintBuilder("x-max", new Cb()); p.addConstraintBuilder("x-other", new Cb()); if (how) { G.throwAt = (int)vs_choice("at", 4); G.kind = (int)vs_choice("kind", 2); } else { uint64_t f = vs_sym("fail", 9); vs_assume(f < 400); vs_fail_alloc(f); }
    try { RA ad = d.ad(); p.populateSchema(ad, s); } catch (const std::exception &) { thrown = true; } catch (int) { thrown = true; vs_assert(G.kind, "foreign exception"); } vs_fail_alloc(~0ull); vs_reach(thrown ? "thrown" : "done"); if (k == 1 || k == 6) { vs_assert(thrown, "exception of the builder"); vs_reach("done"); } if (!thrown) { vs_assert(G.cons == (k == 4 ? 2 : G.made), "constraints"); bool ok = validates(s, ji(4)); vs_assert(ok == (k == 2 || k == 5), "verdict afterwards"); } }
  vs_assert(G.cons == 0 && G.builders == 0, "constraints and builders are freed"); vs_assert(vs_live() == live, "memory is freed");
}
static int gAlloc, gFree; static std::map<void *, size_t> *gMem;
static void *myAlloc(size_t n) { ++gAlloc; void *p = malloc(n); (*gMem)[p] = n; return p; } static void myFree(void *p) { if (!p) return; ++gFree; vs_assert(gMem->erase(p) == 1, "memory returned that was not obtained"); free(p); }
//@ entry memory shards=2 reach=any
VS_ENTRY(memory) { // copies of a custom constraint live in memory from the functions of the schema
  G = Log(); gAlloc = gFree = 0; gMem = new std::map<void *, size_t>; uint64_t n = vs_choice("n", 3) + 1, mv = vs_shard_choice("moved", 2); J x = ji((int64_t)(int8_t)vs_sym("x", 8)), l = ji((int64_t)(int8_t)vs_sym("l", 8)); vs_reach("any");
  { Schema s(myAlloc, myFree); { Cu c(l.i); for (uint64_t i = 0; i < n; ++i) s.addConstraint(c); vs_assert(G.cons == (int)n + 1, "copies"); } int at = 0; for (auto &m : *gMem) at += m.second == sizeof(Cu); vs_assert(at == (int)n, "copies in memory of the schema"); if (mv) { Schema t(std::move(s)); vs_assert(validates(t, x) == (x.i <= l.i), "verdict"); } else vs_assert(validates(s, x) == (x.i <= l.i), "verdict"); }
  vs_assert(G.cons == 0 && gMem->empty() && gAlloc == gFree, "memory returned once"); delete gMem;
}
// ---- regular expression engines
static bool sub(const string &s, const string &p) { if (p.size() > s.size()) return false; bool r = false; for (size_t i = 0; i + p.size() <= s.size(); ++i) { bool e = true; for (size_t k = 0; k < p.size(); ++k) e &= s[i + k] == p[k]; r |= e; } return r; }
struct RxLog { int made = 0, live = 0, searches = 0, failMake = -1, failSearch = -1; std::map<string, int> per; }; static RxLog R;
struct Eng { string p; explicit Eng(const string &q) : p(q) { if (R.made++ == R.failMake) throw std::runtime_error("bad pattern"); ++R.live; ++R.per[q]; } Eng(const Eng &o) : p(o.p) { ++R.live; } Eng(Eng &&o) : p(std::move(o.p)) { ++R.live; } ~Eng() { --R.live; }
  static bool search(const string &s, const Eng &e) { if (R.searches++ == R.failSearch) throw std::runtime_error("search"); return sub(s, e.p); } };
enum { NRX = 9 };
static bool rx(uint64_t k, const string &p, const string &s, J &sc, J &x) { bool m = sub(s, p); J pat = jo({{"pattern", js(p)}}); x = js(s);
  switch (k) { case 0: sc = pat; return m; case 1: sc = jo({{"not", pat}}); return !m; case 2: sc = jo({{"properties", jo({{"k", pat}})}}); x = jo({{"k", x}}); return m; case 3: sc = jo({{"items", pat}}); x = ja({js(p), x}); return m;
  case 4: sc = jo({{"propertyNames", pat}}); x = jo({{s, jn()}}); return m; case 5: sc = jo({{"patternProperties", jo({{p, jb(false)}})}}); x = jo({{s, jn()}}); return !m; case 6: sc = jo({{"patternProperties", jo({{p, jo()}})}, {"additionalProperties", jb(false)}}); x = jo({{s, jn()}}); return m;
  case 7: sc = jo({{"if", pat}, {"then", jb(false)}}); return !m; default: sc = jo({{"contains", pat}, {"anyOf", ja({jo({{"items", pat}}), jb(true)})}, {"oneOf", ja({jo({{"additionalItems", pat}, {"items", ja({jb(true)})}}), jb(false)})}}); x = ja({js(p), x}); return m; } }
//@ entry engine shards=36 reach=in,out cost=3
VS_ENTRY(engine) { // patterns and strings reach the engine as they are, wherever they occur
  R = RxLog(); uint64_t k = vs_shard_choice("place", NRX), n = vs_shard_choice("len", 4); static const char PT[][4] = {"a", "ab", "\0", "a\0b", "", "\xff", "^a$", "(", "\n"}; static const size_t PL[] = {1, 2, 1, 3, 0, 1, 3, 1, 1}; uint64_t pi = vs_choice("pattern", 9); string p(PT[pi], PL[pi]), s = vs_bytes("s", n); J sc, x; bool w = rx(k, p, s, sc, x); vs_reach(w ? "in" : "out"); Schema sch; parseInto(sch, sc); vs_assert(R.made == 0, "engines are made when validating"); { ValidatorT<Eng> v; Doc d(x); ValidationResults r; bool ok = v.validate(sch, d.ad(), nullptr); vs_observe("ok", ok); vs_assert(ok == w, "verdict of the engine"); bool ok2 = v.validate(sch, d.ad(), &r); vs_assert(ok2 == w && (r.numErrors() == 0) == w, "verdict with results"); vs_assert(R.made == 1 && R.live == 1 && R.per[p] == 1, "an engine is made once for a pattern"); ValidatorT<Eng> weak(ValidatorT<Eng>::kWeakTypes); vs_assert(weak.validate(sch, d.ad(), nullptr) == w && R.made == 2, "weak types"); } vs_assert(R.live == 0, "engines are freed");
}
//@ entry engineFails shards=9 reach=thrown,done
VS_ENTRY(engineFails) { // an exception of the engine is passed on, and does not spoil later validations
  R = RxLog(); uint64_t k = vs_shard_choice("place", NRX); J sc, x, y; rx(k, "b", "abc", sc, x); bool w = rx(k, "b", "abc", sc, x), w2 = rx(k, "b", "xyz", sc, y); R.failMake = vs_choice("make", 2) ? 0 : -1; R.failSearch = (int)vs_choice("search", 3) - 1; Schema sch; parseInto(sch, sc); { ValidatorT<Eng> v; Doc d(x), e(y); bool thrown = false; ValidationResults r; try { vs_assert(v.validate(sch, d.ad(), vs_choice("results", 2) ? &r : nullptr) == w, "verdict"); } catch (const std::runtime_error &) { thrown = true; } vs_reach(thrown ? "thrown" : "done"); vs_assert(thrown || (R.failMake < 0 && (R.failSearch < 0 || R.failSearch >= R.searches)), "exception of the engine"); R.failMake = R.failSearch = -1; vs_assert(v.validate(sch, d.ad(), nullptr) == w && v.validate(sch, e.ad(), nullptr) == w2, "verdict after a failure"); vs_assert(R.live == 1, "one engine kept"); } vs_assert(R.live == 0, "engines are freed");
}

#include "gen.h"
//@ bounds every keyword whose form or meaning depends on the draft, in each of the three draft versions, at the root and within properties, items, allOf, not and definitions, with symbolic 16-bit instances and operands
//@ bounds the 59 schema templates of every keyword in 21 contexts: the verdict under each draft that shares a keyword is that of the reference validator for that draft
//@ outside disallow; allOf, anyOf, oneOf, not, const, contains, minProperties and maxProperties, which the library honours under every draft; the type "any" in Draft 7
using std::string;
static J at(uint64_t place, const J &s) { switch (place) { case 0: return s; case 1: return jo({{"properties", jo({{"k", s}})}}); case 2: return jo({{"items", s}}); case 3: return jo({{"allOf", ja({jo(), s})}}); case 4: return jo({{"not", jo({{"not", s}})}}); default: return P("{'properties':{'k':{'$ref':'#/definitions/d'}},'definitions':{'d':$0}}", {s}); } }
static J atx(uint64_t place, const J &x) { return place == 1 || place == 5 ? jo({{"k", x}}) : place == 2 ? ja({x}) : x; }
enum { REJ = 2, ACC = 1 };
// expect: REJ rejected while parsing, otherwise the verdict wanted
static void check(const J &s, const J &x, SchemaParser::Version v, bool rejected, bool want) {
  Schema sc; bool threw = false; try { parseInto(sc, s, v); } catch (const std::exception &) { threw = true; } vs_observe("threw", threw); if (rejected) { vs_reach("rejected"); vs_assert(threw, "form of another draft not rejected"); return; } vs_assert(!threw, "valid schema rejected"); bool ok = validates(sc, x); vs_observe("ok", ok); vs_reach(want ? "in" : "out"); vs_assert(ok == want, "meaning under this draft");
}
//@ entry gated shards=54 reach=in,out,rejected cost=6
VS_ENTRY(gated) {
  uint64_t k = vs_shard_choice("keyword", 18), dr = vs_shard_choice("draft", 3), pl = vs_choice("place", 6); SchemaParser::Version v = gver(dr); bool d7 = !dr, d4 = dr == 1, d3 = dr == 2; int64_t n = (int16_t)vs_sym("x", 16), c = 100; J x = ji(n), s; bool rej = false, w = true;
  switch (k) {
  case 0: s = P("{'minimum':100,'exclusiveMinimum':true}"); if (d7) rej = true; else w = n > c; break; // a boolean is no bound in Draft 7
  case 1: s = P("{'maximum':100,'exclusiveMaximum':true}"); if (d7) rej = true; else w = n < c; break;
  case 2: s = P("{'exclusiveMinimum':100}"); if (d7) w = n > c; else rej = true; break;
  case 3: s = P("{'exclusiveMaximum':100}"); if (d7) w = n < c; else rej = true; break;
  case 4: s = P("{'minimum':100,'exclusiveMinimum':false,'maximum':200,'exclusiveMaximum':false}"); if (d7) rej = true; else w = n >= 100 && n <= 200; break;
  case 5: s = P("{'minimum':50,'exclusiveMinimum':100,'maximum':200,'exclusiveMaximum':200}"); if (d7) w = n > 100 && n < 200; else rej = true; break;
  case 6: s = P("{'divisibleBy':3}"); if (d3) w = n % 3 == 0; else rej = true; break;
  case 7: s = P("{'multipleOf':3}"); if (d3) rej = true; else w = n % 3 == 0; break;
  case 8: s = P("{'extends':{'maximum':100}}"); w = !d3 || n <= c; break;
  case 9: s = P("{'extends':[{'minimum':50},{'maximum':100}]}"); w = !d3 || (n >= 50 && n <= c); break;
  case 10: s = P("{'if':{'maximum':100},'then':{'minimum':50},'else':{'maximum':200}}"); if (d7) w = n <= 100 ? n >= 50 : n <= 200; else rej = true; break;
  case 11: s = P("{'propertyNames':{'maxLength':1}}"); if (d7) { bool two = vs_choice("two", 2); x = two ? P("{'a':1,'bb':2}") : P("{'a':1,'b':2}"); w = !two; } else rej = true; break;
  case 12: s = P("{'required':['a']}"); x = vs_choice("has", 2) ? P("{'a':$0}", {x}) : P("{'b':$0}", {x}); if (d3) rej = true; else w = x.get("a") != nullptr; break;
  case 13: s = P("{'properties':{'a':{'required':true},'b':{'required':false}}}"); x = vs_choice("has", 2) ? P("{'a':$0}", {x}) : P("{'b':$0}", {x}); if (d3) w = x.get("a") != nullptr; else rej = true; break;
  case 14: s = P("{'type':['string',{'maximum':100}]}"); if (d3) w = n <= c; else rej = true; break;
  case 15: s = P("{'type':{'maximum':100}}"); if (d3) w = n <= c; else rej = true; break;
  case 16: s = P("{'dependencies':{'a':'b'}}"); x = vs_choice("has", 2) ? P("{'a':1,'b':$0}", {x}) : P("{'a':$0}", {x}); if (d3) w = x.get("b") != nullptr; else rej = true; break;
  default: s = P("{'type':'any'}"); if (d4) rej = true; else if (d7) return; break;
  }
  check(at(pl, s), atx(pl, x), v, rej, w);
}
//@ entry boolschema shards=45 reach=in,out,rejected cost=3
VS_ENTRY(boolschema) { // true and false as schemas, at every place a schema may stand
  uint64_t p = vs_shard_choice("place", 15), dr = vs_shard_choice("draft", 3); bool b = vs_choice("value", 2); J bs = jb(b), one = ji((int64_t)vs_sym("x", 16)), s, x = one; bool always = false; // always: allowed under every draft
  switch (p) {
  case 0: s = bs; break; case 1: s = jo({{"properties", jo({{"k", bs}})}}); x = jo({{"k", one}}); break; case 2: s = jo({{"items", bs}}); x = ja({one}); break; case 3: s = jo({{"items", ja({bs})}}); x = ja({one}); break;
  case 4: s = P("{'items':[{}],'additionalItems':$0}", {bs}); x = ja({jn(), one}); always = true; break; case 5: s = jo({{"additionalProperties", bs}}); x = jo({{"k", one}}); always = true; break; case 6: s = jo({{"patternProperties", jo({{"k", bs}})}}); x = jo({{"k", one}}); break;
  case 7: s = jo({{"allOf", ja({jo(), bs})}}); break; case 8: s = jo({{"anyOf", ja({bs})}}); break; case 9: s = jo({{"oneOf", ja({bs})}}); break; case 10: s = jo({{"not", jo({{"not", bs}})}}); break; case 11: s = jo({{"dependencies", jo({{"a", bs}})}}); x = jo({{"a", one}}); break;
  case 12: s = jo({{"contains", bs}}); x = ja({one}); break; case 13: s = P("{'properties':{'k':{'$ref':'#/definitions/d'}},'definitions':{'d':$0}}", {bs}); x = jo({{"k", one}}); break; default: s = P("{'if':{},'then':$0}", {bs}); break;
  }
  check(s, x, gver(dr), dr != 0 && !always, b);
}
//@ entry ids shards=6 reach=in,out,rejected cost=2
VS_ENTRY(ids) { // the identifier keyword of the draft is honoured, the other's is not
  uint64_t dr = vs_shard_choice("draft", 3), k = vs_shard_choice("kw", 2); const char *kw = k ? "$id" : "id"; bool honoured = (dr == 0) == (k == 1); int64_t n = (int16_t)vs_sym("x", 16); J s = P("{'properties':{'k':{'$ref':'http://h/s'}},'definitions':{'a':{'maximum':100}}}"); s.o[1].second.o[0].second.o.emplace_back(kw, js("http://h/s")); check(s, jo({{"k", ji(n)}}), gver(dr), !honoured, n <= 100);
}
//@ entry base shards=3 reach=any
VS_ENTRY(base) { // which keyword sets the base of references, and the identifier kept
  uint64_t dr = vs_shard_choice("draft", 3), which = vs_choice("which", 4), nest = vs_choice("nest", 3), order = vs_choice("order", 2); J s = P("{'properties':{'a':{'$ref':'z'}}}"), x = jo(); const char *mine = dr == 0 ? "$id" : "id", *other = dr == 0 ? "id" : "$id"; if (which & 1 && !order) s.o.insert(s.o.begin(), {mine, js("http://m/x/y")}); if (which & 2) s.o.insert(s.o.begin(), {other, js("http://o/p/")}); if (which & 1 && order) s.o.insert(s.o.begin(), {mine, js("http://m/x/y")});
  if (nest == 1) s = jo({{"items", s}}); if (nest == 2) s = jo({{other, js("http://n/m/")}, {"properties", jo({{"k", s}})}}); std::string got; int n = 0; Doc target(P("{'maximum':3}")); Doc d(s); RA a = d.ad(); Schema sc; SchemaParser p(gver(dr)); p.populateSchema(a, sc, [&](const std::string &u) -> const RD * { got = u; ++n; return &target.d; }, [](const RD *) {});
  vs_reach("any"); vs_observe("n", n); vs_assert(n == 1 && got == (which & 1 ? "http://m/x/z" : "z"), "the base of a reference"); if (!nest) { vs_assert(sc.hasId() == !!(which & 1), "identifier"); if (which & 1) vs_assert(sc.getId() == "http://m/x/y", "identifier"); } else vs_assert(!sc.hasId(), "identifier of the root");
}
//@ entry shared shards=59 reach=in,out cost=9
VS_ENTRY(shared) {
  uint64_t t = vs_shard_choice("tpl", NTPL), dr = vs_choice("draft", 3); if (strncmp(TPL[t].s, "{'format'", 9) == 0) return; Gen g; if (!tpl(g, t, dr)) return; if (!wrap(g, vs_choice("wrap", NWRAP))) return; bool w = want(g.s, g.x, g.v); Schema s; parseInto(s, g.s, g.v); bool ok = validates(s, g.x); vs_observe("ok", ok); vs_reach(w ? "in" : "out"); vs_assert(ok == w, "verdict under this draft");
}
//@ entry shared2 shards=59 reach=in,out cost=9 tier=thorough
VS_ENTRY(shared2) {
  uint64_t t = vs_shard_choice("tpl", NTPL), dr = vs_choice("draft", 3); if (strncmp(TPL[t].s, "{'format'", 9) == 0) return; Gen g; if (!tpl(g, t, dr)) return; if (!wrap(g, 1 + vs_choice("wrap", NWRAP - 1))) return; if (!wrap(g, 1 + vs_choice("wrap2", NWRAP - 1))) return; bool w = want(g.s, g.x, g.v); Schema s; parseInto(s, g.s, g.v); bool ok = validates(s, g.x); vs_observe("ok", ok); vs_reach(w ? "in" : "out"); vs_assert(ok == w, "verdict under this draft");
}

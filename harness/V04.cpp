#include "hx.h"
//@ bounds every non-empty subset of the seven type names (and 'any' in Draft 3), as a list in two orders or as a single name, Drafts 3, 4 and 7
//@ bounds instances: null, booleans, every int64, every finite double, every string of up to 2 bytes plus strings that look like other types, empty and non-empty arrays and objects
//@ bounds Draft 3 lists and single values holding schemas, with every combination of alternatives from a stated set; unknown type names: every string of 3 to 7 bytes (thorough 8)
//@ outside integral doubles of magnitude 2^63 and above (whether they are integers is left open); integral doubles as integers in Drafts 3 and 4, where the library accepts them
static const char *T[] = {"null", "boolean", "integer", "number", "string", "array", "object", "any"};
enum { NUL = 1, BOO = 2, INTG = 4, NUMB = 8, STRG = 16, ARRY = 32, OBJT = 64, ANY = 128 };
static SchemaParser::Version ver(uint64_t v) { return v == 0 ? D7 : v == 1 ? D4 : D3; }
// the instance and the set of type names it has
static J instance(uint64_t t, unsigned &types, bool &open) {
  open = false;
  switch (t) {
  case 0: types = NUL; return jn();
  case 1: types = BOO; return jb(vs_choice("bool", 2));
  case 2: types = INTG | NUMB; return ji((int64_t)vs_sym("i", 64));
  case 3: { double d = vs_double("d"); vs_assume(isFin(d)); types = NUMB; bool in = integral(d); if (in) { types |= INTG; open = !((d < 9223372036854775808.0) & (d >= -9223372036854775808.0)); } return jd(d); }
  case 4: { types = STRG; static const char *L[] = {"", "1", "0", "-3", "1.5", "1e2", "true", "false", "null", "[]", "{}"}; uint64_t c = vs_choice("str", 13); return c < 11 ? js(L[c]) : js(vs_bytes("s", c - 10)); }
  case 5: types = ARRY; return vs_choice("full", 2) ? ja({ji(1)}) : ja();
  default: types = OBJT; return vs_choice("full", 2) ? jo({{"a", ji(1)}}) : jo();
  }
}
//@ entry names shards=24 reach=in,out cost=3
VS_ENTRY(names) {
  uint64_t dr = vs_shard_choice("draft", 3), mask = 1 + vs_shard_choice("mask", 127); unsigned types; bool open;
  J x = instance(vs_choice("type", 7), types, open); uint64_t form = vs_choice("form", 3); J list = ja();
  for (int k = 0; k < 7; ++k) { int b = form == 1 ? 6 - k : k; if (mask >> b & 1) list.a.push_back(js(T[b])); }
  if (form == 2) { if (list.a.size() != 1) return; J one = list.a[0]; list = one; }
  bool ok = accepts(jo({{"type", list}}), x, ver(dr)); vs_observe("ok", ok);
  bool want = (types & mask) != 0; if ((open || (dr && types == (INTG | NUMB) && x.k == J::Dbl)) && !(mask & NUMB)) return;
  vs_reach(want ? "in" : "out"); vs_assert(ok == want, "type");
}
//@ entry any3 shards=2 reach=in
VS_ENTRY(any3) { // Draft 3 'any'
  unsigned types; bool open; J x = instance(vs_choice("type", 7), types, open); uint64_t f = vs_shard_choice("form", 4);
  J t = f == 0 ? js("any") : f == 1 ? ja({js("any")}) : f == 2 ? ja({js("null"), js("any")}) : ja({js("any"), js("null")});
  bool ok = accepts(jo({{"type", t}}), x, D3); vs_observe("ok", ok); vs_reach("in"); vs_assert(ok, "any");
}
//@ entry union3 shards=16 reach=in,out cost=4
VS_ENTRY(union3) { // Draft 3: names and schemas side by side
  unsigned types; bool open; uint64_t a = vs_shard_choice("first", 9), b = vs_shard_choice("second", 9), c = vs_choice("third", 3); J x = instance(vs_choice("type", 7), types, open);
  J l = ja(); bool want = false;
  auto alt = [&](uint64_t k) {
    switch (k) {
    case 0: l.a.push_back(js("string")); want |= !!(types & STRG); break;
    case 1: l.a.push_back(js("number")); want |= !!(types & NUMB); break;
    case 2: l.a.push_back(P("{'type':'boolean'}")); want |= !!(types & BOO); break;
    case 3: l.a.push_back(P("{'type':['null','object']}")); want |= !!(types & (NUL | OBJT)); break;
    case 4: l.a.push_back(P("{'minimum':3,'type':'number'}")); want |= (types & NUMB) && x.dbl() >= 3; break;
    case 5: l.a.push_back(P("{'type':[{'type':'array'}]}")); want |= !!(types & ARRY); break;
    case 6: l.a.push_back(P("{'enum':['1',true]}")); want |= (x.k == J::Str && x.s == "1") || (x.k == J::Bool && x.b); break;
    case 7: break;
    case 8: l.a.push_back(jo()); want = true; break;
    }
  };
  alt(a); alt(b); alt(c == 0 ? 2 : c == 1 ? 4 : 7); if (l.a.empty()) return;
  bool ok = accepts(jo({{"type", l}}), x, D3); vs_observe("ok", ok); vs_reach(want ? "in" : "out"); vs_assert(ok == want, "union");
}
//@ entry single3 reach=in,out
VS_ENTRY(single3) { // Draft 3: a schema in place of the name
  unsigned types; bool open; J x = instance(vs_choice("type", 7), types, open); uint64_t k = vs_choice("kind", 3); if (k == 2) { vs_assert(accepts(P("{'type':{}}"), x, D3), "empty schema as type"); return; }
  bool want = k ? (types & NUMB) && x.dbl() > 10 : !!(types & (STRG | ARRY));
  bool ok = accepts(jo({{"type", k ? P("{'type':'number','minimum':10,'exclusiveMinimum':true}") : P("{'type':['string','array']}")}}), x, D3); vs_observe("ok", ok); vs_reach(want ? "in" : "out"); vs_assert(ok == want, "schema as type");
}
//@ entry unknown shards=8 cost=2
VS_ENTRY(unknown) { // a string that is not a type name is not accepted as one
#ifdef VS_THOROUGH
  enum { N = 6 };
#else
  enum { N = 5 };
#endif
  std::string s = vs_bytes("name", 3 + vs_shard_choice("len", N)); uint64_t dr = vs_choice("draft", 3), l = vs_choice("list", 2);
  bool known = false; for (auto t : T) known |= s == t; vs_assume(!known);
  bool p = parses(jo({{"type", l ? ja({js("null"), js(s)}) : js(s)}}), ver(dr)); vs_observe("p", p); vs_assert(!p, "unknown type name accepted");
}

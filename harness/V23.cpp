#include "libs.h"
#include "conv.h"
using std::string; using namespace valijson;
#ifdef VS_THOROUGH
enum { LEN = 5 };
#else
enum { LEN = 4 };
#endif
//@ bounds strings: every byte string of up to 4 (thorough 5) bytes whose decimal exponent, if it is a number, is between -22 and 22, and a table of longer ones (signs, blanks, grouping, inf, nan, hexadecimal, 64-bit limits, large exponents), through RapidJSON, property trees and the string adapter for property names; digit strings of 17 to 20 bytes with symbolic digits around the limits of int64
//@ bounds other values: null, booleans, every int64, every finite double, empty and non-empty containers, in RapidJSON, nlohmann/json, PicoJSON, Boost.JSON and property trees
//@ bounds types: every type name and pairs of names in every draft, strong and weak; keywords: minimum, maximum, their exclusive forms, multipleOf, const and enum over numeric and boolean strings, as values and as property names
//@ outside weak comparisons between strings and containers (an empty array equals an empty string but not the other way round); the digits a double converts to when it becomes a string
static void everyAdapter(uint64_t lib, const string &s, const Conv &c, bool values = true) { if (lib == 0) { Doc d(js(s)); stringConversions(d.ad(), s, c, values); } else if (lib == 1) { boost::property_tree::ptree t; t.data() = s; if (s.empty()) return; stringConversions(TA(t), s, c, values); } else { stringConversions(valijson::adapters::StdStringAdapter(s), s, c, values); } }
//@ entry strings shards=15 reach=int,num,none cost=9
VS_ENTRY(strings) { uint64_t lib = vs_shard_choice("adapter", 3), n = vs_shard_choice("len", LEN + 1); string s = vs_bytes("s", n); Conv c = conv(s); vs_assume(c.known); vs_reach(c.isInt ? "int" : c.isNum ? "num" : "none"); if (!n) { vs_reach("int"); vs_reach("num"); } everyAdapter(lib, s, c, n < 4); }
//@ entry limits shards=12 reach=in,out cost=6
VS_ENTRY(limits) { // around the range of int64: a known prefix and symbolic digits
  static const char *PRE[] = {"922337203685477", "-922337203685477", "1844674407370955", "000000000000000"}; uint64_t lib = vs_shard_choice("adapter", 3), k = vs_shard_choice("prefix", 4); string w = vs_bytes("s", 2 + 2 * vs_choice("len", 2)); for (char ch : w) vs_assume((ch >= '0') & (ch <= '9')); string s = PRE[k] + w; Conv c = conv(s); vs_reach(c.isInt ? "in" : "out"); if (k == 3) vs_reach("out"); 
  auto f = [&](const auto &a) { int64_t i = 0; bool mi = a.maybeInteger(); vs_observe("mi", mi); vs_assert(mi == c.isInt && a.asInteger(i) == mi && (!mi || i == c.i), "integer at the limit"); }; if (lib == 0) { Doc d(js(s)); f(d.ad()); } else if (lib == 1) { boost::property_tree::ptree t; t.data() = s; f(TA(t)); } else f(valijson::adapters::StdStringAdapter(s));
}
//@ entry table shards=3 reach=num,none
VS_ENTRY(table) { // strings that are not symbolic
  struct R { const char *s; int num; int in; double d; int64_t i; }; static const R T[] = {{" 12", 0}, {"12 ", 0}, {"+12", 0}, {"1,234", 0}, {"1.234,5", 0}, {"inf", 0}, {"-inf", 0}, {"nan", 0}, {"NaN", 0}, {"infinity", 0}, {"0x10", 0}, {"1e", 0}, {"e5", 0}, {"--1", 0}, {"1-", 0}, {"1.2.3", 0}, {"12abc", 0}, {"true ", 0}, {"True", 0}, {"1e400", 0}, {"-1e400", 0}, {"12.5", 1, 0, 12.5}, {"1e2", 1, 0, 100}, {"1.0", 1, 0, 1}, {"1e308", 1, 0, 1e308}, {"-2.5e-300", 1, 0, -2.5e-300}, {"9223372036854775807", 1, 1, 9223372036854775808.0, INT64_MAX}, {"-9223372036854775808", 1, 1, -9223372036854775808.0, INT64_MIN}, {"9223372036854775808", 1, 0, 9223372036854775808.0}, {"18446744073709551616", 1, 0, 18446744073709551616.0}, {"123456789012345678901234567890", 1, 0, 123456789012345678901234567890.0}, {"00012", 1, 1, 12, 12}, {"-0", 1, 1, 0, 0}};
  uint64_t lib = vs_shard_choice("adapter", 3), k = vs_choice("row", sizeof(T) / sizeof(*T)); Conv c; c.isNum = T[k].num; c.isInt = T[k].in; c.d = T[k].d; c.i = T[k].i; vs_reach(c.isNum ? "num" : "none"); everyAdapter(lib, T[k].s, c);
}
//@ entry values shards=40 reach=any cost=4
VS_ENTRY(values) { // values that are not strings
  uint64_t lib = vs_shard_choice("lib", NLIB), k = vs_shard_choice("kind", 8); J x; switch (k) { case 0: break; case 1: x = jb(vs_sym("b", 1)); break; case 2: x = ji((int64_t)vs_sym("i", 64)); break; case 3: x = jd(vs_double("d")); vs_assume(isFin(x.d)); break; case 4: x = ja(); break; case 5: x = jo(); break; case 6: x = ja({ji(0)}); break; default: x = jo({{"", jn()}}); } vs_reach("any");
  bool intd = k == 3 && integral(x.d) && ((x.d < 9223372036854775808.0) & (x.d >= -9223372036854775808.0)), empty = k == 4 || k == 5;
  with(lib, x, [&](const auto &a) { int64_t i = 0; double d = 0; bool b = false; string t;
    bool mi = a.maybeInteger(), md = a.maybeDouble(), mb = a.maybeBool(); vs_observe("mi", mi); vs_assert(mi == (k == 2 || intd) && a.asInteger(i) == mi, "integer"); if (mi) vs_assert(k == 2 ? i == x.i : (double)i == x.d, "integer value"); vs_assert(md == x.num() && a.asDouble(d) == md && (!md || d == x.dbl()), "number"); vs_assert(mb == (k == 1) && a.asBool(b) == mb && (!mb || b == x.b), "boolean"); vs_assert(a.maybeNull() == (k == 0), "null");
    vs_assert(a.maybeArray() == (k == 4 || k == 5 || k == 6) && a.maybeObject() == (k == 4 || k == 5 || k == 7), "container"); if (empty) vs_assert(a.asArray().size() == 0 && a.asObject().size() == 0, "empty container"); if (k == 6) vs_assert(a.asArray().size() == 1, "array"); if (k == 7) vs_assert(a.asObject().size() == 1, "object");
    bool ms = a.maybeString(); vs_assert(ms == (k == 1 || k == 2 || k == 3 || empty), "string"); if (k == 2 || k == 3) return; if (ms) vs_assert(a.asString(t) && t == (k == 1 ? (x.b ? "true" : "false") : "") && a.asString() == t, "string value"); });
}
//@ entry numbers shards=8 reach=any cost=5
VS_ENTRY(numbers) { // a number becomes a string that converts back to it
  vs_fmt_exact(1);
  uint64_t lib = vs_shard_choice("lib", NLIB); static const int64_t I[] = {0, 1, -1, 42, -99, 1000, 2147483648LL, -2147483649LL, INT64_MAX, INT64_MIN}; static const double F[] = {0.5, -1.25, 3, 1e15, -123456.5}; uint64_t k = vs_choice("value", 15 + 1); vs_reach("any"); J x = k < 10 ? ji(I[k]) : k < 15 ? jd(F[k - 10]) : ji((int64_t)(vs_sym("small", 10)) - 300);
  with(lib, x, [&](const auto &a) { string t; vs_assert(a.maybeString() && a.asString(t) && t == a.asString(), "string"); Doc d(js(t)); auto b = d.ad(); int64_t i = 0; double f = 0; if (x.k == J::Int) vs_assert(b.asInteger(i) && i == x.i && b.maybeInteger(), "integer through a string"); vs_assert(b.asDouble(f) && f == x.dbl(), "number through a string"); });
}
static const char *TN[] = {"null", "boolean", "integer", "number", "string", "array", "object"};
//@ entry types shards=63 reach=in,out cost=9
VS_ENTRY(types) { // the type keyword: weak accepts the values that convert, and whatever strong accepts
  uint64_t dr = vs_shard_choice("draft", 3), ty = vs_shard_choice("type", 7), ty2 = vs_shard_choice("second", 3), k = vs_choice("kind", 9); ty2 = ty2 == 0 ? 7 : (ty + ty2 * 2) % 7; J x; Conv c; switch (k) { case 0: break; case 1: x = jb(vs_sym("b", 1)); break; case 2: x = ji((int64_t)vs_sym("i", 64)); break; case 3: x = jd(vs_double("d")); vs_assume(isFin(x.d)); break; case 4: x = ja(); break; case 5: x = jo(); break; case 6: x = ja({ji(0)}); break; case 7: x = jo({{"", jn()}}); break; default: { static const char *L[] = {"true", "false", "True", "12.5", "-1e2", "12 "}; uint64_t w = vs_choice("string", 6 + 4); x = js(w < 6 ? string(L[w]) : vs_bytes("s", w - 6)); c = conv(x.s); vs_assume(c.known); } }
  bool intd = k == 3 && integral(x.d); if (k == 3 && intd && !((x.d < 9223372036854775808.0) & (x.d >= -9223372036854775808.0))) return; auto is = [&](uint64_t t, bool weak) { switch (t) { case 0: return k == 0 || (weak && k == 8 && x.s.empty()); case 1: return k == 1 || (weak && k == 8 && (x.s == "true" || x.s == "false")); case 2: return k == 2 || intd || (weak && c.isInt); case 3: return k == 2 || k == 3 || (weak && c.isNum); case 4: return k == 8; case 5: return k == 4 || k == 6; case 6: return k == 5 || k == 7; } return false; };
  J t = ty2 == 7 ? js(TN[ty]) : ja({js(TN[ty]), js(TN[ty2])}); J sc = jo({{"type", t}}); SchemaParser::Version v = dr == 0 ? D7 : dr == 1 ? D4 : D3; bool s = accepts(sc, x, v), w = accepts(sc, x, v, Validator::kWeakTypes); vs_observe("weak", w); bool ww = is(ty, true) || is(ty2, true), ws = is(ty, false) || is(ty2, false); vs_reach(ww ? "in" : "out"); vs_assert(w == ww, "weak type"); vs_assert(s == ws, "strong type"); vs_assert(!s || w, "strong but not weak");
}
//@ entry keywords shards=44 reach=in,out cost=9
VS_ENTRY(keywords) { // under weak typing a numeric string meets a keyword exactly when the number does, as a value and as a property name
  static const char *S[] = {"{'minimum':$0}", "{'maximum':$0}", "{'exclusiveMinimum':$0}", "{'exclusiveMaximum':$0}", "{'multipleOf':3}", "{'multipleOf':0.5}", "{'const':$0}", "{'enum':['x',$0]}", "{'type':'integer','maximum':$0}", "{'not':{'type':'number','minimum':$0}}", "{'const':true}"};
  static const char *L[] = {"0", "7", "-3", "2.5", "1e1", "3.0", "-12", "9", "600", "0.25"}; uint64_t k = vs_shard_choice("kw", 11), where = vs_shard_choice("where", 4), l = vs_choice("literal", 10); J lim = ji((int64_t)vs_sym("limit", 64)); Conv c = conv(L[l]); if (vs_choice("double", 2)) { lim = jd(vs_double("dl")); vs_assume(isFin(lim.d)); } J sc = P(S[k], {lim}); J num = c.isInt ? ji(c.i) : jd(c.d);
  if (k == 10) { num = jb(l & 1); } string text = k == 10 ? (l & 1 ? "true" : "false") : L[l]; // oracle: the verdict on the value itself, by the independent evaluator
  if (k == 8 && !c.isInt && integral(c.d)) { return; } // a string such as "3.0" is a number but not an integer
  bool w = want(sc, num, D7); vs_reach(w ? "in" : "out"); J x = js(text); if (where == 1) { x = jo({{text, jn()}}); sc = jo({{"propertyNames", sc}}); } else if (where == 2) { x = jo({{"a", ja({x})}}); sc = P("{'properties':{'a':{'items':$0}}}", {sc}); }
  bool ok = false; if (where == 3) { boost::property_tree::ptree t; t.data() = text; Schema s; parseInto(s, sc); Validator v(Validator::kWeakTypes); ok = v.validate(s, TA(t), nullptr); } else ok = accepts(sc, x, D7, Validator::kWeakTypes); vs_observe("ok", ok); vs_assert(ok == w, "numeric string");
}

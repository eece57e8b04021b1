#include "gen.h"
//@ bounds every one of 47 keywords with each of 42 value forms (every JSON type, symbolic 64-bit integers, finite doubles, strings of 2 (thorough: 3) arbitrary bytes, empty, nested and ill-formed arrays and objects), under each draft, at the root and in one of the places a subschema may stand
//@ bounds every pair of the 47 keywords with 20 value forms each under one draft (thorough: under all three); every schema-valued keyword with a subschema that has any one keyword with any of the value forms
//@ bounds $ref with a JSON Pointer of up to 3 arbitrary bytes after '#', '#/' and '#/definitions/', and with any of 20 other forms, in a document with chains, cycles below the root, ill-formed targets and escapes
//@ bounds every schema that is accepted is used to validate 12 instances covering every type, with and without a results object; parsing that fails must not leak
//@ outside documents deeper than 8 levels; regular expressions other than the ten of the value forms; chains of references that never leave the root (known finding root-ref-cycle); keywords that only annotate, and forbidden values that convert to a permitted type (a number given as a string, "true" for true, and so on), are not required to be rejected
using std::string;
#ifdef VS_THOROUGH
enum { NB = 3 };
#else
enum { NB = 2 };
#endif
static const char *KW[] = {"type", "allOf", "anyOf", "const", "contains", "dependencies", "description", "divisibleBy", "enum", "extends", "format", "items", "additionalItems", "if", "then", "else", "exclusiveMaximum", "maximum", "maxItems", "maxLength", "maxProperties", "exclusiveMinimum", "minimum", "minItems", "minLength", "minProperties", "multipleOf", "not", "oneOf", "pattern", "properties", "patternProperties", "additionalProperties", "propertyNames", "required", "title", "uniqueItems", "id", "$id", "$schema", "definitions", "disallow", "default", "examples", "$comment", "unknown", ""}; enum { NKW = 47 };
// kinds of value forms, for the table of rejections
enum { ANY = 0, NUL = 1, BOOL = 2, NAT = 4, NEG = 8, FRAC = 16, STR = 32, ASCAL = 64, ONULL = 128, OSCAL = 256, ANULL = 512, ASTR = 1024, OSTR = 2048 };
struct Form { const char *t; int kind; };
static const Form F[] = {{"null", NUL}, {"true", BOOL}, {"false", BOOL}, {"5", NAT}, {"$0", NAT}, {"$1", NEG}, {"2.5", FRAC}, {"$2", ANY}, {"'abc'", STR}, {"[1]", ASCAL}, {"[null]", ANULL}, {"{'a':null}", ONULL}, {"{'a':1}", OSCAL}, {"['abc']", ASTR}, {"{'a':'b'}", OSTR},
  {"''", ANY}, {"'true'", ANY}, {"'12'", ANY}, {"'-0.5e3'", ANY}, {"'99999999999999999999'", ANY}, {"'object'", ANY}, {"'date-time'", ANY}, {"$3", ANY}, {"[]", ANY}, {"{}", ANY}, {"[[]]", ANY}, {"[{}]", ANY}, {"[{},{}]", ANY}, {"{'a':{}}", ANY}, {"{'a':[]}", ANY}, {"{'a':['a','b']}", ANY}, {"[true,false]", ANY}, {"['a','a']", ANY}, {"['string','null',{}]", ANY}, {"[{'type':'integer'},{'maximum':3}]", ANY}, {"{'a':{'type':'string'},'^b':{'minimum':'x'}}", ANY}, {"{'type':'array','items':{'type':'object'}}", ANY}, {"[1,[2,{'a':null}],'x']", ANY}, {"{'(':{},'[':true}", ANY}, {"'('", ANY}, {"'a{2,1}'", ANY}, {"{'':{'':{}},'~1':{'$ref':'#'}}", ANY}}; enum { NF = 42 };
static bool mul(const string &k) { return k == "multipleOf" || k == "divisibleBy"; }
static J form(uint64_t f, const char *suffix, const string &kw = "") {
  if (f == 22 && mul(kw)) { static const char *R[] = {"0", "-0", "1e3", "0x1", "inf", "nan", " 1", "3."}; return js(R[vs_choice("rv", 8)]); }
  if (f == 7 && mul(kw)) { static const double D[] = {0.0, -0.0, -1.5, 1e308, 5e-324, 3.0}; return jd(D[vs_choice("dv", 6)]); } if ((f == 4 || f == 5) && mul(kw)) { static const int64_t D[] = {0, 1, 3, INT64_MAX, -1, -3, INT64_MIN, -7}; return ji(D[(f == 5 ? 4 : 0) + vs_choice("iv", 4)]); } if (f == 22 && kw == "pattern") { static const char *R[] = {"[", "a\\", "(?=", "\\x", "a**", "[z-a]", "a{3}{2}", "\\1"}; return js(R[vs_choice("rv", 8)]); }
  J a, b, c, d; string n(suffix); switch (f) { case 4: a = ji((int64_t)vs_sym(("n" + n).c_str(), 64)); vs_assume(a.i >= 0); break; case 5: b = ji((int64_t)vs_sym(("m" + n).c_str(), 64)); vs_assume(b.i < 0); break; case 7: c = jd(vs_double(("d" + n).c_str())); vs_assume(isFin(c.d)); break; case 22: d = js(vs_bytes(("s" + n).c_str(), NB)); break; }
  return P(F[f].t, {a, b, c, d});
}
// kinds that must be rejected
static int rejects(const string &k, SchemaParser::Version v) {
  bool d3 = v == D3, d4 = v == D4, d7 = v == D7; const int nonObj = NUL | NAT | NEG | FRAC | STR | ASCAL | ANULL | ASTR, nonSchema = nonObj | (d7 ? 0 : BOOL), all = -1;
  if (k == "maximum" || k == "minimum" || k == "divisibleBy" || k == "multipleOf") { if ((k == "divisibleBy" && !d3) || (k == "multipleOf" && d3)) return all; return NUL | BOOL | STR | ASCAL | ANULL | ASTR | ONULL | OSCAL | OSTR; }
  if (k == "exclusiveMaximum" || k == "exclusiveMinimum") return d7 ? NUL | BOOL | STR | ASCAL | ANULL | ASTR | ONULL | OSCAL | OSTR : all;
  if (k == "maxItems" || k == "minItems" || k == "maxLength" || k == "minLength" || k == "maxProperties" || k == "minProperties") return NUL | BOOL | STR | NEG | FRAC | ASCAL | ANULL | ASTR | ONULL | OSCAL | OSTR;
  if (k == "allOf" || k == "anyOf" || k == "oneOf") return NUL | BOOL | NAT | NEG | FRAC | STR | ASCAL | ANULL | ASTR | ONULL | OSCAL | OSTR; if (k == "extends") return d3 ? NUL | BOOL | NAT | NEG | FRAC | STR | ASCAL | ANULL | ASTR : 0;
  if (k == "not" || k == "contains") return nonSchema; if (k == "items") return nonSchema; if (k == "if" || k == "propertyNames") return d7 ? nonObj : all; if (k == "additionalProperties") return nonObj;
  if (k == "properties") return nonObj | BOOL | ONULL | OSCAL | OSTR; if (k == "patternProperties") return nonObj | BOOL | ONULL | OSCAL | OSTR; if (k == "dependencies") return nonObj | BOOL | ONULL | OSCAL | (d3 ? 0 : OSTR);
  if (k == "type") return NUL | BOOL | NAT | NEG | FRAC | STR | ASCAL | ANULL | (d3 ? 0 : ONULL | OSCAL | OSTR); if (k == "enum") return NUL | BOOL | NAT | NEG | FRAC | STR | ONULL | OSCAL | OSTR; if (k == "uniqueItems") return NUL | NAT | NEG | FRAC | STR | ASCAL | ANULL | ASTR | ONULL | OSCAL | OSTR;
  if (k == "required") return d3 ? all & ~BOOL & ~NUL : NUL | BOOL | NAT | NEG | FRAC | STR | ANULL | ONULL | OSCAL | OSTR; if (k == "pattern" || k == "format") return ASCAL | ANULL | ASTR | ONULL | OSCAL | OSTR; if (k == "title" || k == "description") return ASCAL | ANULL | ASTR | ONULL | OSCAL | OSTR;
  return 0;
}
static const char *INST[] = {"null", "true", "7", "-3.5", "''", "'abc'", "[]", "[1,'a',null]", "{}", "{'a':1,'b':'x','':null}", "[[],{}]", "{'a':{'a':[1]},'abc':2,'/':3}"};
// parses, and uses what was accepted; 0 rejected, 1 accepted
static int use(const J &schema, SchemaParser::Version v, int few = 12) {
  Doc d(schema); int ok = 1; RA a = d.ad(); uint64_t base = vs_live(); { Schema s; SchemaParser p(v); try { p.populateSchema(a, s); } catch (const std::exception &) { ok = 0; }
    if (ok) for (int i = 0; i < few; ++i) { J x = P(INST[few == 12 ? i : (i * 5 + 7) % 12]); Doc dx(x); RA ax = dx.ad(); int v0 = 2, v1 = 2; try { Validator val; v0 = val.validate(s, ax, nullptr); } catch (const std::exception &) {} try { Validator val(Validator::kWeakTypes); ValidationResults r; val.validate(s, ax, &r); } catch (const std::exception &) {} try { Validator val; ValidationResults r; v1 = val.validate(s, ax, &r); vs_assert((r.numErrors() == 0) == (v1 == 1), "errors disagree with the verdict"); } catch (const std::exception &) {} vs_assert(v0 == v1 || v0 == 2 || v1 == 2, "verdict"); } }
  if (!ok) vs_assert(vs_live() == base, "memory leaked by a schema that was rejected"); vs_observe("ok", ok); vs_reach(ok ? "ok" : "rejected"); return ok;
}
static J place(uint64_t p, const J &s) { switch (p) { case 0: return s; case 1: return jo({{"properties", jo({{"a", s}})}}); case 2: return jo({{"items", s}}); case 3: return jo({{"anyOf", ja({s, jo()})}}); case 4: return jo({{"items", ja({s})}, {"additionalItems", jb(false)}}); case 5: return jo({{"dependencies", jo({{"a", s}})}}); case 6: return jo({{"additionalProperties", s}}); default: return jo({{"not", s}}); } }
static void warm() { for (auto f : {"date", "time", "date-time", "ipv4"}) vs_observe("warm", accepts(jo({{"format", js(f)}}), js("x"), D7)); }
//@ entry single shards=141 reach=ok,rejected cost=9
VS_ENTRY(single) {
  uint64_t k = vs_shard_choice("keyword", NKW), dr = vs_shard_choice("draft", 3); string kw = KW[k]; if (kw == "format") warm(); uint64_t f = vs_choice("form", NF), p = vs_choice("place", 8); if (kw == "format") { if (p > 1) return; } if (p == 4 && k == 11) return;
#ifndef VS_THOROUGH
  if (F[f].kind == ANY && p && p != 1 + (k + f) % 7) return;
#endif
  SchemaParser::Version v = gver(dr); J s = jo({{kw, form(f, "", kw)}}); if (kw == "then" || kw == "else") s.o.push_back({"if", jo()}); if (kw == "additionalItems") s.o.push_back({"items", P("[{}]")});
  int ok = use(place(p, s), v, p ? 3 : 12); int kind = F[f].kind, r = rejects(kw, v); if ((kw == "then" || kw == "else") && dr == 0) r = NUL | NAT | NEG | FRAC | STR | ASCAL | ANULL | ASTR; if (kw == "additionalItems") r = NUL | NAT | NEG | FRAC | STR | ASCAL | ANULL | ASTR; if (kw == "required" && dr == 2 && p != 1) r = -1; if (kind & r) vs_assert(!ok, "forbidden value accepted");
}
//@ entry root shards=42 reach=ok,rejected cost=1
VS_ENTRY(root) { // any JSON value as the whole schema
  uint64_t f = vs_shard_choice("form", NF), dr = vs_choice("draft", 3), p = vs_choice("place", 8); SchemaParser::Version v = gver(dr); int ok = use(place(p, form(f, "")), v, 4); int kind = F[f].kind; bool obj = kind & (ONULL | OSCAL | OSTR);
  if (p == 0 && kind && !obj && !(kind == BOOL && dr == 0)) vs_assert(!ok, "a schema that is neither object nor boolean accepted"); if (p == 0 && (obj || (kind == BOOL && dr == 0))) vs_assert(ok, "schema without keywords rejected");
}
static const uint64_t PF[] = {0, 1, 3, 8, 9, 12, 13, 14, 15, 23, 24, 26, 28, 30, 33, 34, 35, 36, 37, 6}; enum { NPF = 20 };
//@ entry pairs shards=96 reach=ok,rejected cost=9
VS_ENTRY(pairs) { // two keywords that may interact
  uint64_t n = vs_shard_choice("pair", NKW * (NKW - 1) / 2), i = 0; while (n >= NKW - 1 - i) { n -= NKW - 1 - i; ++i; } uint64_t j = i + 1 + n;
#ifdef VS_THOROUGH
  uint64_t dr = vs_choice("draft", 3);
#else
  uint64_t dr = (i + j) % 4 == 3 ? 2 : (i + j) % 4 == 2 ? 1 : 0;
#endif
  uint64_t a = PF[vs_choice("first", NPF)], b = PF[vs_choice("second", NPF)]; use(jo({{KW[i], form(a, "1", KW[i])}, {KW[j], form(b, "2", KW[j])}}), gver(dr), 3);
}
//@ entry nested shards=180 reach=ok,rejected cost=9
VS_ENTRY(nested) { // an arbitrary keyword with an arbitrary value below a schema-valued keyword
  static const char *O[] = {"{'allOf':[$0]}", "{'oneOf':[$0,{}]}", "{'contains':$0}", "{'dependencies':{'a':$0}}", "{'items':[{},$0],'additionalItems':$0}", "{'if':$0,'then':$0,'else':$0}", "{'propertyNames':$0}", "{'patternProperties':{'a|b':$0}}", "{'properties':{'$ref':$0,'a':$0}}", "{'enum':[$0,{'$ref':'#'}],'const':$0}", "{'definitions':{'x':$0},'properties':{'a':{'$ref':'#/definitions/x'}}}", "{'definitions':$0,'properties':{'a':{'$ref':'#/definitions/a'}}}"};
  uint64_t o = vs_shard_choice("outer", 12), g = vs_shard_choice("group", 15), k = vs_choice("keyword", 4) * 15 + g; if (k >= NKW) return; uint64_t f = vs_choice("form", NF); string kw = KW[k];
#ifdef VS_THOROUGH
  uint64_t dr = vs_choice("draft", 3);
#else
  uint64_t dr = (k + f) % 3;
#endif
  if (kw == "format") return; use(P(O[o], {jo({{kw, form(f, "", kw)}})}), gver(dr), 3);
}
static const char *TAIL = "'definitions':{'':{'maximum':3},'a':{'$ref':'#/definitions/b'},'b':{'$ref':'#/definitions/c'},'c':{'$ref':'#/definitions/a'},'d':{'$ref':'#/definitions/e/items/0'},'e':{'items':[{'$ref':'#/definitions/g'}]},'f':5,'g':{'properties':{'a':{'$ref':'#/definitions/g'}}},'h':[{},{'$ref':'#/definitions/h/0'},[]],'~':{'$ref':'#/definitions/~1'},'/':{'minimum':2},'i':{'$ref':7},'j':{'$ref':'#/definitions/j'},'k':{'$ref':'#'},'%':true}";
//@ entry refs shards=34 reach=ok,rejected cost=9
VS_ENTRY(refs) {
  static const char *R[] = {"'#'", "''", "'#/'", "'#//'", "'x'", "'#x'", "'http://h/'", "'urn:a:b'", "'#/definitions'", "'#/definitions/h/1'", "'#/definitions/h/-'", "'#/definitions/h/01'", "'#/definitions/e/items'", "5", "null", "true", "{}", "[]", "['#']", "{'$ref':'#'}"};
  vs_observe("warm", parses(jo({{"not", jo({{"$ref", js("urn:x:y")}})}}))); // the expression that recognises URNs is compiled once per process
  uint64_t k = vs_shard_choice("k", 17), pl = vs_shard_choice("where", 2), dr = vs_choice("draft", 3); J r; if (k < 12) { static const char *PRE[] = {"#", "#/", "#/definitions/"}; r = js(PRE[k / 4] + vs_bytes("p", k % 4)); } else r = P(R[(k - 12) * 4 + vs_choice("r", 4)]); J ref = jo({{"$ref", r}, {"type", js("nothing")}}); J s = P(pl ? (string("{'properties':{'a':$0},") + TAIL + "}").c_str() : (string("{'items':[{},$0],'additionalProperties':$0,") + TAIL + "}").c_str(), {ref}); use(s, gver(dr), 3);
}
struct Counting : SchemaParser { int n = 0; Counting() : SchemaParser(kDraft7) {} std::optional<std::string> resolveDocumentUri(const std::optional<std::string> &scope, const std::optional<std::string> &u) override { if (++n > 40) throw n; return u ? u : scope; } };
//@ entry endless reach=cycle
VS_ENTRY(endless) { // schemas that are only references must not be parsed for ever
  static const char *S[] = {"{'$ref':'#'}", "{'$ref':'#/a','a':{'$ref':'#'}}", "{'$ref':'#/a','a':{'$ref':'#/b'},'b':{'$ref':'#/a'}}"}; J s = P(S[vs_choice("k", 3)]); Doc d(s); RA a = d.ad(); int endless = 0; bool ok = true;
  try { Schema sc; Counting p; p.populateSchema(a, sc); } catch (const std::exception &) { ok = false; } catch (int) { endless = 1; } vs_observe("endless", endless); vs_reach("cycle"); vs_known(!endless && !ok, "cycle of references at the root", endless, "root-ref-cycle");
}

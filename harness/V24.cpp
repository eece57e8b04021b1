#include "ref.h"
#include "large.h"
//@ bounds 48 patterns (anchors, alternation, groups, classes and their negations, quantifiers, escapes, literals that are NUL, newline or non-ASCII) against every byte string of up to 4 (thorough: 6) bytes; patterns whose literals are symbolic; strings of 70 bytes with symbolic ends
//@ bounds two patterns in one schema, and one validator used for two schemas, over pairs of equal, similar and different patterns, with strings of up to 2 arbitrary bytes; instances of every other type
//@ outside back-references, look-ahead, multi-byte characters within classes, word boundaries; patterns that are not valid regular expressions; other regular-expression engines
using std::string;
struct Pt { const char *p; unsigned n; };
#define PT(s) {s, sizeof(s) - 1}
static const Pt PTS[] = {PT("a"), PT("^a"), PT("a$"), PT("^a$"), PT("^$"), PT(""), PT("^"), PT("$"), PT("."), PT("^.$"), PT("^..$"), PT("a.b"), PT("[a-c]"), PT("^[a-c]+$"), PT("[^a]"), PT("^[^a-c]*$"), PT("\\d"), PT("^\\d{2}$"), PT("\\D"), PT("\\w$"), PT("^\\W"), PT("\\s"), PT("^\\S+$"), PT("a|b"), PT("^a|b$"), PT("^(a|b)$"), PT("^(ab)*$"), PT("(a|^b)c"), PT("a?b"), PT("^a?b?$"), PT("a{2}"), PT("^a{1,2}$"), PT("^[ab]{2,}$"), PT("a+b*"), PT("\\."), PT("\\\\"), PT("^\\^\\$"), PT("\n"), PT("^\n$"), PT("a\nb"), PT("\xc3\xa9"), PT("^[\\d_-]$"), PT("x-y"), PT("/"), PT("^(?:a|bc)$"), PT("(^|-)a($|-)"), PT("a\0b"), PT("^\0$")};
enum { NP = sizeof PTS / sizeof *PTS };
static string pat(uint64_t k) { return string(PTS[k].p, PTS[k].n); }
#ifdef VS_THOROUGH
enum { N = 6 };
#else
enum { N = 4 };
#endif
static void check(const string &p, const string &s) { bool w = rxFind(p, s); bool ok = verdict(jo({{"pattern", js(p)}}), js(s), D7); vs_observe("ok", ok); vs_reach(w ? "in" : "out"); vs_assert(ok == w, w ? "matching string rejected" : "string without a match accepted"); }
//@ entry list shards=48 reach=in,out cost=6
VS_ENTRY(list) { uint64_t k = vs_shard_choice("pattern", NP); check(pat(k), vs_bytes("s", vs_choice("len", N + 1))); }
static bool alnum(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9'); }
//@ entry literal shards=10 reach=in,out cost=6
VS_ENTRY(literal) { // symbolic literal characters in the pattern
  uint64_t f = vs_shard_choice("form", 5); bool other = vs_shard_choice("other", 2); char c = (char)vs_sym("c", 8); if (other) vs_assume((unsigned char)c >= 0x80 || c == '/' || c == ' ' || c == '"' || c == '~' || c == '%' || c == '-' || c == ',' || c == '#'); else vs_assume(alnum((unsigned char)c)); string C(1, c);
  check(f == 0 ? C : f == 1 ? "^" + C + "$" : f == 2 ? "^" + C + "b" : f == 3 ? "a|" + C + "$" : "x" + C + "*y", vs_bytes("s", vs_choice("len", 4)));
}
//@ entry longer reach=in,out cost=4
VS_ENTRY(longer) { static const char *P_[] = {"^a", "b$", "ab", "^[^b]+$"}; string s = vs_bytes("s", 1) + string(68, 'x') + vs_bytes("e", 2); check(P_[vs_choice("p", 4)], s); }
static const char *SIM[] = {"^a", "^b", "a$", "^a$", "a", "a|b"};
//@ entry pair shards=36 reach=in,out cost=4
VS_ENTRY(pair) { // patterns at two places of one schema, one validator
  uint64_t i = vs_shard_choice("p", 6), j = vs_shard_choice("q", 6); string s = vs_bytes("s", vs_choice("len", 3)), t = vs_bytes("t", 1); J sc = P("{'items':[{'pattern':$0},{'pattern':$1}]}", {js(SIM[i]), js(SIM[j])}); bool w = rxFind(SIM[i], s) & rxFind(SIM[j], t); bool ok = verdict(sc, ja({js(s), js(t)}), D7); vs_reach(w ? "in" : "out"); vs_assert(ok == w, "two patterns");
}
//@ entry reuse shards=36 reach=in,out cost=4
VS_ENTRY(reuse) { // one validator, two schemas, and patternProperties sharing the expressions
  uint64_t i = vs_shard_choice("p", 6), j = vs_shard_choice("q", 6); string s = vs_bytes("s", 1), t = vs_bytes("t", vs_choice("len", 3)); Schema a; parseInto(a, jo({{"pattern", js(SIM[i])}})); Schema c; parseInto(c, jo({{"pattern", js(SIM[j])}, {"minLength", ji(0)}}));
  Schema d; parseInto(d, jo({{"patternProperties", jo({{SIM[j], jb(false)}})}})); Validator v; Doc x(js(s)), y(js(t)), z(jo({{t, jn()}})); RA ax = x.ad(), ay = y.ad(), az = z.ad(); bool r1 = v.validate(a, ax, nullptr), r2 = v.validate(c, ay, nullptr), r3 = v.validate(d, az, nullptr), r4 = v.validate(a, ay, nullptr);
  bool w2 = rxFind(SIM[j], t); vs_reach(w2 ? "in" : "out"); vs_assert(r1 == rxFind(SIM[i], s), "first schema"); vs_assert(r2 == w2, "second schema"); vs_assert(r3 == !w2, "patternProperties"); vs_assert(r4 == rxFind(SIM[i], t), "first schema again");
}
//@ entry others reach=in
VS_ENTRY(others) { uint64_t t = vs_choice("type", 6); J x = t == 0 ? jn() : t == 1 ? jb(vs_choice("b", 2)) : t == 2 ? ji((int64_t)vs_sym("i", 64)) : t == 3 ? jd(1.5) : t == 4 ? ja({js("x")}) : jo({{"x", js("x")}}); bool ok = verdict(P("{'pattern':'^zzz$'}"), x, D7); vs_reach("in"); vs_assert(ok, "pattern rejects a value that is not a string"); }
//@ bounds strings of 17, 65 and 260 bytes with a symbolic byte at the first, middle or last places; patterns of 40 and 130 characters that share all but their ends; schemas with 17 and 65 patterns
//@ entry large shards=12 reach=in,out cost=4
VS_ENTRY(large) {
  uint64_t k = vs_shard_choice("kind", 4), z = vs_shard_choice("size", 3), n = LG_N[z], p = lgPos(n); string s; for (uint64_t i = 0; i < n; ++i) s += (char)('a' + i % 3); unsigned char c = vs_u8("c");
  if (k < 2) { static const char *Q[] = {"[^a-c]", "^[a-c]*$", "d$", "^[^x]*x", "\\n"}; s[p] = (char)c; check(Q[vs_choice("p", 5)], s); return; }
  if (k == 2) { string q(z == 0 ? 40 : 130, 'n'); if (z == 2) q[0] = '^'; static const char *E[] = {"a$", "b$", "", "[ab]"}; uint64_t e = vs_choice("e", 4), f = vs_choice("f", 4); string x = (z == 2 ? q.substr(1) : q) + string(1, (char)c); bool w = rxFind(q + E[e], x) && rxFind(q + E[f], x); bool ok = verdict(jo({{"allOf", ja({jo({{"pattern", js(q + E[e])}}), jo({{"pattern", js(q + E[f])}})})}}), js(x), D7); vs_observe("ok", ok); vs_reach(w ? "in" : "out"); vs_assert(ok == w, "long patterns"); return; }
  uint64_t m = z == 0 ? 17 : 65; p = p < 2 ? 2 : p >= m ? m - 1 : p; JO o; J v = lgInt("x"); for (uint64_t i = 0; i < m; ++i) o.push_back({"^" + lgName(i) + "$", i == p ? P("{'maximum':3}") : jo({{"pattern", js("^" + string(i % 7, 'q'))}})}); lgCheck(jo({{"patternProperties", jo(o)}, {"additionalProperties", jb(z == 2)}}), jo({{lgName(0), js("qqqqqqqq")}, {lgName(p), v}, {vs_choice("o", 2) ? "other" : lgName(1), js("qqqqqqqq")}}));
}

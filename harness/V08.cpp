#include "ref.h"
#ifdef VS_THOROUGH
enum { NL = 3 };
#else
enum { NL = 2 };
#endif
//@ bounds objects of 0 to 3 members with symbolic names (every byte string of up to 2, thorough 3, bytes, NULs included) and symbolic values, against properties with up to 2 names, up to 2 of 12 patterns, and additionalProperties absent, true, false or a schema, in Drafts 3, 4 and 7, with and without a results object
//@ bounds property names and patterns that contain '/', '~', '%' or look like schema paths: every ordered pair of 20 such names whose subschemas have further subschemas, and references to them
//@ outside objects with two members of the same name; longer names; more patterns (their meaning is V24's)
static SchemaParser::Version ver(uint64_t v) { return v == 0 ? D7 : v == 1 ? D4 : D3; }
static J val(const char *n) { return ji((int64_t)vs_sym(n, 8)); }
static J sub(const char *n, uint64_t k) { return k == 0 ? jo({{"enum", ja({val(n)})}}) : k == 1 ? P("{'type':'string'}") : jo({{"maximum", val(n)}}); }
static void addl(J &s, uint64_t k) { if (k == 1) s.o.emplace_back("additionalProperties", jb(true)); if (k == 2) s.o.emplace_back("additionalProperties", jb(false)); if (k == 3) s.o.emplace_back("additionalProperties", sub("ap", 0)); }
static void check(const J &s, const J &x, SchemaParser::Version v = D7) { bool w = want(s, x, v), ok = verdict(s, x, v); vs_observe("ok", ok); vs_reach(w ? "in" : "out"); vs_assert(ok == w, "members"); }
//@ entry exact shards=36 reach=in,out cost=5
VS_ENTRY(exact) { // one symbolic property name, two symbolic member names
  uint64_t ap = vs_shard_choice("ap", 4), lp = vs_shard_choice("lp", NL + 1), l1 = vs_shard_choice("l1", NL + 1); std::string p = vs_bytes("p", lp), a = vs_bytes("a", l1);
  uint64_t two = vs_choice("two", 2); J x = jo({{a, val("x")}}); if (two) { std::string b = vs_bytes("b", vs_choice("l2", NL)); vs_assume(b != a); x.o.emplace_back(b, val("y")); }
  J s = jo({{"properties", jo({{p, sub("s", 0)}})}}); addl(s, ap); check(s, x);
}
static const char *PN[] = {"a", "ab", "", "b/c", "~1", "%61", "a%", "\xc3\xa9"};
//@ entry two shards=56 reach=in,out cost=5
VS_ENTRY(two) { // two property names, up to three members with names from the same list or symbolic
  uint64_t i = vs_shard_choice("i", 8), j = vs_shard_choice("j", 8), dr = vs_choice("draft", 3); if (i == j) return;
  J s = jo({{"properties", jo({{PN[i], sub("s", 0)}, {PN[j], sub("t", 1)}})}}); addl(s, vs_choice("ap", 4));
  J x = jo(); uint64_t m = vs_choice("members", 6); if (m & 1) x.o.emplace_back(PN[j], vs_choice("str", 2) ? js("q") : val("y")); if (m & 2) x.o.emplace_back(PN[i], val("x")); if (m >= 4) { std::string c(1, (char)vs_sym("c", 8)); vs_assume(c != PN[i] && c != PN[j]); x.o.emplace_back(c, val("z")); }
  check(s, x, ver(dr));
}
static const char *PAT[] = {"^a", "b$", "a", "^[a-c]+$", "", "^$", "a/b", ".", "~", "[^a]", "^a|b$", "x?y"};
//@ entry patterns shards=48 reach=in,out cost=9
VS_ENTRY(patterns) { // one pattern and one property against symbolic names
  uint64_t i = vs_shard_choice("i", 12), ap = vs_shard_choice("ap", 4), l = vs_choice("l", 3); J s = jo({{"patternProperties", jo({{PAT[i], sub("s", 0)}})}});
  if (vs_choice("prop", 2)) s.o.insert(s.o.begin(), {"properties", jo({{"ab", sub("t", 2)}})}); addl(s, ap); J x = jo({{vs_bytes("n", l), val("x")}}); check(s, x);
}
//@ entry pairs shards=144 reach=in,out cost=9
VS_ENTRY(pairs) { // two patterns, members that match none, one or both
  uint64_t i = vs_shard_choice("i", 12), j = vs_shard_choice("j", 12), ap = vs_choice("ap", 4), n = vs_choice("n", 6); if (i == j) return; static const char *M[] = {"a", "b", "ab", "ba", "", "a/b", "zz"};
  J s = jo({{"patternProperties", jo({{PAT[i], sub("s", 0)}, {PAT[j], sub("t", 0)}})}}); addl(s, ap); J x = jo({{M[n], val("x")}, {M[n + 1], val("y")}}); check(s, x, ver(vs_choice("draft", 3)));
}
static const char *SN[] = {"a", "a/items", "a/properties/b", "a~1items", "a%2Fitems", "/", "~", "~1", "~01", "%", "%25", "a/b", "a%2fb", "", "items", "a/items/0", "properties/a", "#/properties/a", "a/additionalProperties", "a/not"};
//@ entry paths shards=40 reach=in,out cost=9
VS_ENTRY(paths) { // names that look like paths do not get one another's subschemas, nor when referred to
  uint64_t i = vs_shard_choice("i", 20), j = vs_choice("j", 20), k = vs_shard_choice("kind", 2); if (i == j) return;
  J a = P("{'items':{'type':'integer'},'properties':{'b':{'type':'string'}},'additionalProperties':{'type':'null'},'not':{'enum':[$0]}}", {val("q")}), b = jo({{"enum", ja({val("s"), P("[1]"), js("z")})}});
  J s; if (k == 0) s = jo({{"properties", jo({{SN[i], a}, {SN[j], b}})}}); else s = jo({{"patternProperties", jo({{"a/items", P("{'type':'string'}")}, {"a", P("{'items':{'type':'integer'}}")}, {"a%2F", P("{'maxItems':1}")}})}, {"properties", jo({{SN[i], a}, {SN[j], b}})}});
  J x; switch (vs_choice("inst", 7)) { case 0: x = ji((int64_t)vs_sym("x", 8)); break; case 1: x = ja({ji(1)}); break; case 2: x = ja({js("z")}); break; case 3: x = P("{'b':'z'}"); break; case 4: x = P("{'b':1}"); break; case 5: x = P("{'c':null}"); break; default: x = js("z"); }
  check(s, jo({{SN[vs_choice("which", 2) ? i : j], x}}));
}
//@ entry refs shards=20 reach=in,out cost=5
VS_ENTRY(refs) { // a reference to a property of a given name means that property
  uint64_t i = vs_shard_choice("i", 20), j = vs_choice("j", 20); if (i == j) return; std::string e, f; static const char *H = "0123456789ABCDEF";
  uint64_t enc = vs_choice("encoding", 2); for (const char *c = SN[i]; *c; ++c) if (*c == '~') e += "~0"; else if (*c == '/') e += enc ? "%2F" : "~1"; else if (*c == '%' || enc) { e += '%'; e += H[(uint8_t)*c >> 4]; e += H[*c & 15]; } else e += *c;
  // with enc, '~0' written as "%7E0"
  if (enc) { for (char c : e) if (c == '~') f += "%7E"; else f += c; e = f; } if (e.empty()) return;
  J s = jo({{"properties", jo({{"first", jo({{"$ref", js("#/properties/" + e)}})}, {SN[j], P("{'type':'string'}")}, {SN[i], jo({{"enum", ja({val("s")})}})}, {"last", jo({{"$ref", js("#/properties/" + e)}})}})}});
  static const char *W[] = {"first", "last"}; check(s, jo({{W[vs_choice("which", 2)], vs_choice("str", 2) ? js("z") : val("x")}}));
}
//@ entry others reach=in
VS_ENTRY(others) { uint64_t t = vs_choice("type", 6); J x = t == 0 ? jn() : t == 1 ? jb(true) : t == 2 ? val("x") : t == 3 ? jd(1.5) : t == 4 ? js("a") : ja({jo({{"a", ji(1)}})}); check(P("{'properties':{'a':{'not':{}}},'patternProperties':{'':{'not':{}}},'additionalProperties':false}"), x, ver(vs_choice("draft", 3))); }

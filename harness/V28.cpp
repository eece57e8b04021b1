#ifndef VS_NATIVE // the code for processors without vector instructions
#include <boost/json/detail/config.hpp>
#undef BOOST_JSON_USE_SSE2
#endif
#include "libs.h"
//@ bounds files: every text of up to 2 (thorough 3) characters; seven documents of up to 60 characters with any one character replaced by any other, truncated anywhere, and with any character put in anywhere; two symbolic letters and digits inside a document; files of 300 and 5000 characters
//@ bounds loadFile: up to 4 arbitrary bytes alone and within files of 5, 6 and 4100 bytes
//@ bounds paths that name nothing, a directory, a file that cannot be read; documents that held another value before
//@ bounds libraries: RapidJSON (two allocators), nlohmann::json, PicoJSON, Boost.JSON
//@ outside files with characters beyond ASCII or NUL; numbers outside the range of the library and the last digits of fractions; duplicate names; nesting beyond 32; malformed files that PicoJSON itself reads leniently (text after the document, forms of numbers; those that it rejects must be rejected); json11 (not installed) and property trees (loaded by Boost alone); the parsers of JsonCpp, Poco, Qt and yaml-cpp themselves
//@ stub std::ifstream, std::istreambuf_iterator and std::cerr are replaced by stand-ins over a file held in memory (open, position, read to the end); a directory opens and has no position, as on Linux. Native replays use real files in a scratch directory
#include "vsfile.h"
#include <valijson/utils/boost_json_utils.hpp>
#include <valijson/utils/nlohmann_json_utils.hpp>
#include <valijson/utils/picojson_utils.hpp>
#include <valijson/utils/rapidjson_utils.hpp>
#undef ifstream
#undef istreambuf_iterator
#undef cerr
#undef ostringstream
#undef stringstream
#include "vstext.h"
enum { NL = 5 };
template <class A, class D> static int load1(const string &path, const J &w, D &d) { bool ok; try { ok = valijson::utils::loadDocument(path, d); } catch (...) { vs_observe("threw", 1); return 2; } return ok ? same(A(d), w) ? 1 : 3 : 0; }
typedef rapidjson::GenericDocument<rapidjson::UTF8<>, rapidjson::CrtAllocator> CrtDoc; typedef valijson::adapters::GenericRapidJsonAdapter<rapidjson::GenericValue<rapidjson::UTF8<>, rapidjson::CrtAllocator>> CA;
static int load(uint64_t lib, const string &path, const J &w, bool before) { J old = P("{'a':[1,2],'old':'text'}"); switch (lib) { case 0: { Doc d(before ? old : jn()); return load1<RA>(path, w, d.d); } case 1: { NDoc d(before ? old : jn()); return load1<NA>(path, w, d.d); } case 2: { PDoc d(before ? old : jn()); return load1<PA>(path, w, d.d); } case 3: { BDoc d(before ? old : jn()); return load1<BA>(path, w, d.d); } default: { CrtDoc d; return load1<CA>(path, w, d); } } }
static void judge(uint64_t lib, const string &text, bool before = false) {
  Txt t{text}; J w = t.all(); if (t.big) return; if (t.bad && lib == 2) { vs_reach("rejected"); string p = place(0, text); int r = load(lib, p, w, before); unplace(); vs_assert(r != 2, "exception"); picojson::value v; bool lenient = picojson::parse(v, text).empty(); vs_assert(lenient == (r != 0), "malformed by PicoJSON's own judgement"); return; } string p = place(0, text); int r = load(lib, p, w, before); unplace(); vs_observe("r", (uint64_t)r); vs_reach(t.bad ? "rejected" : "loaded"); vs_assert(r != 2, "exception"); if (t.bad) vs_assert(r == 0, "malformed file loaded"); else { vs_assert(r != 0, "well-formed file rejected"); vs_assert(r == 1, "another document"); } }
static char ascii(const char *n) { char c = (char)vs_sym(n, 8); vs_assume((c > 0) & ((unsigned char)c < 0x7f)); return c; }
//@ entry tiny shards=5 reach=loaded,rejected cost=4
VS_ENTRY(tiny) { // every short text
  uint64_t lib = vs_shard_choice("lib", NL);
#ifdef VS_THOROUGH
  uint64_t n = vs_choice("len", 4);
#else
  uint64_t n = vs_choice("len", 3);
#endif
  string s; for (uint64_t i = 0; i < n; ++i) s += ascii("c"); judge(lib, s); }
static const char *T[] = {"{\"a\":[1,-2,{\"b\":null}],\"c\":\"x y\"}", "[true,false,null,\"\\n\\u0041/\",12]", " {\"type\" :\"object\",\n\"properties\":{\"k\":{\"maximum\":7}} }\n", "\"s\"", "-12", "[[],{},[[1.5]],\"\"]", "{}"};
//@ entry replaced shards=35 reach=loaded,rejected cost=3
VS_ENTRY(replaced) { uint64_t lib = vs_shard_choice("lib", NL), k = vs_shard_choice("text", 7); string s = T[k]; uint64_t at = vs_choice("at", s.size()); s[at] = ascii("c"); judge(lib, s); }
//@ entry inserted shards=35 reach=loaded,rejected cost=3
VS_ENTRY(inserted) { uint64_t lib = vs_shard_choice("lib", NL), k = vs_shard_choice("text", 7); string s = T[k]; uint64_t at = vs_choice("at", s.size() + 1); s.insert(at, 1, ascii("c")); judge(lib, s, true); }
//@ entry cut shards=5 reach=loaded,rejected
VS_ENTRY(cut) { uint64_t lib = vs_shard_choice("lib", NL), k = vs_choice("text", 7); string s = T[k]; uint64_t from = vs_choice("side", 2), n = vs_choice("n", s.size() + 1); judge(lib, from ? s.substr(n) : s.substr(0, n)); }
//@ entry large shards=5 reach=loaded,rejected
VS_ENTRY(large) { // a symbolic character far into the file
  uint64_t lib = vs_shard_choice("lib", NL), n = vs_choice("n", 2) ? 5000 : 300, at = vs_choice("at", 3); string s = "[\"" + string(n, 'x') + "\",[1,2,3]" + string(n / 2, ' ') + ",{\"k\":\"v\"}]"; size_t i = at == 0 ? n - 1 : at == 1 ? s.size() - 2 : n + 20; s[i] = ascii("c"); judge(lib, s); }
//@ entry absent shards=5 reach=any
VS_ENTRY(absent) { // nothing to read
  uint64_t lib = vs_shard_choice("lib", NL), k = vs_choice("kind", 3), before = vs_choice("before", 2); string p = place((int)k + 1, "{}"); int r = load(lib, p, jo(), before); unplace(); vs_reach("any"); vs_observe("r", (uint64_t)r); vs_assert(r != 2, "exception"); vs_assert(r == 0, "loaded although there is no file"); }
//@ entry bytes shards=2 reach=any
VS_ENTRY(bytes) { // loadFile gives the bytes of the file, whatever they are
  uint64_t n = vs_choice("n", 5), pad = vs_choice("pad", 3), before = vs_shard_choice("before", 2); string s(pad == 2 ? 4095 : pad, 'p'); s += vs_bytes("b", n); if (pad) s += "\r\n\x1a" "z"; string got = before ? "something that was there before" : "", p = place(0, s); bool ok = valijson::utils::loadFile(p, got); vs_reach("any"); vs_assert(ok, "loaded"); vs_assert(got.size() == s.size(), "length"); for (size_t i = 0; i < s.size() && i < got.size(); ++i) vs_assert(got[i] == s[i], "byte"); string other; vs_assert(!valijson::utils::loadFile(p + "x", other), "no such file"); unplace(); }
//@ entry usable shards=5 reach=in,out
VS_ENTRY(usable) { // a document that was loaded serves as schema and as instance
  uint64_t lib = vs_shard_choice("lib", NL); int64_t m = (int64_t)(vs_sym("m", 8) % 10), x = (int64_t)(vs_sym("x", 8) % 10); string s = "{\"properties\":{\"k\":{\"maximum\":?}}}", i = "{\"k\":?}"; for (auto &c : s) if (c == '?') c = (char)('0' + m); for (auto &c : i) if (c == '?') c = (char)('0' + x); bool w = x <= m, ok = false; vs_reach(w ? "in" : "out");
  auto go = [&](auto &ds, auto &di, auto *a) { using A = std::decay_t<decltype(*a)>; string p = place(0, s); vs_assert(valijson::utils::loadDocument(p, ds), "schema"); unplace(); p = place(0, i); vs_assert(valijson::utils::loadDocument(p, di), "instance"); unplace(); Schema sc; SchemaParser ps; A sa(ds), ia(di); ps.populateSchema(sa, sc); Validator v; ok = v.validate(sc, ia, nullptr); };
  if (lib == 0) { RD a, b; go(a, b, (RA *)nullptr); } else if (lib == 1) { nlohmann::json a, b; go(a, b, (NA *)nullptr); } else if (lib == 2) { picojson::value a, b; go(a, b, (PA *)nullptr); } else if (lib == 3) { boost::json::value a, b; go(a, b, (BA *)nullptr); } else { CrtDoc a, b; go(a, b, (CA *)nullptr); } vs_observe("ok", ok); vs_assert(ok == w, "verdict of loaded documents"); }

#include "hx.h"
#include "large.h"
#include <valijson/internal/json_pointer.hpp>
//@ bounds pointers of up to 4 (thorough: 5) arbitrary bytes against a document with every kind of node and member names "", "a", "0", "a/b", "~", "~1", "%", "%41"; member names of 2 and 3 arbitrary bytes against pointers of up to 4 arbitrary bytes; arrays of up to 12 elements against index tokens of up to 3 (thorough: 4) arbitrary bytes and of 10 to 21 digits; two and three tokens over nested documents with symbolic bytes in every token; tokens with one to three %-encodings of arbitrary digits
//@ outside the lenient variant that skips empty tokens, except that it agrees with the strict one on pointers without them
using namespace valijson::internal::json_pointer;
using std::string;
static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static bool decode(const string &t, string &o) {
  string p; for (size_t i = 0; i < t.size(); ++i) { if (t[i] != '%') { p += t[i]; continue; } if (i + 2 >= t.size()) return false; int a = hexv(t[i + 1]), b = hexv(t[i + 2]); if (a < 0 || b < 0) return false; p += (char)(a * 16 + b); i += 2; }
  for (size_t i = 0; i < p.size(); ++i) { if (p[i] != '~') { o += p[i]; continue; } if (i + 1 >= p.size()) return false; char c = p[++i]; if (c == '0') o += '~'; else if (c == '1') o += '/'; else return false; }
  return true;
}
static const J *ref(const J &d, const string &ptr) { // RFC 6901 section 4
  const J *n = &d; size_t i = 0;
  while (i < ptr.size()) {
    if (ptr[i] != '/') return nullptr; size_t e = i + 1; while (e < ptr.size() && ptr[e] != '/') ++e; string t; if (!decode(ptr.substr(i + 1, e - i - 1), t)) return nullptr; i = e;
    if (n->k == J::Obj) { n = n->get(t); if (!n) return nullptr; }
    else if (n->k == J::Arr) { if (t.empty() || t.size() > 9 || (t[0] == '0' && t.size() > 1)) return nullptr; size_t v = 0; for (char c : t) { if (c < '0' || c > '9') return nullptr; v = v * 10 + (c - '0'); } if (v >= n->a.size()) return nullptr; n = &n->a[v]; }
    else return nullptr;
  }
  return n;
}
static bool same(const RA &a, const J &j) {
  switch (j.k) {
  case J::Null: return a.isNull(); case J::Bool: return a.isBool() && a.getBool() == j.b; case J::Int: return a.isInteger() && a.getInteger() == j.i; case J::Dbl: return a.isDouble() && a.getDouble() == j.d; case J::Str: return a.isString() && a.getString() == j.s;
  case J::Arr: { if (!a.isArray() || a.getArraySize() != j.a.size()) return false; size_t i = 0; for (const RA e : a.getArray()) if (!same(e, j.a[i++])) return false; return true; }
  default: { if (!a.isObject() || a.getObjectSize() != j.o.size()) return false; size_t i = 0; for (const RA::ObjectMember m : a.getObject()) { if (m.first != j.o[i].first || !same(m.second, j.o[i].second)) return false; ++i; } return true; }
  }
}
static bool emptyTok(const string &p) { for (size_t i = 0; i < p.size(); ++i) if (p[i] == '/' && (i + 1 == p.size() || p[i + 1] == '/')) return true; return false; }
static void check(const J &d, const string &ptr) {
  const J *w = ref(d, ptr); Doc doc(d); RA root = doc.ad(); bool ok = false, got = false;
  try { RA r = resolveJsonPointerStrict(root, ptr); got = true; ok = w && same(r, *w); } catch (const std::exception &) {}
  vs_observe("got", got); vs_reach(w ? "found" : "fail"); vs_assert(got == (w != nullptr), w ? "designated value not found" : "pointer that designates nothing resolved"); if (w) vs_assert(ok, "wrong value");
  if (!emptyTok(ptr)) { bool g2 = false, ok2 = false; try { RA r = resolveJsonPointer(root, ptr); g2 = true; ok2 = w && same(r, *w); } catch (const std::exception &) {} vs_assert(g2 == got && ok2 == ok, "lenient resolution differs"); }
}
#ifdef VS_THOROUGH
enum { N = 5 };
#else
enum { N = 4 };
#endif
//@ entry bytes shards=30 reach=found,fail cost=9
VS_ENTRY(bytes) { J d = P("{'':[1,[2,3],{'0':4}],'a':{'':5,'b':6},'0':7,'a/b':'8','~':9,'~1':10,'%':11,'%41':12,'A':null}"); uint64_t n = vs_shard_choice("len", N + 1), k = vs_shard_choice("root", 6); if (k == 1) d = d.o[0].second; else if (k == 2) d = ji(5); else if (k == 3) d = js(""); else if (k == 4) d = ja(); else if (k == 5) d = jo(); check(d, vs_bytes("p", n)); }
//@ entry names shards=10 reach=found,fail cost=6
VS_ENTRY(names) { uint64_t n = vs_shard_choice("len", N + 1); bool two = vs_shard_choice("two", 2); string a = vs_bytes("n", 2), b = vs_bytes("m", two ? 2 : 1); vs_assume(a != b); check(jo({{a, ji(1)}, {b, ja({ji(2)})}}), "/" + vs_bytes("p", n)); }
//@ entry index shards=65 reach=found,fail cost=6
VS_ENTRY(index) { uint64_t n = vs_shard_choice("size", 13), l = vs_shard_choice("len", 5);
#ifndef VS_THOROUGH
  if (l == 4 || (l == 3 && n != 12)) return;
#endif
  J a = ja(); for (uint64_t i = 0; i < n; ++i) a.a.push_back(ji((int64_t)i + 100)); check(a, "/" + vs_bytes("p", l)); }
//@ entry bigindex shards=5 reach=fail cost=6
VS_ENTRY(bigindex) { // indices around 2^32, 2^63 and 2^64
  static const char *B[] = {"429496729", "922337203685477580", "1844674407370955161", "18446744073709551616", "999999999999999999999999999"}; char c = (char)vs_sym("c", 8); J a = ja({ji(1), ji(2), ji(3)}); check(a, string("/") + B[vs_shard_choice("base", 5)] + string(1, c));
}
//@ entry nested shards=27 reach=found,fail cost=9
VS_ENTRY(nested) {
  string n = vs_bytes("n", 1), m = vs_bytes("m", 1); vs_assume(n != m); J in = jo({{m, ja({ji(1), jo({{n, ji(2)}}), js("x")})}, {n, ji(3)}}), d = vs_shard_choice("root", 3) == 0 ? ja({jn(), in}) : jo({{n, in}, {m, in.o[0].second}}); string p; uint64_t k = 1 + vs_shard_choice("tokens", 3), f = vs_shard_choice("slash", 3);
  static const char *T[] = {"t", "u", "v"}; for (uint64_t i = 0; i < k; ++i) { p += "/"; p += vs_bytes(T[i], i == f ? 2 : 1); } check(d, p);
}
//@ entry percent shards=16 reach=found,fail cost=6
VS_ENTRY(percent) {
  string n = vs_bytes("n", 2); uint64_t k = vs_shard_choice("form", 8), arr = vs_shard_choice("arr", 2); string h = vs_bytes("h", 2), g = k == 1 || k == 6 ? vs_bytes("g", 2) : string(); J d = jo({{n, ji(1)}}); if (arr) { d = ja(); for (int i = 0; i < 11; ++i) d.a.push_back(ji(i)); }
  check(d, k == 0 ? "/%" + h : k == 1 ? "/%" + h + "%" + g : k == 2 ? "/x%" + h : k == 3 ? "/%" + h + "x" : k == 4 ? "/%7e" + h : k == 5 ? "/%25" + h : k == 6 ? "/%7E%" + h + g : "/~%3" + h);
}
//@ bounds arrays of 260 and 1001 elements with indices whose last digits are symbolic, objects of 260 members, pointers of 65 tokens, and names of 300 bytes with one symbolic byte
//@ entry large shards=8 reach=found,fail cost=4
VS_ENTRY(large) {
  uint64_t k = vs_shard_choice("kind", 4), z = vs_shard_choice("size", 2), n = z ? 1001 : 260; switch (k) {
  case 0: { JV a; for (uint64_t i = 0; i < n; ++i) a.push_back(ji((int64_t)i)); static const char *B[] = {"/", "/1", "/2", "/25", "/99", "/100", "/0"}; uint64_t b = vs_choice("base", 7); string p = B[b] + vs_bytes("i", b > 2 ? 1 : 2); if (b < 3) for (size_t i = p.size() - 2; i < p.size(); ++i) vs_assume((p[i] >= '0') & (p[i] <= '9')); vs_reach("found"); vs_reach("fail"); check(ja(a), p); return; }
  case 1: { JO o; for (uint64_t i = 0; i < 260; ++i) o.push_back({lgName(i), ji((int64_t)i)}); uint64_t p = lgPos(260); string q = lgName(p); q[z ? 4 : q.size() - 1] = (char)vs_u8("c"); check(jo(o), "/" + q); return; }
  case 2: { J d = jo({{"leaf", ji(1)}}); string p, last = "/" + vs_bytes("t", 1); for (uint64_t i = 0; i < 65; ++i) d = i & 1 ? ja({jn(), d}) : jo({{"a", jn()}, {"b/~", d}}); for (uint64_t i = 65; i-- > 0;) p += i == 30 ? last : i & 1 ? "/1" : z ? "/b%2F~0" : "/b~1~0"; vs_reach("found"); check(d, p + "/leaf"); return; }
  default: { string q(300, 'n'); J d = jo({{q + "a", ji(1)}, {q, ji(2)}, {q + "b", ja({ji(3)})}}); check(d, "/" + q + vs_bytes("e", z ? 1 : 3)); return; } }
}

#include "vs.h"
#include <valijson/internal/uri.hpp>
#include <valijson/internal/json_reference.hpp>
//@ bounds references of up to 5 (thorough: 6) arbitrary bytes against 10 bases of every shape; bases ending in up to 5 (thorough: 6) arbitrary bytes with 14 references of every shape
//@ bounds paths of up to 2 further segments in the base and up to 4 in the reference (quick: at most 4 together), each ".", "..", a name beginning with dots or a name with a symbolic byte, with and without query, fragment and final slash
//@ bounds absolute references and URNs with symbolic bytes against every base shape; classification of every string of up to 6 bytes, of "urn:" or "URN:" with up to 5 (thorough: 6) arbitrary bytes and of longer URN templates; splitting of references of up to 5 bytes
//@ outside references with an authority but no scheme (//host), with a scheme but no authority other than URNs (mailto:x), empty path segments (a//b), dot segments that climb out of a relative base; an empty path after an authority counts as "/" (RFC 3986 6.2.3); URNs with characters that RFC 8141 allows and the library does not, such as '@' or "::"
using namespace valijson::internal::uri;
using std::string;
struct U { bool abs = false, q = false, f = false; string scheme, auth, path, query, frag; };
static bool alphaC(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); } static bool digitC(char c) { return c >= '0' && c <= '9'; }
static size_t schemeLen(const string &s) { // length of the scheme if followed by "://", else 0
  size_t i = 0; while (i < s.size() && (alphaC(s[i]) || (i && (digitC(s[i]) || s[i] == '+' || s[i] == '-' || s[i] == '.')))) ++i; return i && i + 2 < s.size() && s[i] == ':' && s[i + 1] == '/' && s[i + 2] == '/' ? i : 0;
}
static U split(const string &s) { // RFC 3986 appendix B, restricted to scheme://authority and relative forms
  U u; size_t i = 0, n = s.size(); size_t l = schemeLen(s); if (l) { u.abs = true; u.scheme = s.substr(0, l); i = l + 3; while (i < n && s[i] != '/' && s[i] != '?' && s[i] != '#') u.auth += s[i++]; }
  while (i < n && s[i] != '?' && s[i] != '#') u.path += s[i++]; if (i < n && s[i] == '?') { u.q = true; ++i; while (i < n && s[i] != '#') u.query += s[i++]; } if (i < n) { u.f = true; ++i; while (i < n) u.frag += s[i++]; } return u;
}
static bool pre(const string &s, const char *p) { size_t n = strlen(p); if (s.size() < n) return false; for (size_t i = 0; i < n; ++i) if (s[i] != p[i]) return false; return true; }
static string removeDots(string in) { // RFC 3986 5.2.4, literally
  string out; auto cut = [&] { while (!out.empty()) { char c = out.back(); out.pop_back(); if (c == '/') break; } };
  while (!in.empty()) {
    if (pre(in, "../")) in = in.substr(3); else if (pre(in, "./")) in = in.substr(2); else if (pre(in, "/./")) in = in.substr(2); else if (in.size() == 2 && pre(in, "/.")) in = "/"; else if (pre(in, "/../")) { in = in.substr(3); cut(); } else if (in.size() == 3 && pre(in, "/..")) { in = "/"; cut(); }
    else if ((in.size() == 1 && in[0] == '.') || (in.size() == 2 && in[0] == '.' && in[1] == '.')) in = ""; else { size_t k = 0; do out += in[k++]; while (k < in.size() && in[k] != '/'); in = in.substr(k); }
  }
  return out;
}
static bool emptySeg(const string &p) { for (size_t i = 0; i + 1 < p.size(); ++i) if (p[i] == '/' && p[i + 1] == '/') return true; return false; }
static bool firstColon(const string &p) { for (char c : p) { if (c == '/') return false; if (c == ':') return true; } return false; }
static bool dots(const string &p) { for (size_t i = 0; i < p.size(); ++i) if (p[i] == '.' && (i == 0 || p[i - 1] == '/')) { size_t j = i + 1; if (j < p.size() && p[j] == '.') ++j; if (j == p.size() || p[j] == '/') return true; } return false; }
static string rfc(const U &b, const U &r) { // 5.2.2 for a reference without scheme and authority
  string path, q; bool hq = r.q; q = r.query; string bp = b.abs && b.path.empty() ? "/" : b.path;
  if (r.path.empty()) { path = bp; if (!r.q) { hq = b.q; q = b.query; } }
  else if (r.path[0] == '/') path = removeDots(r.path);
  else { size_t k = bp.size(); while (k && bp[k - 1] != '/') --k; path = removeDots(bp.substr(0, k) + r.path); }
  string o; if (b.abs) { o += b.scheme; o += "://"; o += b.auth; } o += path; if (hq) { o += '?'; o += q; } if (r.f) { o += '#'; o += r.frag; } return o;
}
static void warm() { isUrn("x"); } // the pattern is a function-local static: compile it before any symbolic branch
static void check(const string &base, const string &ref) {
  U r = split(ref); string got;
  if (r.abs) { got = resolveRelativeUri(base, ref); vs_reach("absolute"); vs_assert(got == ref, "absolute reference changed"); return; }
  if (firstColon(r.path)) { vs_reach("colon"); return; } // a scheme without an authority
  U b = split(base); vs_assume(!emptySeg(b.path) && !emptySeg(r.path));
  if (!b.abs) { vs_assume(!firstColon(b.path)); if (dots(b.path) || dots(r.path)) { vs_reach("dots"); return; } }
  if (b.abs && ref.empty() && b.path.empty()) return;
  // a path of the base that is not normalised is kept when the reference has none
  got = resolveRelativeUri(base, ref); string want = rfc(b, r); vs_observe("len", got.size()); vs_reach("relative"); vs_assert(got == want, "resolved URI");
}
#ifdef VS_THOROUGH
enum { N = 6 };
#else
enum { N = 5 };
#endif
static const char *BASES[] = {"http://h/b/c/d;p?q", "s://h", "s://h/", "s://u@h:80/x.y/z#f/g", "s://h?q/r", "s://h#f/..", "s+a-1.://h/a/", "a/b.json", "b", "s://h/a?b://c#d"};
//@ entry refs shards=60 reach=relative,absolute,colon cost=9
VS_ENTRY(refs) { warm(); uint64_t n = vs_shard_choice("len", N + 1), b = vs_shard_choice("base", 10); check(BASES[b], vs_bytes("r", n)); }
static const char *REFS[] = {"", "g", "./g", "../g", "..", ".", "/g", "?y", "#s", "g?y#s", "g/../../h/", "../../../g/.", "t://x/../y", "g;x=1/./y?a/../b#c/../d"};
//@ entry bases shards=84 reach=relative,absolute cost=9
VS_ENTRY(bases) { warm(); uint64_t n = vs_shard_choice("len", N + 1), r = vs_shard_choice("ref", 14); check("s://" + vs_bytes("b", n), REFS[r]); }
//@ entry relbases shards=14 reach=relative cost=9
VS_ENTRY(relbases) { warm(); uint64_t r = vs_shard_choice("ref", 14); check(vs_bytes("b", 1 + vs_choice("len", 4)), REFS[r]); }
static string seg(const char *n, const char *sy) { static const char *S[] = {".", "..", "...", ".a", "..a", "a."}; uint64_t k = vs_choice(n, 7); if (k < 6) return S[k]; char c = (char)vs_sym(sy, 8); vs_assume(c != '/' && c != '?' && c != '#' && c != ':' && c != '.'); return string(1, c); }
//@ entry segments shards=60 reach=relative cost=9
VS_ENTRY(segments) { warm();
  uint64_t nb = vs_shard_choice("nb", 3), nr = vs_shard_choice("nr", 5), lead = vs_shard_choice("abs", 2), tail = vs_shard_choice("tail", 2); static const char *BN[] = {"b0", "b1"}, *BS[] = {"bs0", "bs1"}, *RN[] = {"r0", "r1", "r2", "r3"}, *RS[] = {"rs0", "rs1", "rs2", "rs3"};
#ifndef VS_THOROUGH
  if (nr + nb > 4 || (nr == 4 && tail)) return;
#endif
  string b = "s://h/", r; for (uint64_t i = 0; i < nb; ++i) b += seg(BN[i], BS[i]) + "/"; b += "x?q#f"; if (lead) r = "/"; for (uint64_t i = 0; i < nr; ++i) { if (i) r += '/'; r += seg(RN[i], RS[i]); } if (tail && nr) r += "/"; if (vs_choice("suffix", 2)) r += "?a/../b#c"; check(b, r);
}
//@ entry absolute shards=10 reach=absolute,urn cost=2
VS_ENTRY(absolute) { warm();
  uint64_t b = vs_shard_choice("base", 10), k = vs_choice("kind", 3); string ref;
  if (k == 0) ref = "t://" + vs_bytes("r", 4); else if (k == 1) { char c = (char)vs_sym("c", 8), d = (char)vs_sym("d", 8); ref = string(1, c) + string(1, d) + "x://h/../a"; vs_assume(schemeLen(ref) != 0); } else { char c = (char)vs_sym("c", 8); vs_assume(alphaC(c) || digitC(c)); ref = "urn:ab:" + string(1, c) + ":d"; vs_reach("urn"); }
  string got = resolveRelativeUri(BASES[b], ref); if (k < 2) vs_reach("absolute"); vs_assert(got == ref, "absolute reference changed");
}
//@ entry classify shards=14 reach=abs,rel cost=6
VS_ENTRY(classify) { string s = vs_bytes("s", vs_shard_choice("len", 7)); if (vs_shard_choice("mark", 2)) s += "://x"; bool a = isUriAbsolute(s), w = schemeLen(s) != 0; vs_observe("a", a); vs_reach(w ? "abs" : "rel"); vs_assert(a == w, "absolute classification"); }
static bool subset(char c) { return alphaC(c) || digitC(c) || c == '-' || c == '.' || c == '_' || c == '~' || c == '%' || c == '!' || c == '$' || c == '&' || c == '\'' || c == '(' || c == ')' || c == '*' || c == '+' || c == ',' || c == ';' || c == '=' || c == '/'; }
// 1: certainly a URN, 0: certainly not, -1: left open
static int urnClass(const string &s) {
  bool lo = pre(s, "urn:"), up = pre(s, "URN:"); if (!lo && !up) { auto l = [](char c, char x) { return c == x || c == x - 32; }; return s.size() > 3 && l(s[0], 'u') && l(s[1], 'r') && l(s[2], 'n') && s[3] == ':' ? -1 : 0; }
  size_t i = 4, n = 0; while (i < s.size() && (alphaC(s[i]) || digitC(s[i]) || (n && s[i] == '-'))) { ++i; ++n; } if (n < 2 || n > 32 || i >= s.size() || s[i] != ':') return 0; bool dash = s[i - 1] == '-', same = n == 3 && s[4] == 'u' && s[5] == 'r' && s[6] == 'n'; ++i; if (i == s.size()) return 0;
  bool bad = false, open = dash || same, last = false; for (; i < s.size(); ++i) { char c = s[i]; if (subset(c)) { last = true; continue; } if (c == ':') { if (!last) open = true; last = false; continue; } if (c == '@' || c == '?' || c == '#' || c == '\\') { open = true; continue; } bad = true; } if (!last) open = true; return bad ? 0 : open ? -1 : 1;
}
static void urn(const string &s) { bool u = isUrn(s); int w = urnClass(s); vs_observe("u", u); if (w >= 0) { vs_reach(w ? "urn" : "no"); vs_assert(u == (w == 1), "URN classification"); } else vs_assert(true, "open"); }
//@ entry urns shards=14 reach=urn,no cost=9
VS_ENTRY(urns) { warm(); uint64_t up = vs_shard_choice("up", 2); urn((up ? "URN:" : "urn:") + vs_bytes("s", vs_shard_choice("len", N + 1))); }
//@ entry urnlong shards=4 reach=urn,no cost=9
VS_ENTRY(urnlong) { warm(); uint64_t k = vs_shard_choice("k", 4); char c = (char)vs_sym("c", 8), d = (char)vs_sym("d", 8); string C(1, c), D(1, d); urn(k == 0 ? "urn:isbn" + C + "978-3:" + D : k == 1 ? C + "rn:ex" + D + "mple:a:b" : k == 2 ? "urn:abcdefghijklmnopqrstuvwxyz01234" + C + D + "b" : "urn:mvn:ex" + C + "st:" + D + ".1"); }
//@ entry parts shards=6 reach=hash,nohash
VS_ENTRY(parts) { // URI and pointer of a reference
  string s = vs_bytes("s", vs_shard_choice("len", 6)); auto u = valijson::internal::json_reference::getJsonReferenceUri(s), p = valijson::internal::json_reference::getJsonReferencePointer(s); size_t h = 0; while (h < s.size() && s[h] != '#') ++h;
  if (h < s.size()) { vs_reach("hash"); vs_assert(u.has_value() == (h != 0), "URI present"); if (u) vs_assert(*u == s.substr(0, h), "URI part"); vs_assert(p.has_value() && *p == s.substr(h + 1), "pointer part"); } else { vs_reach("nohash"); vs_assert(u.has_value() && *u == s && !p.has_value(), "no pointer"); }
}

#include "hx.h"
//@ bounds date: every byte string of up to 12 bytes; time: every byte string of up to 9 bytes (thorough: 12), every hh:mm:ss with every suffix of up to 3 arbitrary bytes, and every time with a numeric offset, with fractions of up to 3 digits; date-time: every date with fixed times, fixed dates with every time of up to 9 bytes, every separator byte; strict and permissive; with and without a results object
//@ bounds ipv4: every byte string of up to 8 (thorough: 9) bytes; every dotted quad with octets of 0 to 4 arbitrary digits; unknown formats, formats differing by one byte from a known one, and instances of every other type
//@ outside leap seconds are valid only at 23:59:60 UTC and are not looked up in a table of announced ones; octets may have leading zeros up to three digits; longer strings
using std::string;
static bool dg(unsigned char c) { return (c >= '0') & (c <= '9'); } static int d2(const string &s, size_t i) { return (s[i] - '0') * 10 + (s[i + 1] - '0'); }
static bool dateAt(const string &s, size_t i) { // ten bytes from i
  bool ok = dg(s[i]) & dg(s[i + 1]) & dg(s[i + 2]) & dg(s[i + 3]) & (s[i + 4] == '-') & dg(s[i + 5]) & dg(s[i + 6]) & (s[i + 7] == '-') & dg(s[i + 8]) & dg(s[i + 9]); if (!ok) return false;
  int y = d2(s, i) * 100 + d2(s, i + 2), m = d2(s, i + 5), d = d2(s, i + 8); bool leap = ((y % 4 == 0) & (y % 100 != 0)) | (y % 400 == 0); bool m30 = (m == 4) | (m == 6) | (m == 9) | (m == 11); int lim = m == 2 ? 28 + (int)leap : 31 - (int)m30; return (m >= 1) & (m <= 12) & (d >= 1) & (d <= lim);
}
static bool timeAt(const string &s, size_t i, bool strict) {
  size_t n = s.size(); if (n < i + 8) return false; bool ok = dg(s[i]) & dg(s[i + 1]) & (s[i + 2] == ':') & dg(s[i + 3]) & dg(s[i + 4]) & (s[i + 5] == ':') & dg(s[i + 6]) & dg(s[i + 7]); if (!ok) return false;
  int h = d2(s, i), m = d2(s, i + 3), sec = d2(s, i + 6), off = 0; if (!((h <= 23) & (m <= 59) & (sec <= 60))) return false; i += 8;
  if (i < n && s[i] == '.') { size_t k = i + 1; while (k < n && dg(s[k])) ++k; if (k == i + 1) return false; i = k; }
  if (i == n) { if (strict) return false; } else if (i + 1 == n) { if (!((s[i] == 'Z') | (s[i] == 'z'))) return false; }
  else { if (n - i != 6) return false; if (!(((s[i] == '+') | (s[i] == '-')) & dg(s[i + 1]) & dg(s[i + 2]) & (s[i + 3] == ':') & dg(s[i + 4]) & dg(s[i + 5]))) return false; int a = d2(s, i + 1), b = d2(s, i + 4); if (!((a <= 23) & (b <= 59))) return false; off = s[i] == '-' ? -(a * 60 + b) : a * 60 + b; }
  int utc = h * 60 + m - off; bool last = (utc == 1439) | (utc == 1439 + 1440) | (utc == 1439 - 1440); return (sec < 60) | last;
}
static bool dtAt(const string &s, bool strict) { if (s.size() < 11) return false; if (!((s[10] == 'T') | (s[10] == 't'))) return false; return dateAt(s, 0) && timeAt(s, 11, strict); }
static bool run(const char *f, const J &x, bool strict, bool res) { Schema s; parseInto(s, jo({{"format", js(f)}})); Doc d(x); RA a = d.ad(); Validator v(Validator::kStrongTypes, strict ? Validator::kStrictDateTime : Validator::kPermissiveDateTime); ValidationResults r; bool ok = v.validate(s, a, res ? &r : nullptr); if (res) vs_assert(ok == (r.numErrors() == 0), "errors"); return ok; }
static void warm(const char *f) { run(f, js("x"), true, false); } // compiles the function-local static expressions before any branch
static void one(const char *f, const string &s, bool w, bool strict) { bool ok = run(f, js(s), strict, vs_choice("res", 2)); vs_observe("ok", ok); vs_reach(w ? "in" : "out"); vs_assert(ok == w, w ? "valid string rejected" : "invalid string accepted"); }
#ifdef VS_THOROUGH
enum { NT = 12, NI = 9 };
#else
enum { NT = 9, NI = 8 };
#endif
//@ entry date shards=13 reach=in,out cost=9
VS_ENTRY(date) { warm("date"); uint64_t n = vs_shard_choice("len", 13); string s = vs_bytes("s", n); bool w = n == 10 && dateAt(s, 0); one("date", s, w, true); }
//@ entry time shards=26 reach=in,out cost=9
VS_ENTRY(time) { warm("time"); uint64_t n = vs_shard_choice("len", 13); if (n > NT) return; bool strict = vs_shard_choice("strict", 2); string s = vs_bytes("s", n); one("time", s, timeAt(s, 0, strict), strict); }
//@ entry suffix shards=8 reach=in,out cost=9
VS_ENTRY(suffix) { warm("time"); uint64_t n = vs_shard_choice("len", 4); bool strict = vs_shard_choice("strict", 2); string s = vs_bytes("h", 2) + ":" + vs_bytes("m", 2) + ":" + vs_bytes("s", 2) + vs_bytes("x", n); one("time", s, timeAt(s, 0, strict), strict); }
static string frac() { static const char *F[] = {"", ".1", ".123", "."}; return F[vs_shard_choice("frac", 4)]; }
//@ entry offset shards=8 reach=in,out cost=9
VS_ENTRY(offset) { warm("time"); bool strict = vs_shard_choice("strict", 2); string s = vs_bytes("h", 2) + ":" + vs_bytes("m", 2) + ":" + vs_bytes("s", 2) + frac() + vs_bytes("sign", 1) + vs_bytes("oh", 2) + ":" + vs_bytes("om", 2); one("time", s, timeAt(s, 0, strict), strict); }
//@ entry dtdate shards=10 reach=in,out cost=9
VS_ENTRY(dtdate) { warm("date-time"); static const char *T[] = {"T00:00:00Z", "t23:59:60z", "T12:30:45.5+01:00", "T12:30:45", " 12:30:45Z"}; uint64_t t = vs_shard_choice("time", 5); bool strict = vs_shard_choice("strict", 2); string s = vs_bytes("d", 10) + T[t]; one("date-time", s, dtAt(s, strict), strict); }
//@ entry dttime shards=24 reach=in,out cost=9
VS_ENTRY(dttime) { warm("date-time"); static const char *D[] = {"2024-02-29", "2023-02-29", "0000-12-31"}; uint64_t d = vs_shard_choice("date", 3); bool strict = vs_shard_choice("strict", 2); string s = D[d] + vs_bytes("sep", 1) + vs_bytes("h", 2) + ":" + vs_bytes("m", 2) + ":" + vs_bytes("s", 2); uint64_t k = vs_shard_choice("tail", 4); if (k == 1) s += vs_bytes("z", 1); else if (k == 2) s += "." + vs_bytes("z", 2); else if (k == 3) s += "-" + vs_bytes("oh", 2) + ":" + vs_bytes("om", 2); one("date-time", s, dtAt(s, strict), strict); }
//@ entry dtbytes shards=30 reach=in,out cost=9
VS_ENTRY(dtbytes) { warm("date-time"); uint64_t n = vs_shard_choice("len", 10); string s = "2024-02-29T" + vs_bytes("s", n); bool strict = vs_shard_choice("strict", 2); one("date-time", s, dtAt(s, strict), strict); }
static bool quad(const string &s) { int val = 0, len = 0, oct = 0; for (char c : s) { if (c == '.') { if (!len || val > 255) return false; ++oct; len = 0; val = 0; } else { if (!dg(c) || ++len > 3) return false; val = val * 10 + (c - '0'); } } return oct == 3 && len && val <= 255; }
//@ entry ipv4 shards=10 reach=in,out cost=9
VS_ENTRY(ipv4) { warm("ipv4"); uint64_t n = vs_shard_choice("len", NI + 1); string s = vs_bytes("s", n); one("ipv4", s, quad(s), true); }
//@ entry octets shards=40 reach=in,out cost=9
VS_ENTRY(octets) { warm("ipv4"); uint64_t p = vs_shard_choice("pos", 4), l = vs_shard_choice("len", 5), q = vs_shard_choice("other", 2); static const char *N[] = {"a", "b", "c", "d"}; string s; for (uint64_t i = 0; i < 4; ++i) { if (i) s += '.'; s += vs_bytes(N[i], i == p ? l : q && i == (p + 1) % 4 ? 3 : 1); } one("ipv4", s, quad(s), true); }
//@ entry five reach=out
VS_ENTRY(five) { warm("ipv4"); static const char *S[] = {"1.2.3.4.5", "1.2.3", "1.2.3.4.", ".1.2.3.4", "1..2.3"}; string s = S[vs_choice("s", 5)]; string c = vs_bytes("c", 1); uint64_t e = vs_choice("end", 2); s = e ? s + c : c + s; one("ipv4", s, quad(s), true); }
//@ entry unknown shards=5 reach=in,out cost=3
VS_ENTRY(unknown) { // a name that is not exactly a known format never rejects
  static const char *F[] = {"date", "time", "date-time", "ipv4", "ipv6"}; string f = F[vs_shard_choice("f", 5)]; string orig = f; size_t p = vs_choice("pos", f.size() + 1); if (p < f.size()) f[p] = (char)vs_sym("c", 8); else f += (char)vs_sym("c", 8); bool known = false; for (int i = 0; i < 4; ++i) known |= f == F[i]; bool ok = accepts(jo({{"format", js(f)}}), js("x")); vs_observe("ok", ok); vs_reach(ok ? "in" : "out"); vs_assert(ok == !known, "unknown format");
}
//@ entry others reach=in
VS_ENTRY(others) { static const char *F[] = {"date", "time", "date-time", "ipv4"}; uint64_t t = vs_choice("type", 6); J x = t == 0 ? jn() : t == 1 ? jb(vs_choice("b", 2)) : t == 2 ? ji((int64_t)vs_sym("i", 16)) : t == 3 ? jd(1.5) : t == 4 ? ja({js("x")}) : jo({{"x", js("x")}}); const char *f = F[vs_choice("f", 4)]; bool strict = vs_choice("strict", 2); bool ok = run(f, x, strict, vs_choice("res", 2)); vs_reach("in"); vs_assert(ok, "format rejects a value that is not a string"); }

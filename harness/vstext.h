#pragma once
using std::string;
struct Txt { // the grammar of RFC 8259
  const string &s; size_t p = 0; bool bad = false, big = false; int depth = 0;
  int c() const { return p < s.size() ? (unsigned char)s[p] : -1; } void ws() { while (c() == ' ' || c() == '\n' || c() == '\r' || c() == '\t') ++p; } J err() { bad = true; return jn(); }
  bool word(const char *w) { for (; *w; ++w) { if (c() != (unsigned char)*w) { bad = true; return false; } ++p; } return true; } static bool dg(int c) { return c >= '0' && c <= '9'; } static int hex(int c) { return dg(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
  string str() { string r; ++p; for (;;) { int x = c(); if (x < 0x20) { bad = true; return r; } ++p; if (x == '"') return r; if (x != '\\') { r += (char)x; continue; } x = c(); ++p; switch (x) { case '"': case '\\': case '/': r += (char)x; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break; case 'u': { unsigned u = 0; for (int i = 0; i < 4; ++i) { int h = hex(c()); if (h < 0) { bad = true; return r; } u = u * 16 + (unsigned)h; ++p; } if (u >= 0x80 || !u) big = true; r += (char)u; break; } default: bad = true; return r; } } }
  J num() { bool neg = false, fl = false; if (c() == '-') { neg = true; ++p; } if (!dg(c())) return err(); int64_t m = 0; int n = 0; if (c() == '0') ++p; else while (dg(c())) { m = m * 10 + (c() - '0'); ++p; if (++n > 17) big = true; } if (c() == '.') { ++p; fl = true; if (!dg(c())) return err(); while (dg(c())) ++p; } if (c() == 'e' || c() == 'E') { ++p; fl = true; if (c() == '+' || c() == '-') ++p; if (!dg(c())) return err(); int e = 0; while (dg(c())) { ++p; ++e; } if (e > 2) big = true; } if (!fl && neg && m == 0) big = true; return fl ? jd(0) : ji(neg ? -m : m); }
  J val() { ws(); if (bad || ++depth > 30) return err(); J r; int x = c(); if (x == '{') { r = jo(); ++p; ws(); if (c() == '}') ++p; else for (;;) { ws(); if (c() != '"') return err(); string k = str(); if (bad) return r; ws(); if (c() != ':') return err(); ++p; J v = val(); if (bad) return r; if (r.get(k)) big = true; r.o.push_back({k, v}); ws(); if (c() == ',') { ++p; continue; } if (c() != '}') return err(); ++p; break; } }
    else if (x == '[') { r = ja(); ++p; ws(); if (c() == ']') ++p; else for (;;) { r.a.push_back(val()); if (bad) return r; ws(); if (c() == ',') { ++p; continue; } if (c() != ']') return err(); ++p; break; } }
    else if (x == '"') r = js(str()); else if (x == 't') { word("true"); r = jb(true); } else if (x == 'f') { word("false"); r = jb(false); } else if (x == 'n') { word("null"); } else r = num(); --depth; return r; }
  J all() { J r = val(); if (!bad) { ws(); if (p != s.size()) bad = true; } return r; }
};
template <class A> static bool same(const A &a, const J &j) { // fractions by type only
  switch (j.k) { case J::Null: return a.isNull(); case J::Bool: return a.isBool() && a.asBool() == j.b; case J::Int: return a.isInteger() && a.asInteger() == j.i; case J::Dbl: return a.isDouble(); case J::Str: return a.isString() && a.asString() == j.s;
  case J::Arr: { if (!a.isArray()) return false; size_t i = 0; for (const A e : a.asArray()) { if (i >= j.a.size() || !same(e, j.a[i])) return false; ++i; } return i == j.a.size(); }
  default: { if (!a.isObject() || a.getObjectSize() != j.o.size()) return false; for (const auto m : a.asObject()) { const J *q = j.get(m.first); if (!q || !same(m.second, *q)) return false; } return true; } }
}

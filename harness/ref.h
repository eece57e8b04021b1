#pragma once
// A validator written for the checks from the JSON Schema drafts: the oracle.
// It shares nothing with the code under test but the JSON tree of hx.h.
#include "deep.h"
// ---- regular expressions: literals, ., [..], ^, $, *, +, ?, |, (..), {m,n}, \d \w \s \n and escapes; set-based matcher
struct Rx {
  struct N { char op; std::vector<std::pair<uint8_t, uint8_t>> cls; bool neg = false; uint8_t c = 0; int lo = 0, hi = -1; std::vector<N> kids; };
  const std::string p; size_t i = 0; N top;
  explicit Rx(const std::string &pat) : p(pat) { top = alt(); }
  static N mk(char op) { N n; n.op = op; return n; }
  N alt() { N a = mk('|'); a.kids.push_back(seq()); while (i < p.size() && p[i] == '|') { ++i; a.kids.push_back(seq()); } return a; }
  N seq() { N s = mk('S'); while (i < p.size() && p[i] != '|' && p[i] != ')') s.kids.push_back(rep()); return s; }
  void klass(N &n, char c) { typedef std::pair<uint8_t, uint8_t> R; if (c == 'd') n.cls.push_back(R('0', '9')); else if (c == 'w') { n.cls.push_back(R('a', 'z')); n.cls.push_back(R('A', 'Z')); n.cls.push_back(R('0', '9')); n.cls.push_back(R('_', '_')); } else if (c == 's') { n.cls.push_back(R(9, 13)); n.cls.push_back(R(' ', ' ')); } else { uint8_t v = c == 'n' ? '\n' : c == 't' ? '\t' : (uint8_t)c; n.cls.push_back(R(v, v)); } }
  N atom() {
    char c = p[i++];
    if (c == '(') { if (p[i] == '?') i += 2; N a = alt(); ++i; return a; }
    if (c == '^' || c == '$') return mk(c);
    if (c == '.') return mk('.');
    N n = mk('C');
    if (c == '[') { if (p[i] == '^') { n.neg = true; ++i; } while (p[i] != ']') { if (p[i] == '\\') { klass(n, p[i + 1]); i += 2; continue; } uint8_t a = (uint8_t)p[i++], b = a; if (p[i] == '-' && p[i + 1] != ']') { b = (uint8_t)p[i + 1]; i += 2; } n.cls.emplace_back(a, b); } ++i; return n; }
    if (c == '\\') { c = p[i++]; if (c == 'D' || c == 'W' || c == 'S') { n.neg = true; c = (char)(c + 32); } klass(n, c); return n; }
    n.cls.emplace_back((uint8_t)c, (uint8_t)c); return n;
  }
  N rep() {
    N a = atom();
    while (i < p.size()) {
      int lo, hi; char c = p[i];
      if (c == '*') { lo = 0; hi = -1; ++i; } else if (c == '+') { lo = 1; hi = -1; ++i; } else if (c == '?') { lo = 0; hi = 1; ++i; }
      else if (c == '{') { ++i; lo = 0; while (p[i] >= '0' && p[i] <= '9') lo = lo * 10 + (p[i++] - '0'); hi = lo; if (p[i] == ',') { ++i; if (p[i] == '}') hi = -1; else { hi = 0; while (p[i] >= '0' && p[i] <= '9') hi = hi * 10 + (p[i++] - '0'); } } ++i; }
      else break;
      N r = mk('R'); r.lo = lo; r.hi = hi; r.kids.push_back(a); a = r;
    }
    return a;
  }
  // ends reachable from the starts in the set; entry k is a condition on the string
  typedef std::vector<bool> B; typedef std::vector<unsigned char> V;
  static V step(const N &n, const std::string &s, const V &in) {
    size_t L = s.size(); V out(L + 1, 0);
    switch (n.op) {
    case '^': out[0] = in[0]; return out; case '$': out[L] = in[L]; return out;
    case '.': for (size_t k = 0; k < L; ++k) { uint8_t c = (uint8_t)s[k]; out[k + 1] = in[k] & (c != '\n') & (c != '\r'); } return out;
    case 'C': for (size_t k = 0; k < L; ++k) { uint8_t c = (uint8_t)s[k]; unsigned char m = 0; for (auto &r : n.cls) m |= (c >= r.first) & (c <= r.second); out[k + 1] = in[k] & (n.neg ? !m : m); } return out;
    case 'S': { V c = in; for (auto &k : n.kids) c = step(k, s, c); return c; }
    case '|': for (auto &k : n.kids) { V c = step(k, s, in); for (size_t j = 0; j <= L; ++j) out[j] |= c[j]; } return out;
    case 'R': { V c = in; for (int k = 0; k < n.lo; ++k) c = step(n.kids[0], s, c); out = c; int lim = n.hi < 0 ? (int)L + 1 : n.hi - n.lo; for (int k = 0; k < lim; ++k) { c = step(n.kids[0], s, c); for (size_t j = 0; j <= L; ++j) out[j] |= c[j]; } return out; }
    }
    return out;
  }
  bool search(const std::string &s) const { V in(s.size() + 1, 1), r = step(top, s, in); unsigned char m = 0; for (auto x : r) m |= x; return m; }
};
inline bool rxFind(const std::string &pat, const std::string &s) { Rx r(pat); return r.search(s); }
inline int codePoints(const std::string &s) { int n = 0; for (char c : s) n += ((uint8_t)c & 0xC0) != 0x80; return n; }
// ---- the validator
struct Ref {
  const J &root; SchemaParser::Version v; // local references are resolved in root; ids: absolute or '#name' identifiers anywhere in it
  std::vector<std::pair<std::string, J>> docs; // remote documents
  Ref(const J &r, SchemaParser::Version ver) : root(r), v(ver) {}
  bool typ(const std::string &t, const J &x) const {
    if (t == "any") return true; if (t == "null") return x.k == J::Null; if (t == "boolean") return x.k == J::Bool; if (t == "string") return x.k == J::Str; if (t == "array") return x.k == J::Arr; if (t == "object") return x.k == J::Obj;
    if (t == "number") return x.num(); return x.k == J::Int || (x.k == J::Dbl && integral(x.d));
  }
  static std::string unesc(const std::string &t) { // one reference token: percent-decode, then ~1 and ~0
    std::string a, b; auto h = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (size_t i = 0; i < t.size(); ++i) if (t[i] == '%') { a += (char)(h(t[i + 1]) * 16 + h(t[i + 2])); i += 2; } else a += t[i];
    for (size_t i = 0; i < a.size(); ++i) if (a[i] == '~') { b += a[i + 1] == '1' ? '/' : '~'; ++i; } else b += a[i];
    return b;
  }
  static const J *ptr(const J &r, const std::string &p) {
    const J *c = &r; size_t i = 0;
    while (i < p.size()) { size_t j = p.find('/', i + 1); if (j == std::string::npos) j = p.size(); std::string t = unesc(p.substr(i + 1, j - i - 1)); i = j;
      if (c->k == J::Obj) { c = c->get(t); if (!c) return nullptr; } else if (c->k == J::Arr) { size_t n = 0; for (char d : t) n = n * 10 + (size_t)(d - '0'); if (n >= c->a.size()) return nullptr; c = &c->a[n]; } else return nullptr; }
    return c;
  }
  const J *byId(const J &n, const std::string &id) const {
    if (n.k == J::Obj) { const J *i = n.get(v == D7 ? "$id" : "id"); if (i && i->k == J::Str && i->s == id) return &n; for (auto &m : n.o) if (const J *r = byId(m.second, id)) return r; }
    if (n.k == J::Arr) for (auto &m : n.a) if (const J *r = byId(m, id)) return r;
    return nullptr;
  }
  const J *deref(const std::string &ref) const {
    size_t h = ref.find('#'); std::string u = ref.substr(0, h), f = h == std::string::npos ? "" : ref.substr(h + 1); const J *d = &root;
    if (!u.empty()) { d = byId(root, u); for (auto &p : docs) if (p.first == u) d = &p.second; if (!d) return nullptr; }
    if (f.empty()) return d; if (f[0] == '/') return ptr(*d, f); return byId(*d, "#" + f);
  }
  static int64_t intOf(const J &x) { return x.k == J::Int ? x.i : (int64_t)x.d; }
  bool ok(const J &s, const J &x) const {
    if (s.k == J::Bool) return s.b;
    if (const J *r = s.get("$ref")) { const J *t = deref(r->s); return t && ok(*t, x); }
    bool r = true; // keywords are combined without short cuts, so that the verdict stays one formula
    for (auto &kv : s.o) r = kw(s, kv.first, kv.second, x) & r;
    return r;
  }
  bool has(const J &x, const std::string &n) const { return x.get(n) != nullptr; }
  bool kw(const J &s, const std::string &k, const J &w, const J &x) const {
    if (k == "type") { auto one = [&](const J &t) { return t.k == J::Str ? typ(t.s, x) : ok(t, x); }; if (w.k != J::Arr) return one(w); bool r = false; for (auto &t : w.a) r |= one(t); return r; }
    if (k == "enum") { bool r = false; for (auto &e : w.a) r |= eq(e, x) == 1; return r; }
    if (k == "const") return eq(w, x) == 1;
    if (k == "allOf" || (k == "extends" && v == D3)) { if (w.k == J::Obj) return ok(w, x); bool r = true; for (auto &e : w.a) r &= ok(e, x); return r; }
    if (k == "anyOf") { bool r = false; for (auto &e : w.a) r |= ok(e, x); return r; }
    if (k == "oneOf") { int n = 0; for (auto &e : w.a) n += ok(e, x); return n == 1; }
    if (k == "not") return !ok(w, x);
    if (k == "if") { const J *t = s.get("then"), *e = s.get("else"); bool c = ok(w, x); bool a = t ? ok(*t, x) : true, b = e ? ok(*e, x) : true; return (c & a) | (!c & b); }
    if (k == "minimum" || k == "maximum") { if (!x.num()) return true; const J *ex = v == D7 ? nullptr : s.get(k == "minimum" ? "exclusiveMinimum" : "exclusiveMaximum"); bool e = ex && ex->b; double a = x.dbl(), b = w.dbl(); return k == "minimum" ? (e ? a > b : a >= b) : (e ? a < b : a <= b); }
    if (k == "exclusiveMinimum" && v == D7) return !x.num() || x.dbl() > w.dbl();
    if (k == "exclusiveMaximum" && v == D7) return !x.num() || x.dbl() < w.dbl();
    if (k == "multipleOf" || k == "divisibleBy") { if (!x.num()) return true; if (x.k == J::Int && w.k == J::Int) return x.i % w.i == 0; if (x.k == J::Int && w.k == J::Dbl && (w.d == 0.5 || w.d == 0.25)) return true; return __builtin_fmod(x.dbl(), w.dbl()) == 0; }
    if (k == "minLength") return x.k != J::Str || codePoints(x.s) >= intOf(w);
    if (k == "maxLength") return x.k != J::Str || codePoints(x.s) <= intOf(w);
    if (k == "minItems") return x.k != J::Arr || (int64_t)x.a.size() >= intOf(w);
    if (k == "maxItems") return x.k != J::Arr || (int64_t)x.a.size() <= intOf(w);
    if (k == "minProperties") return x.k != J::Obj || (int64_t)x.o.size() >= intOf(w);
    if (k == "maxProperties") return x.k != J::Obj || (int64_t)x.o.size() <= intOf(w);
    if (k == "pattern") return x.k != J::Str || rxFind(w.s, x.s);
    if (k == "uniqueItems") { if (x.k != J::Arr || !w.b) return true; bool r = true; for (size_t i = 0; i < x.a.size(); ++i) for (size_t j = 0; j < i; ++j) r &= eq(x.a[i], x.a[j]) != 1; return r; }
    if (k == "contains") { if (x.k != J::Arr) return true; bool r = false; for (auto &e : x.a) r |= ok(w, e); return r; }
    if (k == "items") {
      if (x.k != J::Arr) return true; bool r = true; const J *ai = s.get("additionalItems");
      for (size_t i = 0; i < x.a.size(); ++i) { if (w.k != J::Arr) r &= ok(w, x.a[i]); else if (i < w.a.size()) r &= ok(w.a[i], x.a[i]); else if (ai) r &= ai->k == J::Bool ? ai->b : ok(*ai, x.a[i]); }
      return r;
    }
    if (k == "properties" || k == "patternProperties" || k == "additionalProperties") { // handled once
      const J *ps = s.get("properties"), *pp = s.get("patternProperties"), *ap = s.get("additionalProperties");
      if ((k != "properties" && ps) || (k == "additionalProperties" && pp)) return true;
      bool r = true; if (v == D3 && ps) for (auto &p : ps->o) if (const J *q = p.second.get("required")) if (q->b && x.k == J::Obj) r &= has(x, p.first);
      if (x.k != J::Obj) return r;
      for (auto &m : x.o) { bool cov = false; if (ps) if (const J *p = ps->get(m.first)) { cov = true; r &= ok(*p, m.second); }
        if (pp) for (auto &p : pp->o) { bool f = rxFind(p.first, m.first); cov |= f; r &= !f | ok(p.second, m.second); }
        if (ap) r &= cov | (ap->k == J::Bool ? ap->b : ok(*ap, m.second)); }
      return r;
    }
    if (k == "required" && v != D3) { bool r = true; if (x.k == J::Obj) for (auto &n : w.a) r &= has(x, n.s); return r; }
    if (k == "dependencies") { if (x.k != J::Obj) return true; bool r = true; for (auto &d : w.o) if (has(x, d.first)) { if (d.second.k == J::Arr) for (auto &n : d.second.a) r &= has(x, n.s); else if (d.second.k == J::Str) r &= has(x, d.second.s); else r &= ok(d.second, x); } return r; }
    if (k == "propertyNames") { if (x.k != J::Obj) return true; bool r = true; for (auto &m : x.o) r &= ok(w, js(m.first)); return r; }
    return true;
  }
};
inline bool want(const J &schema, const J &inst, SchemaParser::Version v = D7) { Ref r(schema, v); return r.ok(schema, inst); }
// the verdict, with and without a results object
inline bool verdict(const J &schema, const J &inst, SchemaParser::Version v = D7) {
  Schema s; parseInto(s, schema, v); Doc d(inst); RA a = d.ad(); Validator val; bool r1 = val.validate(s, a, nullptr); ValidationResults res; bool r2 = val.validate(s, a, &res);
  vs_assert(r1 == r2, "verdict differs when errors are collected"); return r1;
}

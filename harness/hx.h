// Shared harness helpers: a small JSON tree with its own parser (independent of
// the adapters under test), converters into the JSON libraries, and run().
#pragma once
#include "vs.h"
#include <cstdlib>
#include <initializer_list>
#include <memory>
#include <utility>
#include <vector>
#include <valijson/adapters/rapidjson_adapter.hpp>
#include <valijson/schema.hpp>
#include <valijson/schema_parser.hpp>
#include <valijson/validation_results.hpp>
#include <valijson/validator.hpp>
using valijson::Schema; using valijson::SchemaParser; using valijson::Validator; using valijson::ValidationResults;
struct J;
typedef std::vector<J> JV; typedef std::vector<std::pair<std::string, J>> JO;
struct J {
  enum K { Null, Bool, Int, Dbl, Str, Arr, Obj } k = Null; bool b = false; int64_t i = 0; double d = 0; std::string s; JV a; JO o;
  bool num() const { return k == Int || k == Dbl; } double dbl() const { return k == Int ? (double)i : d; }
  const J *get(const std::string &n) const { for (auto &p : o) if (p.first == n) return &p.second; return nullptr; }
};
inline J jn() { return J(); } inline J jb(bool b) { J j; j.k = J::Bool; j.b = b; return j; } inline J ji(int64_t i) { J j; j.k = J::Int; j.i = i; return j; } inline J jd(double d) { J j; j.k = J::Dbl; j.d = d; return j; }
inline J js(const std::string &s) { J j; j.k = J::Str; j.s = s; return j; } inline J ja(JV v = {}) { J j; j.k = J::Arr; j.a = std::move(v); return j; } inline J jo(JO v = {}) { J j; j.k = J::Obj; j.o = std::move(v); return j; }
// P("{'a':[1,$0,true]}", {x}): JSON with single quotes; $n is the n-th argument
struct PP {
  const char *p; const JV &v;
  void ws() { while (*p == ' ' || *p == '\n') ++p; }
  std::string str() { std::string r; ++p; while (*p != '\'') { if (*p == '\\') { ++p; if (*p == 'n') { r += '\n'; ++p; continue; } if (*p == '0') { r += '\0'; ++p; continue; } } r += *p++; } ++p; return r; }
  J val() {
    ws(); J r;
    if (*p == '{') { ++p; r = jo(); ws(); while (*p != '}') { ws(); std::string k = str(); ws(); ++p; r.o.emplace_back(k, val()); ws(); if (*p == ',') ++p; ws(); } ++p; }
    else if (*p == '[') { ++p; r = ja(); ws(); while (*p != ']') { r.a.push_back(val()); ws(); if (*p == ',') ++p; ws(); } ++p; }
    else if (*p == '\'') r = js(str());
    else if (*p == '$') { ++p; r = v[*p++ - '0']; }
    else if (*p == 't') { p += 4; r = jb(true); } else if (*p == 'f') { p += 5; r = jb(false); } else if (*p == 'n') { p += 4; }
    else { bool neg = *p == '-', fl = false; if (neg) ++p; int64_t m = 0; double sc = 1; while ((*p >= '0' && *p <= '9') || *p == '.') { if (*p == '.') fl = true; else { m = m * 10 + (*p - '0'); if (fl) sc *= 10; } ++p; } r = fl ? jd((neg ? -1.0 : 1.0) * (double)m / sc) : ji(neg ? -m : m); }
    return r;
  }
};
inline J P(const char *t, JV args = {}) { PP x{t, args}; return x.val(); }
// ---- RapidJSON
typedef rapidjson::Document RD; typedef rapidjson::Value RV; typedef valijson::adapters::RapidJsonAdapter RA;
inline void toRapid(const J &j, RV &v, RD::AllocatorType &al) {
  switch (j.k) {
  case J::Null: v.SetNull(); break; case J::Bool: v.SetBool(j.b); break; case J::Int: v.SetInt64(j.i); break; case J::Dbl: v.SetDouble(j.d); break;
  case J::Str: v.SetString(j.s.data(), (unsigned)j.s.size(), al); break;
  case J::Arr: v.SetArray(); for (auto &x : j.a) { RV e; toRapid(x, e, al); v.PushBack(e, al); } break;
  case J::Obj: v.SetObject(); for (auto &p : j.o) { RV n, e; n.SetString(p.first.data(), (unsigned)p.first.size(), al); toRapid(p.second, e, al); v.AddMember(n, e, al); } break;
  }
}
struct Doc { RD d; explicit Doc(const J &j) { toRapid(j, d, d.GetAllocator()); } RA ad() const { return RA(d); } };
// ---- parse and validate
inline void parseInto(Schema &s, const J &schema, SchemaParser::Version ver = SchemaParser::kDraft7) { Doc d(schema); RA a = d.ad(); SchemaParser p(ver); p.populateSchema(a, s); }
inline bool parses(const J &schema, SchemaParser::Version ver = SchemaParser::kDraft7) { try { Schema s; parseInto(s, schema, ver); return true; } catch (const std::exception &) { return false; } }
inline bool validates(const Schema &s, const J &inst, Validator::TypeCheckingMode m = Validator::kStrongTypes, ValidationResults *r = nullptr) { Doc d(inst); RA a = d.ad(); Validator v(m); return v.validate(s, a, r); }
inline bool accepts(const J &schema, const J &inst, SchemaParser::Version ver = SchemaParser::kDraft7, Validator::TypeCheckingMode m = Validator::kStrongTypes) { Schema s; parseInto(s, schema, ver); return validates(s, inst, m); }
const SchemaParser::Version D3 = SchemaParser::kDraft3, D4 = SchemaParser::kDraft4, D7 = SchemaParser::kDraft7;
inline bool isInf(double d) { return __builtin_isinf(d); } inline bool isNan(double d) { return __builtin_isnan(d); } inline bool isFin(double d) { return __builtin_isfinite(d); }
inline bool integral(double d) { return __builtin_trunc(d) == d; }

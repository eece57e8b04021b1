// Large schemas and instances: everything concrete except a value or two, at a chosen position among many.
#pragma once
#include "gen.h"
using std::string; using namespace valijson;
static const uint64_t LG_N[] = {17, 65, 260};
static string lgName(uint64_t i) { string s = "name"; s += (char)('a' + i % 26); s += std::to_string(i); return s; }
static J lgInt(const char *n) { return ji((int64_t)(int16_t)vs_sym(n, 16)); }
static uint64_t lgPos(uint64_t n) { switch (vs_choice("pos", 4)) { case 0: return 0; case 1: return n / 2; case 2: return n - 2; default: return n - 1; } }
static void lgCheck(const J &s, const J &x, SchemaParser::Version v = D7) { bool w = want(s, x, v); vs_reach(w ? "in" : "out"); Schema sc; parseInto(sc, s, v); Validator a; ValidationResults r; Doc d(x); bool ok = a.validate(sc, d.ad(), nullptr), ok2 = a.validate(sc, d.ad(), &r); vs_observe("ok", ok); vs_assert(ok == w, "verdict on a large value"); vs_assert(ok2 == w && (r.numErrors() == 0) == w, "verdict and errors on a large value"); }

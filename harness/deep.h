#pragma once
#include "hx.h"
// deep equality, written for the checks. 0: different, 1: equal, 2: left open (integers beyond 2^53 against doubles)
static int eq(const J &a, const J &b) {
  if (a.num() && b.num()) {
    if (a.k == b.k) return a.k == J::Int ? a.i == b.i : a.d == b.d;
    int64_t i = a.k == J::Int ? a.i : b.i; double d = a.k == J::Int ? b.d : a.d;
    if ((double)i != d) return 0;
    if ((i <= (1LL << 53)) & (i >= -(1LL << 53))) return 1;
    return 2;
  }
  if (a.k != b.k) return 0;
  switch (a.k) {
  case J::Null: return 1; case J::Bool: return a.b == b.b; case J::Str: return a.s == b.s;
  case J::Arr: { if (a.a.size() != b.a.size()) return 0; int r = 1; for (size_t i = 0; i < a.a.size(); ++i) { int e = eq(a.a[i], b.a[i]); if (!e) return 0; if (e == 2) r = 2; } return r; }
  case J::Obj: { if (a.o.size() != b.o.size()) return 0; int r = 1; for (auto &p : a.o) { const J *q = b.get(p.first); int e = q ? eq(p.second, *q) : 0; if (!e) return 0; if (e == 2) r = 2; } return r; }
  default: return 0;
  }
}
static J scalar(uint64_t k, const char *n, int sl) {
  std::string t(n);
  switch (k) {
  case 0: return jn();
  case 1: return jb(vs_choice((t + "b").c_str(), 2));
  case 2: return ji((int64_t)vs_sym((t + "i").c_str(), 64));
  case 3: { double d = vs_double((t + "d").c_str()); vs_assume(isFin(d)); return jd(d); }
  default: return js(vs_bytes((t + "s").c_str(), vs_choice((t + "len").c_str(), sl + 1)));
  }
}
static J leaf(const char *n, bool small) { std::string t(n); switch (vs_choice((t + "k").c_str(), small ? 2 : 4)) { case 0: return ji((int64_t)vs_sym((t + "i").c_str(), 64)); case 1: return js(std::string(1, (char)vs_sym((t + "c").c_str(), 8))); case 2: return jn(); default: return jb(vs_choice((t + "b").c_str(), 2)); } }
// nested values; k = 17 is a leaf
static J shape(uint64_t k, const char *n, bool s) {
  std::string t(n); auto L = [&](const char *x, bool sm = true) { return leaf((t + x).c_str(), s || sm); };
  switch (k) {
  case 0: return ja(); case 1: return jo(); case 2: return ja({L("0", false)}); case 3: return ja({L("0"), L("1")});
  case 4: return jo({{"a", L("0", false)}}); case 5: return jo({{"b", L("0", false)}}); case 6: return jo({{"a", L("0")}, {"b", L("1")}}); case 7: return jo({{"b", L("0")}, {"a", L("1")}});
  case 8: return ja({ja({L("0")})}); case 9: return ja({ja(), L("0")}); case 10: return ja({jo({{"a", L("0")}})}); case 11: return jo({{"a", ja({L("0")})}}); case 12: return jo({{"a", jo({{"a", L("0")}})}});
  case 13: return jo({{"a", jo()}}); case 14: return ja({L("0"), L("1"), ji(1)}); case 15: return jo({{"a", ji(1)}, {"b", L("0")}, {"c", L("1")}}); case 16: return jo({{"c", L("0")}, {"a", ji(1)}, {"b", L("1")}});
  default: return L("0", false);
  }
}

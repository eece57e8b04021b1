// String conversions and what they have to give.
#pragma once
#include "gen.h"
using std::string; using namespace valijson; using valijson::adapters::Adapter; using valijson::adapters::FrozenValue;
// what a string converts to, decided by grammars written for the check
struct Conv { bool isInt = false, isNum = false, known = true; int64_t i = 0; double d = 0; };
static const double P10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
static Conv conv(const string &s) {
  Conv c; size_t p = 0, n = s.size(); bool neg = n && s[0] == '-'; if (neg) ++p; auto dg = [&](size_t k) { return k < n && ((s[k] >= '0') & (s[k] <= '9')); };
  size_t a = p; uint64_t m = 0; bool big = false; while (dg(p)) { uint64_t g = (uint64_t)(s[p] - '0'); if (m > (UINT64_MAX - g) / 10) big = true; m = m * 10 + g; ++p; } size_t ni = p - a;
  if (ni && p == n) { c.isNum = true; uint64_t lim = (uint64_t)INT64_MAX + neg; c.isInt = !big && m <= lim; if (c.isInt) { c.i = neg ? (int64_t)(0 - m) : (int64_t)m; } if (big || m >= (1ull << 53)) c.known = false; c.d = neg ? -(double)m : (double)m; return c; }
  int sc = 0; size_t nf = 0; if (p < n && s[p] == '.') { ++p; while (dg(p)) { m = m * 10 + (uint64_t)(s[p] - '0'); ++p; ++nf; --sc; } } if (!(ni + nf)) return c;
  if (p < n && ((s[p] == 'e') | (s[p] == 'E'))) { ++p; bool en = false; if (p < n && ((s[p] == '+') | (s[p] == '-'))) { en = s[p] == '-'; ++p; } if (!dg(p)) return c; int e = 0; while (dg(p)) { e = e * 10 + (s[p] - '0'); ++p; } sc += en ? -e : e; }
  if (p != n) return c; c.isNum = true; if (sc > 22 || sc < -22 || m >= (1ull << 53)) { c.known = false; return c; } c.d = sc < 0 ? (double)m / P10[-sc] : (double)m * P10[sc]; if (neg) c.d = -c.d; return c;
}
// every conversion function of a string: the tests agree with the conversions, and both with the grammar
template <class A> static void stringConversions(const A &a, const string &s, const Conv &c, bool values = true) {
  int64_t i = 7; double d = 7; bool b = false; string t;
  bool mi = a.maybeInteger(), ai = a.asInteger(i), md = a.maybeDouble(), ad = a.asDouble(d), mb = a.maybeBool(), ab = a.asBool(b); vs_observe("mi", mi); vs_observe("md", md); vs_observe("mb", mb);
  vs_assert(mi == c.isInt && ai == mi, "integer"); if (ai) { vs_assert(i == c.i && a.asInteger() == c.i, "integer value"); vs_assert(md, "an integer that is no number"); } vs_assert(md == c.isNum && ad == md, "number"); if (values && ad && c.known) vs_assert(d == c.d && a.asDouble() == c.d, "number value"); if (values && ad && ai) vs_assert(d == (double)i, "integer and number differ");
  bool T = s == "true", F = s == "false"; vs_assert(mb == (T || F) && ab == mb && (!ab || (b == T && a.asBool() == T)), "boolean"); vs_assert(a.maybeNull() == s.empty(), "null"); vs_assert(a.maybeString() && a.asString(t) && t == s && a.asString() == s, "string"); if (a.maybeArray()) vs_assert(a.asArray().size() == 0, "array"); if (a.maybeObject()) vs_assert(a.asObject().size() == 0, "object");
  int th = 0; try { a.asInteger(); } catch (const std::exception &) { th |= 1; } try { a.asDouble(); } catch (const std::exception &) { th |= 2; } try { a.asBool(); } catch (const std::exception &) { th |= 4; } vs_assert(th == (!mi | !md * 2 | !mb * 4), "conversion of another string");
}

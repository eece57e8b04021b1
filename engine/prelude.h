// Included before every harness in the IR build only.  The iostream-based integer
// parser and std::to_string live in libstdc++.so; here are their contracts
// ("C" locale) written in C++.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <string>
#include <string_view>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <fstream>
#include <locale>
#include <regex>
#include <vector>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <functional>
#include <stdexcept>
#include <system_error>
#include <charconv>
#include <chrono>
#include <random>
#include <filesystem>
#include <optional>
#include <variant>
#include <any>
#include <array>
#include <tuple>
#include <bitset>
#include <valarray>
#include <algorithm>
#include <numeric>
#include <cmath>
#include <complex>
#include <future>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
extern "C" bool vs_is_concrete(uint64_t);
extern "C" void __vs_fmtsym();
extern "C" int __vs_fmt_double(char *, size_t, int, double);
extern "C" bool vs_fmt_exact_flag;
namespace std {
__attribute__((noinline)) inline string vs_to_string_u(unsigned long v, bool neg) {
  if (!vs_is_concrete(v) && !vs_fmt_exact_flag) { __vs_fmtsym(); return string("#"); }
  char b[24]; int n = 24; do { b[--n] = (char)('0' + v % 10); v /= 10; } while (v); if (neg) b[--n] = '-'; return string(b + n, 24 - n);
}
inline string vs_to_string(long v) { if (!vs_is_concrete((uint64_t)v) && !vs_fmt_exact_flag) { __vs_fmtsym(); return string("#"); } return vs_to_string_u(v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, v < 0); }
inline string vs_to_string(long long v) { return vs_to_string((long)v); }
inline string vs_to_string(int v) { return vs_to_string((long)v); }
inline string vs_to_string(unsigned long v) { return vs_to_string_u(v, false); }
inline string vs_to_string(unsigned long long v) { return vs_to_string_u(v, false); }
inline string vs_to_string(unsigned v) { return vs_to_string_u(v, false); }
inline string vs_to_string(double v) { char b[400]; int n = __vs_fmt_double(b, sizeof b, 0, v); if (n <= 0) { __vs_fmtsym(); return string("#"); } return string(b, n); }
inline string vs_to_string(float v) { return vs_to_string((double)v); }
inline string vs_to_string(long double v) { return vs_to_string((double)v); }
// istringstream restricted to: construction from a string, >> int64_t, get(char&), operator!, operator bool
class vs_istringstream {
  string s; size_t p = 0; bool eof = false, bad = false;
public:
  explicit vs_istringstream(const string &x) : s(x) {}
  vs_istringstream &operator>>(int64_t &v) {
    if (eof || bad) { bad = true; return *this; }
    while (p < s.size() && (s[p] == ' ' || (s[p] >= 9 && s[p] <= 13))) ++p;
    if (p == s.size()) { eof = bad = true; return *this; } // value is left unchanged: the sentry failed
    bool neg = false, any = false, over = false; if (s[p] == '-' || s[p] == '+') { neg = s[p] == '-'; ++p; }
    unsigned long u = 0;
    for (; p < s.size() && s[p] >= '0' && s[p] <= '9'; ++p) { any = true; if (u > 922337203685477580ul) over = true; else { u = u * 10 + (unsigned long)(s[p] - '0'); if (u > (neg ? 1ul << 63 : (1ul << 63) - 1)) over = true; } }
    if (p == s.size()) eof = true;
    if (!any) { v = 0; bad = true; } else if (over) { v = neg ? INT64_MIN : INT64_MAX; bad = true; } else v = neg ? (int64_t)(0 - u) : (int64_t)u;
    return *this;
  }
  vs_istringstream &get(char &c) { if (eof || bad) { bad = true; return *this; } if (p == s.size()) { eof = bad = true; return *this; } c = s[p++]; return *this; }
  bool operator!() const { return bad; }
  explicit operator bool() const { return !bad; }
};
}
// the value of a digit, as <regex> reads it through an istringstream
namespace std { template <> inline int regex_traits<char>::value(char c, int radix) const { int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; return v < radix ? v : -1; } }
#define to_string vs_to_string
#define istringstream vs_istringstream

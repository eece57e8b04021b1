// Harness API.  Under the symbolic executor the functions are built-in; in the
// native replay build they read a recorded input vector (native.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
extern "C" {
uint64_t vs_sym(const char *name, unsigned width);              // fresh symbolic value
uint64_t vs_choice(const char *name, uint64_t n);               // explore every value in 0..n-1
uint64_t vs_shard_choice(const char *name, uint64_t n);         // same, split over the shards of a run
void vs_assume(bool);
void vs_assert(bool ok, const char *id);
void vs_known(bool ok, const char *id, bool region, const char *finding); // ok, except inside the recorded region
void vs_observe(const char *label, uint64_t v);
void vs_reach(const char *label);
uint64_t vs_live();                                              // live heap bytes
bool vs_is_concrete(uint64_t);
void vs_fail_alloc(uint64_t k);                                  // k-th operator new from now on fails (0: none)
uint64_t vs_alloc_count();
void vs_max_depth(uint64_t);
void vs_fmt_exact(bool);                                         // std::to_string of symbolic numbers: exact, or "#"
}
#ifdef VS_NATIVE
struct VsReg { VsReg(const char *, void (*)()); };
#define VS_ENTRY(n) extern "C" void vs_entry_##n(); static VsReg vs_reg_##n(#n, vs_entry_##n); extern "C" void vs_entry_##n()
#else
#define VS_ENTRY(n) extern "C" void vs_entry_##n()
#endif
inline double vs_double(const char *n) { uint64_t b = vs_sym(n, 64); double d; memcpy(&d, &b, 8); return d; }
inline uint8_t vs_u8(const char *n) { return (uint8_t)vs_sym(n, 8); }
// string of exactly n symbolic bytes
inline std::string vs_bytes(const char *name, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s.push_back((char)vs_sym(name, 8)); return s; }
